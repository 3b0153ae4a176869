"""Exhaustive check of spec/ApiStream.tla (connection attempts, handshakes, losses, pings, runtime changes,
network failures, shutdown at any point, elapsed time) to a bounded depth plus random longer histories, replayed on
the real Api on a paused clock with the driver as network and server.  The drawn reconnect delays are observed and
checked against the interval the configuration allows."""
import api


def run(ctx):
    a = api.Api(ctx)
    a.part("s", "stream", ["more", "bye"], ctx.pick(5, 6), ctx.pick(3000, 40000), (ctx.pick(400, 8000), 30), cfgs=[0, 1])
    a.part("r", "stream and runtime updates", ["rt", "bye"], ctx.pick(5, 6), ctx.pick(3000, 40000), (ctx.pick(400, 8000), 40), cfgs=[1, 3], pings=[-1, 10000])
    a.part("u", "stream and uploads", ["ups", "cut", "bye", "net"], ctx.pick(5, 6), ctx.pick(2000, 40000), (ctx.pick(300, 6000), 30), cfgs=[1], pings=[3000],
           kinds=["opaque"], ups=6, waits=[300, 15001, 70000])
    a.part("b", "stream and bad answers", ["bad", "bye"], ctx.pick(4, 5), ctx.pick(1500, 20000), (ctx.pick(150, 2000), 12), cfgs=[1])
