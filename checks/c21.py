"""Exhaustive check of spec/ApiStream.tla over launches (clock moving both ways, changed credentials, kill
durations from cached runtime configuration, rejected authentication, damaged kill records) to a bounded depth plus
random longer histories, replayed on the real Api with the driver as network and server."""
import api


def run(ctx):
    a = api.Api(ctx)
    a.part("k", "kill switch", ["kill", "rt"], ctx.pick(6, 7), ctx.pick(3000, 40000), (ctx.pick(500, 8000), 30), cfgs=[0, 1, 2], keys=["k1", "k2"],
           clocks=[0, 1, 1000, 4999, 5000, -1000], pings=[-1], waits=[70000], launches=8)
    a.part("l", "long kills", ["kill"], ctx.pick(5, 6), ctx.pick(1500, 30000), (ctx.pick(300, 5000), 24), cfgs=[0, 2], keys=["k1", "k2"],
           clocks=[0, 86399999, 86400000, -5000], pings=[-1], waits=[70000], launches=8)
