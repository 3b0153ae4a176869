"""Exhaustive check of spec/Screenshots.tla (requests, arriving logs of every kind, flag changes, cancelled and
restarted runs, shutdown); every transition and long random histories replayed on the real recorder, its request
handle and its log interceptor, with the counters and the calls of the target compared after every operation."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-platform"])["drv-platform"]
    c = dict(Cfgs=("tla", "{[on |-> TRUE], [on |-> FALSE]}"), Burst=2, Eager=False)
    tests = vk.explore(ctx, "Screenshots", c, ctx.pick(7, 9), limit=ctx.pick(6000, 60000))
    tests += vk.behaviours(ctx, "Screenshots", c, ctx.pick(400, 6000), 40)
    c["Eager"] = True
    tests += vk.explore(ctx, "Screenshots", c, ctx.pick(11, 13), limit=ctx.pick(5000, 40000), name="MCE")
    c["Eager"] = False
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["shots"])
    vk.conform(ctx, "Screenshots", c, ev, "screenshot requests")
