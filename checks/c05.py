"""Exhaustive check of spec/AppVersion.tla (versions x storage faults x crashes x restarts), every
transition replayed on the real repository with version sets that differ only in kind or formatting.
Bounded number of versions; assumes single storage writes are atomic."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), Versions={1, 2, 3, 4, 5, 6}, Faults={"none", "r", "d", "w"})
    tests = vk.explore(ctx, "AppVersion", c, ctx.pick(4, 6), limit=ctx.pick(6000, 40000))
    tests += vk.behaviours(ctx, "AppVersion", c, ctx.pick(600, 6000), ctx.pick(40, 80))
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["appver"])
    vk.conform(ctx, "AppVersion", c, ev, "app version")
