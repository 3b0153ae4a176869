"""Exhaustive check of spec/RateLimit.tla (requests smaller than, equal to and larger than the budget, waiting requests taken up in any
order, abandoned requests, configuration changes) to a bounded depth plus random longer histories, replayed on the real upload service
under a virtual clock.  Retries of an admitted request are not counted again (as the property says: admitted requests)."""
import json
import vk, ws

CONFS = [dict(num=10, per=3), dict(num=4, per=1), dict(num=0, per=5)]


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]

    def part(name, what, cfgs, sizes, steps, maxw, depth, limit, sim):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in cfgs) + "}"), Confs=CONFS, Sizes=set(sizes), Steps=set(steps), MaxW=maxw)
        tests = vk.explore(ctx, "RateLimit", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "RateLimit", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["rate", json.dumps(CONFS)])
        vk.conform(ctx, "RateLimit", c, ev, what, name="TR" + name, parallel=8)

    part("a", "admission", CONFS, [1, 4, 10], [1, 2, 4], 3, ctx.pick(4, 7), ctx.pick(2000, 80000), (ctx.pick(250, 8000), 40))
    part("b", "longer waits", CONFS[:2], [0, 3, 5, 11], [1, 3, 7], 5, ctx.pick(3, 6), ctx.pick(1000, 60000), (ctx.pick(150, 6000), 50))
