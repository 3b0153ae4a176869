"""Exhaustive check of spec/ErrorReports.tla (budget of five, disabling, overrides nested and left by panics, synchronous and
asynchronous, reporters that run into errors themselves or panic, counters registered and replaced) to a bounded depth plus random
longer histories, replayed on the real handler in a process per history; errors of several threads are raced.
Asynchronous overrides are only tried one inside the other, not interleaved on one thread."""
import vk, ws

HOWS = ["plain", "with", "details", "or", "withor", "ok", "okor", "okwithor"]


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]

    def part(name, what, hows, over, inst, races, depth, limit, sim, maxov=2):
        c = dict(Cfgs=("tla", "{[inst |-> 1]}"), Hows=set(hows), Over=set(over), Inst=set(inst), MaxOv=maxov,
                 Races=("tla", "{" + ", ".join(vk.tla(r) for r in races) + "}"))
        tests = vk.explore(ctx, "ErrorReports", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "ErrorReports", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["errors"])
        vk.conform(ctx, "ErrorReports", c, ev, what, name="TR" + name, parallel=8)

    R = lambda n, k: dict(op="race", n=n, k=k)
    part("a", "errors and overrides", ["plain", "or"], [2, 3], [3], [], ctx.pick(5, 6), ctx.pick(1200, 20000), (ctx.pick(250, 5000), 25))
    part("b", "ways to handle an error", HOWS, [2, 4], [2, 4], [R(2, 2)], ctx.pick(3, 4), ctx.pick(600, 10000), (ctx.pick(250, 5000), 20), maxov=3)
    part("r", "threads", ["plain"], [2], [2], [R(2, 1), R(4, 1), R(2, 2), R(6, 3)], ctx.pick(3, 4), ctx.pick(600, 8000), (ctx.pick(150, 3000), 12), maxov=1)
