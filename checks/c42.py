"""Exhaustive check of spec/Reporters.tla (flag and period changes at any time, also before the change is noticed,
cancelled and restarted runs, shutdown; periods of zero); every transition and long random histories replayed on
the real resource reporter, screen recorder and events listener under a virtual clock."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-platform"])["drv-platform"]
    cfgs = [dict(kind=k, on=on, per=p) for k in ("resource", "screens") for on in (True, False) for p in (2, 3)] + [dict(kind="listener", on=on, per=2) for on in (True, False)]
    c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in cfgs) + "}"), Rates={0, 2, 3}, Waits={1, 5}, Kinds={0})
    tests = vk.explore(ctx, "Reporters", c, ctx.pick(6, 7), limit=ctx.pick(8000, 80000))
    c2 = dict(c, Rates={0, 1, 2, 4, 7}, Waits={1, 2, 3, 9, 20})
    tests += vk.behaviours(ctx, "Reporters", c2, ctx.pick(600, 8000), 30)
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["reports"])
    vk.conform(ctx, "Reporters", c2, ev, "periodic reports and listening",
               match='Match(a, b) == (a.n = -1 \\/ a.n = b.n) /\\ a.call = b.call\nMatchOp(op, a, b) == op.op = "stop" \\/ Match(a, b)')
