"""Exhaustive check of spec/BoundedQueue.tla (both queues; sizes from nothing to more than the limit, several senders, dropped ends)
to a bounded depth plus random longer histories, replayed on the real queues with their counters; threads sending at once, with and
without a receiver at work, are raced and judged by the same module.  Concurrency is sampled, not enumerated."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    match = "Match(a, b) == a = b\nMatchOp(op, a, b) == IF op.op = \"race\" THEN RaceOk(op, b) ELSE Match(a, b)"
    R = lambda t, n, size, recv: dict(op="race", t=t, n=n, size=size, recv=recv)
    snd = lambda z: dict(op="send", size=z)

    def part(name, what, cfgs, sizes, depth, limit, sim, races=(), fixed=(), maxs=3):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in cfgs) + "}"), Sizes=set(sizes), MaxS=maxs,
                 Races=("tla", "{" + ", ".join(vk.tla(r) for r in races) + "}"))
        tests = [dict(cfg=x, ops=f) for x in cfgs for f in fixed]
        tests += vk.explore(ctx, "BoundedQueue", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "BoundedQueue", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["queue"])
        vk.conform(ctx, "BoundedQueue", c, ev, what, match=match, name="TR" + name, parallel=8)

    K = lambda kind, c, b: dict(kind=kind, maxc=c, maxb=b)
    part("p", "pre-configuration buffer", [K("pre", c, b) for c in (0, 1, 3) for b in (0, 4, 7)], [0, 1, 4, 5], ctx.pick(5, 6), ctx.pick(4000, 60000), (ctx.pick(300, 6000), 30))
    part("c", "bounded channel", [K("chan", c, b) for c in (1, 2, 4) for b in (0, 4, 7)], [0, 1, 4, 5], ctx.pick(4, 6), ctx.pick(4000, 60000), (ctx.pick(500, 10000), 40))
    fill = [snd(1)] * 6 + [dict(op="recv")] * 6
    reps = ctx.pick(10, 200)
    fixed = [sum([[R(t, n, z, r)] + fill for _ in range(reps)], []) for t, n, z, r in
             [(2, 40, 1, False), (4, 40, 1, True), (6, 30, 2, True), (6, 30, 2, False), (3, 40, 3, True), (8, 20, 5, True)]]
    part("r", "threads sending at once", [K("chan", 4, 6), K("chan", 2, 100), K("chan", 100, 5)], [1, 2], ctx.pick(3, 3), ctx.pick(200, 2000), (ctx.pick(60, 600), 20),
         races=[R(3, 10, 1, True), R(3, 10, 2, False)], fixed=fixed)
