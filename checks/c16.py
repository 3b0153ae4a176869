"""Exhaustive check of spec/Aggregate.tla (two instances of RingBuf and the copying thread between them;
producers, consumer, flushes, locks, shutdown, crash, restart) to a bounded depth plus random longer
histories, replayed on the real aggregate buffer with its copying thread run to rest after every operation.
Bounded sizes; schedules inside a single copy step are not enumerated."""
import vk, ws

MATCH = """Set(d) == {[a |-> d[i].a, r |-> d[i].r] : i \\in DOMAIN d}
Match(a, b) == /\\ a.r = b.r
               /\\ Set(a.done) = Set(b.done) /\\ Len(a.done) = Len(b.done)
               /\\ \\A i \\in 1 .. 12 : a.dv[i] = b.dv[i] /\\ a.dn[i] = b.dn[i]"""


def run(ctx):
    drv = ws.build(["drv-buffer"])["drv-buffer"]

    def part(name, what, cfgs, sizes, live, fam, depth, limit, sim):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(dict(over=o, vn=v, nn=n)) for o, v, n in cfgs) + "}"), Sizes=set(sizes), MaxLive=live, Fam=set(fam))
        tests = []
        if depth:
            tests += vk.explore(ctx, "Aggregate", c, depth, limit=limit, name="MC" + name)
        if sim:
            tests += vk.behaviours(ctx, "Aggregate", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["ring"], timeout=600)
        vk.conform(ctx, "Aggregate", c, ev, what, name="TR" + name, match=MATCH, parallel=8, timeout=800)

    fam = {"wait", "drain", "lock", "shutdown", "crash"}
    part("o", "aggregate buffer, overwriting", [(True, 18, 26)], {1, 5}, 5, fam, ctx.pick(6, 8), ctx.pick(1500, 30000), None)
    part("b", "aggregate buffer, no overwriting", [(False, 18, 26)], {1, 5}, 5, fam, ctx.pick(6, 8), ctx.pick(1500, 30000), None)
    part("l", "aggregate buffer, larger", [(True, 40, 40), (False, 40, 40), (True, 60, 100), (False, 60, 100)], {0, 1, 2, 7, 12, 20, 34, 36}, 10, fam,
         None, None, (ctx.pick(300, 5000), ctx.pick(50, 100)))
    part("s", "aggregate buffer, without crashes and shutdown", [(True, 40, 50), (False, 40, 50), (True, 60, 100), (False, 60, 100)], {1, 2, 7, 12, 20}, 10, {"wait", "drain"},
         None, None, (ctx.pick(200, 4000), ctx.pick(70, 120)))
