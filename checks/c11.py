"""Exhaustive check of spec/Completion.tla (creating, sending, dropping, waiting in both forms, abandoning),
with every transition replayed on the real types under an executor that polls only woken futures and
on real threads for the blocking form.  Bounded number of simultaneous signals."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), N=2, Values={7, 8}, Delays={0, 200})
    tests = vk.explore(ctx, "Completion", c, ctx.pick(6, 8), limit=ctx.pick(4000, 40000))
    big = dict(c, N=5)
    more = vk.behaviours(ctx, "Completion", big, ctx.pick(500, 5000), 20)
    match = "Match(a, b) == a.got = {b.got[i] : i \\in 1 .. Len(b.got)} /\\ Len(b.got) = Cardinality(a.got)"
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["completion"])
    vk.conform(ctx, "Completion", c, ev, "completion", match=match)
    ev = vk.run_driver(ctx, drv, more, name="more", shards=4, args=["completion"])
    vk.conform(ctx, "Completion", big, ev, "completion", name="TRbig", match=match)
    # a sender that takes its time
    slow = [{"cfg": {"x": 0}, "ops": [{"op": "new", "id": 1}, {"op": "block", "id": 1, "d": 13_000_000}, {"op": e, "id": 1, "v": 7}]} for e in ("send", "drops")]
    ev = vk.run_driver(ctx, drv, slow, name="slow", shards=2, args=["completion"])
    vk.conform(ctx, "Completion", c, ev, "completion, late sender", name="TRslow", match=match)
