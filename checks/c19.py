"""Exhaustive check of spec/UploadTracker.tla and spec/ApiStream.tla (tracking, answers with known, unknown and
repeated identifiers, waiters that leave, lost streams, shutdown) to a bounded depth plus random longer histories;
every history is replayed on the real StateTracker resp. on the real Api with the driver as network and server."""
import api, vk


def run(ctx):
    a = api.Api(ctx)
    c = dict(Cfgs=("tla", "{0}"), Ids={"a", "b"}, MaxUps=ctx.pick(4, 5))
    tests = vk.explore(ctx, "UploadTracker", c, ctx.pick(4, 6), limit=ctx.pick(6000, 60000), name="MCt")
    tests += vk.behaviours(ctx, "UploadTracker", {**c, "MaxUps": 30}, ctx.pick(300, 5000), 40, name="SIMt")
    ev = vk.run_driver(ctx, a.drv, tests, name="t", shards=8, args=["tracker"])
    vk.conform(ctx, "UploadTracker", {**c, "MaxUps": 30}, ev, "tracker", name="TRt", parallel=8,
               match="Set(q) == {q[i] : i \\in DOMAIN q}\nMatch(a, b) == a.res = b.res /\\ Len(b.done) = Cardinality(a.done) /\\ Set(b.done) = a.done")
    kinds = ["intent", "sintent", "log", "stats", "sankey", "opaque"]
    up = [dict(op="launch", key="k1", dt=0), dict(op="recv", ms=[dict(k="hs", ping=-1)], cut=0)]
    # Every kind of answer to every kind of upload.
    fixed = []
    for k in kinds:
        for of in kinds:
            for r in ["ok", "fail"] if not of.endswith("intent") else ["yes", "drop", "none"]:
                m = dict(k=of, id="a", r=r) if of.endswith("intent") else dict(k="ack", of=of, id="a", r=r)
                fixed.append(up + [dict(op="upload", k=k, id="a"), dict(op="upload", k="log", id="b"), dict(op="recv", ms=[m], cut=0)])
    a.part("a", "uploads", ["ups", "more"], ctx.pick(5, 6), ctx.pick(2500, 40000), (ctx.pick(600, 10000), 30), fixed=fixed, pings=[-1], waits=[70000], ups=12)
    a.part("b", "uploads and bad answers", ["ups", "bad", "bye"], ctx.pick(5, 6), ctx.pick(2500, 40000), (ctx.pick(300, 5000), 25), pings=[-1],
           waits=[70000], ids=["a"], kinds=["sintent", "stats", "opaque"], ups=8)
