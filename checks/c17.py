"""Exhaustive check of spec/BufferManager.tla (configuration updates over two buffer ids, the buffers
themselves as instances of Aggregate, flush requests, users that keep a removed buffer, restarts and
damaged files) to a bounded depth plus random longer histories, replayed on the real Manager with its
flush task.  Updates are not started while a flush request waits for a full buffer."""
import vk, ws

MATCH = """Match(a, b) == /\\ a.r = b.r /\\ a.add = b.add /\\ a.stream = b.stream
               /\\ {a.done[i] : i \\in DOMAIN a.done} = {b.done[i] : i \\in DOMAIN b.done}
               /\\ a.rem = {b.rem[i] : i \\in DOMAIN b.rem} /\\ Cardinality(a.rem) = Len(b.rem)
               /\\ a.files = {b.files[i] : i \\in DOMAIN b.files} /\\ a.bufs = {b.bufs[i] : i \\in DOMAIN b.bufs}"""


def e(i, t, bad="no"):
    return dict(id=i, t=t, bad=bad)


def run(ctx):
    drv = ws.build(["drv-buffer"])["drv-buffer"]

    def part(name, what, confs, recs, fam, depth, limit, sim):
        c = dict(Cfgs=("tla", "{[hold |-> TRUE], [hold |-> FALSE]}"), Confs=("tla", "{" + ", ".join(vk.tla(x) for x in confs) + "}"), MaxRecs=recs, Fam=set(fam))
        tests = []
        if depth:
            tests += vk.explore(ctx, "BufferManager", c, depth, limit=limit, name="MC" + name)
        if sim:
            tests += vk.behaviours(ctx, "BufferManager", c, *sim, name="SIM" + name)
        for t in tests:
            for o in t["ops"]:
                if o["op"] == "corrupt":
                    o["x"] = ctx.rng.randrange(40)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["manager"], timeout=600)
        vk.conform(ctx, "BufferManager", c, ev, what, name="TR" + name, match=MATCH, parallel=8, timeout=800)

    two = [[], [e("a", "c")], [e("b", "t")], [e("a", "c"), e("b", "t")], [e("b", "t"), e("a", "c")]]
    bad = [[e("b", "t"), e("a", "c", "type")], [e("b", "t"), e("a", "c", "size")], [e("a", "c"), e("a", "c")], [e("a", "t"), e("b", "c")]]
    part("u", "buffer set", two + bad, 2, {"stream", "restart"}, ctx.pick(4, 6), ctx.pick(1500, 30000), (ctx.pick(150, 4000), ctx.pick(30, 60)))
    part("f", "buffer set and flushes", [[e("a", "c"), e("b", "t")], [e("a", "c")], [e("a", "c"), e("b", "c")]], 5, {"flush", "restart"},
         ctx.pick(4, 6), ctx.pick(1000, 20000), (ctx.pick(150, 4000), ctx.pick(40, 80)))
