"""Exhaustive check of spec/ClientConfig.tla (valid updates and updates with an invalid buffer, an impossible size, an invalid selector or no
content, with invalid streams, workflows and filters left out; restarts; process ends while an update waits for the buffers' users or for the
logging loop; damaged, lost and unwritable cache files; workflows switched on and off) to a bounded depth plus random longer histories,
replayed on the real configuration pipeline with the real buffer manager."""
import random
import vk, ws

MATCH = ('Set(q) == {q[i] : i \\in DOMAIN q}\n'
         'SameUpd(a, b) == /\\ a.cont = Set(b.cont) /\\ a.trig = Set(b.trig) /\\ a.wf = Set(b.wf) /\\ a.left = b.left /\\ a.filt = b.filt\n'
         '                 /\\ \\A x \\in DOMAIN a.sel : a.sel[x] = Set(b.sel[x]) /\\ a.tail[x] = Set(b.tail[x])\n'
         'Match(a, b) == /\\ a.ack = b.ack /\\ a.hs = b.hs /\\ a.bufs = Set(b.bufs) /\\ a.live = b.live /\\ a.miss = b.miss /\\ a.disk = b.disk\n'
         '               /\\ Len(a.upd) = Len(b.upd) /\\ \\A i \\in DOMAIN a.upd : SameUpd(a.upd[i], b.upd[i])')


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    buf = lambda i, t, tags="", bad="no": dict(id=i, t=t, bad=bad, tags=list(tags))
    it = lambda i, tags="", ok=True: dict(id=i, tags=list(tags), ok=ok)
    conf = lambda bufs=(), streams=(), wfs=(), filts=(), some=True: dict(bufs=list(bufs), streams=list(streams), wfs=list(wfs), filts=list(filts), some=some)
    p, q = buf("p", "c", "a"), buf("q", "t", "ab")

    def part(name, what, confs, fam, maxv, depth, limit, sim):
        c = dict(Cfgs=("tla", "{[wf |-> TRUE], [wf |-> FALSE]}" if "flag" in fam else "{[wf |-> TRUE]}"), Confs=("tla", vk.tla(confs)),
                 Fam=set(fam) if fam else ("tla", "{}"), MaxV=maxv)
        tests = vk.explore(ctx, "ClientConfig", c, depth, limit=limit, name="MC" + name)
        tests += vk.behaviours(ctx, "ClientConfig", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["conf", vk.json.dumps(confs)])
        vk.conform(ctx, "ClientConfig", c, ev, what, match=MATCH, name="TR" + name, parallel=8)

    part("a", "valid and invalid updates",
         [conf([p], [it("S", "a"), it("T", "ab", False)], [it("w"), it("v", ok=False)], [it("", "b"), it("", "a", False)]),
          conf([q], [], [it("u")], [it("", "a")]), conf([p, q], [it("S", "b"), it("U", "ab")]),
          conf([q, buf("r", "c", "a", "sel")], [it("S", "a")]), conf([buf("p", "c", "b"), buf("z", "t", "", "size")]),
          conf([buf("y", "c", "b"), buf("z", "t", "", "type")], [it("V", "a")]), conf(some=False), conf()],
         ["flag"], 12, ctx.pick(3, 4), ctx.pick(1200, 40000), (ctx.pick(250, 8000), 20))
    part("b", "cache file", [conf([p], [it("S", "a")]), conf([p, q]), conf([q, buf("r", "c", "a", "sel")])],
         ["crash", "disk"], 12, ctx.pick(4, 5), ctx.pick(2500, 60000), (ctx.pick(300, 8000), 25))

    r = random.Random(36)
    kinds = dict(p="c", q="t", r="c", s="t")
    some = lambda: "".join(x for x in "ab" if r.random() < 0.5)
    confs = []
    for _ in range(14):
        ids = [i for i in kinds if r.random() < 0.5]
        r.shuffle(ids)
        bufs = [buf(i, kinds[i], some(), "sel" if r.random() < 0.1 else "no") for i in ids]
        if r.random() < 0.15:
            bufs.insert(r.randrange(len(bufs) + 1), buf("z", "t", some(), r.choice(["size", "type"])))
        confs.append(conf(bufs, [it(x, some() or "a", r.random() < 0.7) for x in "ST" if r.random() < 0.3],
                          [it(x, ok=r.random() < 0.7) for x in "uvw" if r.random() < 0.4], [it("", some() or "b", r.random() < 0.7) for _ in range(r.randrange(3))]))
    part("c", "arbitrary configurations", confs, ["flag", "crash", "disk"], 30, 1, 50, (ctx.pick(150, 6000), 50))
