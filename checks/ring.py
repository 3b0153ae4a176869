"""The checks of C13, C14 and C15 share spec/RingBuf.tla and the driver."""
import json
import vk, ws

MATCH = """Set(d) == {[a |-> d[i].a, r |-> d[i].r] : i \\in DOMAIN d}
Match(a, b) == /\\ a.r = b.r
               /\\ Set(a.done) = Set(b.done) /\\ Len(a.done) = Len(b.done)
               /\\ \\A i \\in 1 .. 12 : a.d[i] = b.d[i]
MatchOp(op, a, b) == Match(a, b) /\\ (op.op = "probe" => MatchProbe(a.probe.st, op, b.probe))"""

ALL = {"misuse", "wait", "handles", "lock", "shutdown", "drain", "crash", "probe"}


def cfg(kind, n, crc=False, blk=False, cur=False, np=1):
    return dict(kind=kind, n=n, e=8 if crc else 4, crc=crc, blk=blk, cur=cur, np=np)


def consts(cfgs, sizes, live, fam):
    return dict(Cfgs=("tla", "{" + ", ".join(vk.tla(c) for c in cfgs) + "}"), Sizes=set(sizes), MaxLive=live, Fam=set(fam))


def shake(ctx, tests):
    """Gives the damages their places."""
    for t in tests:
        for o in t["ops"]:
            if o["op"] == "probe":
                o["x"] = ctx.rng.randrange(1 << 30)
    return tests


def replay(ctx, drv, c, tests, what, name):
    ev = vk.run_driver(ctx, drv, shake(ctx, tests), name=name, shards=8, args=["ring"], timeout=600)
    vk.conform(ctx, "RingBuf", c, ev, what, name="TR" + name, match=MATCH, parallel=8, timeout=800)


def both(ctx, drv, name, what, cfgs, sizes, live, fam, depth, limit, sim):
    """Exhaustive to the depth, every transition replayed (a sample of them when there are too many), and
    random longer histories: sim = (number, depth)."""
    c = consts(cfgs, sizes, live, fam)
    if depth:
        tests = vk.explore(ctx, "RingBuf", c, depth, limit=limit, name="MC" + name)
        replay(ctx, drv, c, tests, what, name)
    if sim:
        tests = vk.behaviours(ctx, "RingBuf", c, *sim, name="SIM" + name)
        replay(ctx, drv, c, tests, what + " (long)", name + "s")


def volatile(ctx):
    drv = ws.build(["drv-buffer"])["drv-buffer"]
    both(ctx, drv, "v1", "in-memory ring buffer", [cfg("vol", 16, np=2)], {1, 4, 5}, 5, {"misuse"}, ctx.pick(9, 12), ctx.pick(6000, 60000), None)
    both(ctx, drv, "v2", "in-memory ring buffer, waiting", [cfg("vol", 13, np=2)], {1, 5}, 5, ALL - {"crash", "probe"}, ctx.pick(7, 9), ctx.pick(6000, 60000), None)
    both(ctx, drv, "v3", "in-memory ring buffer, larger", [cfg("vol", 60, np=3), cfg("vol", 31, np=3), cfg("vol", 100, np=2)],
         {0, -1, 1, 2, 3, 7, 12, 20, 27, 28, 57}, 12, ALL - {"crash", "probe"}, None, None, (ctx.pick(500, 5000), ctx.pick(60, 100)))
    threads(ctx, drv, "vol", "in-memory ring buffer, producers and reader at the same time", [13, 20, 31, 60], ctx.pick(250, 3000))


def threads(ctx, drv, kind, what, ns, num):
    """Producers and a reader on threads of their own."""
    r = ctx.rng
    vol = kind == "vol"
    tests = []
    for _ in range(num):
        ids = iter(range(1, 200))
        c = cfg(kind, r.choice(ns), crc=not vol, blk=not vol, np=3)

        def prod(p):
            ops = [{"op": "regp", "p": p}]
            for _ in range(r.choice([1, 2, 3] if vol else [4, 5, 6])):
                ops.append({"op": "reserve", "p": p, "id": next(ids), "len": r.choice([1, 2, 5, 9, 20] if vol else [1, 1, 1, 12]), "block": True})
                ops.append({"op": "commit", "p": p})
            return ops
        ts = [[{"op": "regc"}] + [{"op": o, "how": "no"} for _ in range(r.choice([2, 3] if vol else [5, 6, 7])) for o in ("start", "finish")]]
        ts += [prod(p) for p in range(1, r.choice([3, 3, 4]) if vol else 2)]
        for t in ts:
            for o in t:
                # (a reader on disk goes on to the next record at once, and keeps it for a while)
                o["delay"] = r.choice([0, 0, 0, 30, 100]) if vol or o["op"] != "start" else r.choice([0, 0, 0, 0, 100])
                if not vol and o["op"] == "finish":
                    o["delay"] = r.choice([30, 100, 200])
        tests.append({"cfg": c, "threads": ts})
    ev = vk.run_driver(ctx, drv, tests, name="conc", shards=8, args=["ring"], timeout=300)
    c = consts([cfg(kind, ns[0], crc=not vol, blk=not vol, np=3)], {1}, 99, ALL)
    vk.conform(ctx, "RingBuf", c, ev, what, conc=True, threads=4, match="Match(a, b) == a.r = b.r", name="TRconc", parallel=8, timeout=600)


def persistent(ctx):
    """C14: crashes and damage."""
    drv = ws.build(["drv-buffer"])["drv-buffer"]
    o, b, bc = cfg("nvo", 24, crc=True, blk=True), cfg("nvb", 24, crc=True, blk=True), cfg("nvb", 30, crc=True, blk=True, cur=True)
    fam = {"crash", "handles", "probe"}
    both(ctx, drv, "p1", "persistent ring buffer", [o], {1, 4}, 4, fam, ctx.pick(8, 10), ctx.pick(4000, 40000), None)
    both(ctx, drv, "p2", "persistent ring buffer, cursor", [bc], {1, 4}, 4, fam, ctx.pick(8, 10), ctx.pick(4000, 40000), None)
    big = [cfg("nvo", 60, crc=True, blk=True), cfg("nvo", 83, crc=True), cfg("nvb", 60, crc=True, blk=True), cfg("nvb", 64, crc=True, blk=True, cur=True), cfg("nvb", 120, crc=True, blk=True, cur=True)]
    both(ctx, drv, "p3", "persistent ring buffer, larger", big, {0, 1, 2, 3, 7, 12, 20, 27}, 9, fam | {"misuse"}, None, None, (ctx.pick(600, 6000), ctx.pick(60, 100)))


def blocking(ctx):
    """C15: waiting writers, cursors, drains, shutdown."""
    drv = ws.build(["drv-buffer"])["drv-buffer"]
    b, bc = cfg("nvb", 18, crc=False, blk=True), cfg("nvb", 18, blk=True, cur=True)
    both(ctx, drv, "b1", "no-overwrite ring buffer, cursor", [bc], {1, 4}, 4, ALL - {"probe", "crash", "lock"}, ctx.pick(8, 10), ctx.pick(4000, 40000), None)
    both(ctx, drv, "b2", "no-overwrite ring buffer", [b], {1, 4}, 4, ALL - {"probe", "crash", "lock"}, ctx.pick(8, 10), ctx.pick(2000, 40000), None)
    both(ctx, drv, "b3", "ring buffer on disk, waiting for readers", [cfg("nvo", 18, blk=True), cfg("nvo", 18)], {1, 4}, 4, ALL - {"probe", "crash", "lock"}, ctx.pick(8, 10), ctx.pick(2000, 40000), None)
    big = [cfg("nvb", 60, crc=True, blk=True), cfg("nvb", 64, crc=True, blk=True, cur=True), cfg("nvb", 120, crc=True, cur=True),
           cfg("nvb", 40, cur=True), cfg("nvo", 60, crc=True, blk=True)]
    both(ctx, drv, "b4", "no-overwrite ring buffer, larger", big, {0, 1, 2, 3, 7, 12, 20, 27}, 9, ALL - {"probe"}, None, None, (ctx.pick(600, 6000), ctx.pick(60, 100)))
    threads(ctx, drv, "nvo", "ring buffer on disk, writers and reader at the same time", [24, 30], ctx.pick(400, 4000))
