"""Exhaustive check of spec/UploadLoop.tla (continuous, triggered and streamed buffers together; acknowledged, refused and lost
uploads, retry limit, size and count limits changed meanwhile, deadlines, buffers removed and added, process restarts) to a bounded depth
plus random longer histories, replayed on the real upload manager over real ring buffers and files under a virtual clock."""
import json
import vk, ws

K = lambda ml, mb, dl, rc, lb=0: dict(ml=ml, mb=mb, dl=dl, rc=rc, lb=lb)
# the logs of the second part are real ones, whose size the specification does not know: no byte limit there
FB = [K(2, 1000000, 2, 1), K(3, 1000000, 1, 2), K(100, 1000000, 3, 0), K(1, 1000000, 1, 1, 600000)]
CONFS = [K(2, 100000, 2, 1), K(3, 30, 1, 2), K(100, 40, 3, 0), K(1, 100000, 1, 1, 600000)]


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    match = ("Match(a, b) == /\\ a.r = b.r /\\ a.req = b.req /\\ a.rm = b.rm /\\ a.lim = b.lim /\\ a.lost = b.lost /\\ a.old = b.old\n"
             "  /\\ Len(b.done) = Cardinality(a.done) /\\ {b.done[i] : i \\in DOMAIN b.done} = a.done")

    def part(name, what, cfgs, sizes, trigs, fam, depth, limit, sim, olds=(False,), maxq=5, confs=CONFS):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in cfgs) + "}"), Confs=confs, Sizes=set(sizes), Olds=set(olds), MaxQ=maxq,
                 Trigs=("tla", "{" + ", ".join(vk.tla(t) for t in trigs) + "}"), Fam=set(fam))
        tests = vk.explore(ctx, "UploadLoop", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "UploadLoop", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["uploads", json.dumps(confs)])
        vk.conform(ctx, "UploadLoop", c, ev, what, match=match, name="TR" + name, parallel=8)

    C = lambda kinds, conf, fb=False: dict(kinds=kinds, conf=conf, fb=fb)
    part("c", "continuous upload", [C(["cont"], i) for i in (1, 2, 3)], [10, 20], [], ["restart", "conf", "rm"], ctx.pick(4, 6), ctx.pick(1200, 30000), (ctx.pick(250, 5000), 40))
    part("t", "triggered upload", [C(["trig", "trig"], i, True) for i in (1, 4)], [1], [[1], [1, 2], [2, 9, 2]], ["restart", "conf", "rm"], ctx.pick(4, 5), ctx.pick(1000, 30000),
         (ctx.pick(250, 5000), 40), olds=(False, True), maxq=4, confs=FB)
    part("m", "all kinds together", [C(["cont", "trig", "stream"], i) for i in (1, 2, 3)], [10, 25], [[2]], ["restart", "rm"], ctx.pick(3, 5), ctx.pick(800, 30000),
         (ctx.pick(250, 5000), 60))
