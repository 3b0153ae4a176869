"""Exhaustive check of spec/FlushActions.tla (three actions, server decisions, flush completions, logs to
trigger and continuous buffers, session changes, buffer configuration changes, restarts) to a bounded depth
plus random longer histories, replayed on the real WorkflowsEngine with the driver playing the server."""
import vk, ws

MATCH = """MRe(a, b) == Len(a) = Len(b) /\\ \\A i \\in DOMAIN a : a[i].id = b[i].id /\\ b[i].buf \\in a[i].bufs
MFl(a, b) == Len(a) = Len(b) /\\ \\A i \\in DOMAIN a : a[i] = Set(b[i])
MFld(k, a, b) == IF k = "reqs" THEN MRe(a, b) ELSE IF k = "fl" THEN MFl(a, b)
                 ELSE IF k = "wrote" THEN a = b ELSE a = Set(b) /\\ Cardinality(a) = Len(b)
Match(a, b) == \\A k \\in DOMAIN a : MFld(k, a[k], b[k])"""


def act(i, bufs=(), dest=None, mx=()):
    return dict(id=i, bufs=list(bufs), strm=dest is not None, dest=list(dest or ()), max=list(mx))


def conf(trig, cont, wf=True):
    return dict(trig=trig.split(), cont=cont.split(), wf=wf)


def run(ctx):
    drv = ws.build(["drv-workflows"])["drv-workflows"]

    def part(name, acts, confs, dests, fam, depth, limit, sim, sessions=("s1", "s2")):
        cfgs = [dict(acts=a, order=["c1", "c2"], confs=confs, conf=1) for a in acts]
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in cfgs) + "}"), Dests=("tla", "{" + ", ".join(vk.tla(x.split()) for x in dests) + "}"),
                 Sessions=set(sessions), Fam=set(fam))
        tests = []
        if depth:
            tests += vk.explore(ctx, "FlushActions", c, depth, limit=limit, name="MC" + name)
        if sim:
            tests += vk.behaviours(ctx, "FlushActions", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["flush"], timeout=600)
        vk.conform(ctx, "FlushActions", c, ev, "triggered uploads", name="TR" + name, match=MATCH, parallel=8, timeout=800)

    acts = [
        [act("p", ["t1"]), act("q", ["t1", "t2"], ["c1"], [2]), act("r", [], [], [])],
        [act("p", ["t1"], ["c1", "c2"], [1]), act("q", ["t2", "tx"], ["c2", "cx"], [3, 2]), act("r", ["tx"])],
        [act("p", [], ["cx"], [1]), act("q", [], [], [1])],
    ]
    confs = [conf("t1 t2", "c1 c2"), conf("t1", "c1"), conf("t2", "c2"), conf("t1 t2", ""), conf("", "c1"), conf("t1 t2", "c1", False)]
    part("a", acts, confs[:1], ["t1"], [], ctx.pick(5, 8), ctx.pick(1500, 40000), None, sessions=("s1", "s2"))
    part("b", acts, confs, ["t1", "t1 t2 c1", "tx c2"], ["update", "persist", "restart"], ctx.pick(3, 4), ctx.pick(1200, 40000), (ctx.pick(400, 12000), ctx.pick(30, 60)))
    part("c", acts, confs[:3], ["t1 t2", "c1 t2"], ["update", "persist", "restart"], None, None, (ctx.pick(400, 12000), ctx.pick(40, 80)), sessions=("s1",))
    # few different logs, so that decisions, writes and restarts come close to each other
    part("d", [[act("p", ["t1"], ["c1"], [2])]], confs[:1], ["t1"], ["persist", "restart"], ctx.pick(6, 8), ctx.pick(1500, 20000), None, sessions=("s1",))
    # several actions streaming from the same buffer
    part("e", [[act("p", ["t1"], ["c1"], [2]), act("q", ["t1"], ["c2"], [3]), act("r", ["t1", "t2"], ["c2", "c1"])]], confs[:1], ["t1", "t2 c1"], [], ctx.pick(5, 7), ctx.pick(600, 20000),
         (ctx.pick(200, 6000), ctx.pick(30, 60)), sessions=("s1",))
