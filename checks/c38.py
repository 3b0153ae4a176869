"""Exhaustive check of spec/Sankey.tla (paths of two diagrams extracted from logs, their limits and tags,
the processor's requests, answers, failures and memory, restarts) to a bounded depth plus random longer
histories beyond the memory of a hundred paths, replayed on the real WorkflowsEngine with the driver
playing the server.  Path identifiers are compared by equality only."""
import vk, ws

MATCH = """MRe(a, b) == Len(a) = Len(b) /\\ \\A i \\in DOMAIN a : a[i].k = b[i].k /\\ a[i].id = b[i].id /\\ a[i].n = b[i].n /\\ a[i].nodes = b[i].nodes
MMe(a, b) == /\\ Cardinality(a) = Len(b)
             /\\ \\A i \\in DOMAIN b : /\\ [id |-> b[i].id, n |-> b[i].n, tags |-> Set(b[i].tags)] \\in a
                                      /\\ b[i].v = 1 /\\ b[i].name = "workflows_dyn:action"
Match(a, b) == MRe(a.reqs, b.reqs) /\\ ("mets" \\in DOMAIN a => MMe(a.mets, b.mets))"""


def x(i, v, counts=True):
    return dict(id=i, v=v, counts=counts)


def em(i, *tags):
    return dict(id=i, tags=[list(t) for t in tags])


def run(ctx):
    drv = ws.build(["drv-workflows"])["drv-workflows"]

    def part(name, what, cfgs, values, fam, depth, limit, sim, fixed=None):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(y) for y in cfgs) + "}"), Values=set(values), Mem=100, Fam=set(fam))
        tests = fixed or []
        if depth:
            tests += vk.explore(ctx, "Sankey", c, depth, limit=limit, name="MC" + name)
        if sim:
            tests += vk.behaviours(ctx, "Sankey", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["sankey"], timeout=600)
        vk.conform(ctx, "Sankey", c, ev, what, name="TR" + name, match=MATCH, parallel=8, timeout=800)

    cfgs = [
        dict(ext=dict(a=[x("k1", "$")], b=[x("k1", "$")], e=[], f=[x("k1", "z", False)]), emit=dict(a=[], b=[], e=[], f=[em("k1")]), limit=dict(k1=2)),
        dict(ext=dict(a=[x("k1", "$"), x("k2", "s")], b=[x("k2", "$"), x("k1", "t")], e=[x("k1", "$", False)], f=[]),
             emit=dict(a=[], b=[], e=[em("k1", ("t", "$"), ("u", "x"))], f=[em("k1", ("t", "$")), em("k2")]), limit=dict(k1=3, k2=1)),
        dict(ext=dict(a=[x("k1", "$", False)], b=[x("k1", "$")], e=[x("k2", "$"), x("k2", "$")], f=[x("k2", "$")]),
             emit=dict(a=[em("k1")], b=[], e=[], f=[em("k1"), em("k2")]), limit=dict(k1=0, k2=2)),
        # values that do not count before, between and after those that do
        dict(ext=dict(a=[x("k1", "$", False), x("k1", "$")], b=[x("k1", "$")], e=[x("k1", "x", False)], f=[x("k1", "y")]), emit=dict(a=[], b=[], e=[], f=[em("k1")]), limit=dict(k1=2)),
    ]
    part("a", "sankey paths", cfgs, ["", "u", "v"], [], ctx.pick(4, 6), ctx.pick(2000, 40000), (ctx.pick(600, 12000), ctx.pick(40, 80)))
    part("r", "sankey paths over restarts", cfgs, ["u", "v"], ["restart"], ctx.pick(4, 5), ctx.pick(1000, 20000), (ctx.pick(300, 6000), ctx.pick(40, 80)))
    part("m", "sankey paths beyond the memory", cfgs[:2], ["u", "v"], ["fill"], None, None, (ctx.pick(40, 800), ctx.pick(40, 60)))
    # Values whose concatenations are alike.
    log = lambda m, f: dict(op="log", m=m, f=f)
    part("c", "path-id-of-ab,c-and-a,bc", cfgs[:1], ["ab", "c"], [], None, None, None,
         fixed=[dict(cfg=cfgs[0], ops=[log("a", "ab"), log("b", "c"), log("f", ""), log("a", "a"), log("b", "bc"), log("f", "")])])
