"""Exhaustive check of spec/Workflows.tla with limits (active traversals, matched logs, duration) to a
bounded depth over curated and random state machines, including restarts with another limit, plus random
longer histories, replayed on the real WorkflowsEngine: its own count of active traversals and all its
counters against the specification's sums after every log."""
import wf


def run(ctx):
    part = wf.parts(ctx)
    r = ctx.rng
    lim = [wf.cfg([s("w", e, l, d)], [[1]], lims=[k]) for s in wf.SHAPES for e in (True, False) for l, d, k in ((2, 0, 9), (3, 0, 3), (0, 2, 9), (0, 0, 2), (4, 1, 4))]
    lim += [wf.cfg([wf.rand(r, "w", lim=r.choice([0, 1, 2, 3, 4, 5]), dur=r.choice([0, 0, 1, 2]))], [[1]], lims=[r.choice([1, 2, 3, 4, 9])]) for _ in range(ctx.pick(40, 250))]
    part("m", "limits of one workflow", lim, ctx.pick(4, 6), ctx.pick(1500, 40000), (ctx.pick(400, 8000), ctx.pick(20, 40)), gaps=(0, 2))
    two = [wf.cfg([wf.rand(r, "v", lim=r.choice([0, 2, 3])), wf.rand(r, "w", lim=r.choice([0, 3, 5])), wf.fork("u", r.random() < .5)], [r.sample([1, 2, 3], 3)], lims=[r.choice([2, 3, 4, 5])])
           for _ in range(ctx.pick(30, 200))]
    part("t", "limits across workflows", two, ctx.pick(3, 5), ctx.pick(1000, 20000), (ctx.pick(400, 8000), ctx.pick(25, 50)), gaps=(0, -1, 3), sessions=("s1", "s2"))
    re = [wf.cfg([wf.rand(r, "v"), wf.fork("w", False), wf.chain("u", False)], [[1, 2, 3], [3, 1]], lims=[9, 2, 3]) for _ in range(ctx.pick(10, 60))]
    part("r", "limits over restarts", re, ctx.pick(3, 4), ctx.pick(700, 12000), (ctx.pick(300, 5000), ctx.pick(25, 50)), fam=("persist", "restart", "update"))
