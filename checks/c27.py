"""Exhaustive check of spec/Workflows.tla with persistence, restarts, configuration updates, session changes
and damaged state files to a bounded depth, plus random longer histories, replayed on the real
WorkflowsEngine."""
import wf


def run(ctx):
    part = wf.parts(ctx)
    r = ctx.rng
    fam = ("persist", "restart", "update", "damage")

    def family(s, e):
        # 3: another definition with the id of 1; 4: the same with other actions only
        return [s("v", e), wf.chain("w", not e), wf.fork("v", e, p="x"), s("v", e, p="y"), wf.one("v", e, p="z")]

    confs = [[1, 2], [2, 1], [3, 2], [4], [2], [5, 2], []]
    cfgs = [wf.cfg(family(s, e), confs[:ctx.pick(6, 7)]) for s in wf.SHAPES for e in (True, False)]
    part("p", "state over restarts and updates", cfgs, ctx.pick(3, 4), ctx.pick(1500, 40000), (ctx.pick(400, 12000), ctx.pick(25, 50)), sessions=("s1", "s2"), fam=fam)
    rnd = [wf.cfg([wf.rand(r, "v"), wf.rand(r, "w"), wf.rand(r, "v", p="x"), wf.rand(r, "w", p="x")], [[1, 2], [3, 2], [1, 4], [4]]) for _ in range(ctx.pick(30, 200))]
    part("q", "state over restarts and updates", rnd, None, None, (ctx.pick(400, 12000), ctx.pick(25, 60)), sessions=("s1", "s2"), fam=fam)
