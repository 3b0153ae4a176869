"""Exhaustive check of spec/Workflows.tla (the engine's workflows, runs and traversals) to a bounded
depth over curated and random state machines, plus random longer histories, replayed on the real
WorkflowsEngine: emitted actions, number of active traversals and all counters after every log."""
import wf


def run(ctx):
    part = wf.parts(ctx)
    single = [wf.cfg([s("w", e)], [[1]]) for s in wf.SHAPES for e in (True, False)]
    r = [wf.cfg([wf.rand(ctx.rng, "w")], [[1]]) for _ in range(ctx.pick(25, 150))]
    part("s", "one workflow", single + r, ctx.pick(5, 7), ctx.pick(2500, 40000), (ctx.pick(300, 6000), ctx.pick(20, 40)))
    two = [wf.cfg([wf.rand(ctx.rng, "v"), wf.rand(ctx.rng, "w"), wf.chain("u", True)], [ctx.rng.sample([1, 2, 3], 3)]) for _ in range(ctx.pick(15, 80))]
    two += [wf.cfg([s("v", e), t("w", not e)], [[1, 2]]) for s in wf.SHAPES for t in wf.SHAPES[:3] for e in (True, False)]
    part("t", "several workflows", two, ctx.pick(3, 5), ctx.pick(1200, 20000), (ctx.pick(300, 6000), ctx.pick(25, 50)), gaps=(0, 1), sessions=("s1",))
