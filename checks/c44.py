"""Exhaustive check of spec/WorkflowMetrics.tla to a bounded depth over curated and random workflows with emit-metric actions (fixed and extracted
tags and increments, the same and different actions triggered by one log, unusable workflows), plus random longer histories, replayed on the real
WorkflowsEngine and DynamicStats; every metric recorded is compared with its labels and value.  Not tried: increments beyond 32 bits, NaN, infinity."""
import vk, ws

MATCH = """Match(a, b) == {[h |-> x.h, tags |-> {x.tags[i] : i \\in DOMAIN x.tags}, n |-> x.n, sum |-> x.sum] : x \\in {b[i] : i \\in DOMAIN b}} = a
                 /\\ Len(b) = Cardinality(a)"""


def run(ctx):
    drv = ws.build(["drv-workflows"])["drv-workflows"]
    t = lambda n, v, x=False: dict(n=n, v=v, x=x)
    act = lambda id="m", tags=(), h=False, x="", v=1: dict(id=id, tags=list(tags), h=h, x=x, v=v)
    wf = lambda ms, *acts, excl=True, bad=False: dict(ms=[list(m) for m in ms], acts=list(acts), excl=excl, bad=bad)
    log = lambda lvl=1, ty=0, fs=(), ms=(): dict(lvl=lvl, ty=ty, fs=[dict(k=k, v=v, b=False) if not v.startswith("#") else dict(k=k, v=v[1:], b=True) for k, v in fs],
                                                 ms=[dict(k=k, v=v, b=False) if not v.startswith("#") else dict(k=k, v=v[1:], b=True) for k, v in ms])
    logs = [log(0, 3, [("k", "5"), ("j", "u")], [("k", "2.9"), ("z", "-3")]),
            log(4, 0, [("k", "-3"), ("log_level", "x"), ("k", "5")], [("j", "w")]),
            log(2, 7, [("k", "#5"), ("j", "#b")], [("k", "1e1"), ("z", "+4")]),
            log(1, 1, [("k", " 1"), ("j", "")], [("z", "2.9")]),
            log(3, 2, [], [])]
    tags = [t("t", "k", True), t("t", "fix"), t("u", "j", True), t("lv", "log_level", True), t("ty", "log_type", True), t("_id", "other"), t("_id", "k", True), t("t", "z", True), t("_k", "fix"), t("_path_id", "k", True)]
    cfgs = [
        dict(wfs=[wf(["a", "b"], act(v=2), act(tags=[t("t", "k", True)]), act(tags=[t("t", "5")]))], logs=logs),
        dict(wfs=[wf(["a"], act(x="k"), act(x="k", h=True), act("n", x="k")), wf(["ab"], act(x="k"), act(x="z"), act("n", [t("t", "z", True)], x="k"))], logs=logs),
        dict(wfs=[wf(["a"], act(), bad=True), wf(["b", "c"], act(h=True, x="z"), act(h=True, v=3)), wf(["a"], act(tags=[t("_id", "o")]), act(v=2))], logs=logs),
        dict(wfs=[wf(["a", "a"], act("p", [t("t", "1"), t("t", "j", True)]), act("p", [t("t", "j", True)])), wf(["a"], act("p", [t("t", "j", True)]), excl=False)], logs=logs),
        dict(wfs=[wf(["c"], act("q", [t("lv", "log_level", True), t("ty", "log_type", True)], x="log_type"), act("q", x="log_level", h=True))], logs=logs),
    ]
    r = ctx.rng
    ract = lambda: act(r.choice("mn"), r.sample(tags, r.choice([0, 1, 1, 2, 3])), r.random() < .35, r.choice(["", "", "k", "z", "log_type"]), r.choice([0, 1, 1, 2]))
    for _ in range(ctx.pick(60, 600)):
        pool = [ract() for _ in range(3)]
        cfgs.append(dict(wfs=[wf(r.sample(["a", "b", "c", "ab", "bc"], r.choice([1, 2])), *[r.choice(pool) for _ in range(r.choice([1, 2, 2]))],
                              excl=r.random() < .5, bad=r.random() < .15) for _ in range(r.choice([1, 2, 3]))], logs=r.sample(logs, 3)))
    c = dict(Cfgs=("tla", f"{{[k |-> i] : i \\in 1 .. {len(cfgs)}}}"), Confs=("tla", vk.tla(cfgs)), MaxKept=2)
    tests = vk.explore(ctx, "WorkflowMetrics", c, ctx.pick(3, 5), limit=ctx.pick(2500, 60000))
    tests += vk.behaviours(ctx, "WorkflowMetrics", c, ctx.pick(400, 8000), 20)
    ev = vk.run_driver(ctx, drv, tests, shards=8, args=["metrics", vk.json.dumps(cfgs)])
    vk.conform(ctx, "WorkflowMetrics", c, ev, "workflow metrics", match=MATCH, parallel=8)
