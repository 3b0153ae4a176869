"""Exhaustive check of spec/LogFilter.tla (every transform of a pool on small logs) and random longer histories of chains
of filters over seeded pools, replayed on the real filter chain."""
import vk, ws, lm


def run(ctx):
    drv = ws.build(["drv-match"])["drv-match"]
    r = ctx.rng

    def part(name, what, fs, fields, nf, nfl, depth, limit, sim):
        c = dict(Cfgs=("tla", "{[d |-> 1]}"), Filters=fs, Fields=fields, Msgs=lm.MSGS[:3], Levels=[0, 2, 4], MaxFields=nf, MaxFilters=nfl)
        tests = vk.explore(ctx, "LogFilter", c, depth, limit=limit, name="MC" + name) if depth else []
        if sim:
            tests += vk.behaviours(ctx, "LogFilter", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, args=["filter"], name=name, shards=8)
        vk.conform(ctx, "LogFilter", c, ev, what, name="TR" + name, parallel=8,
                   match="Match(a, b) == TRUE\nMatchOp(op, a, b) == op.op = \"process\" => (a.failed = b.failed /\\ SameLog(a.log, b.log))")

    base = lambda l: dict(t="base", leaf=l)
    always = dict(t="and", kids=[])
    never = dict(t="or", kids=[])

    def tf(k, name, v="", frm="x", ft=1, ov=True, pat="", rep=""):
        return {"k": k, "name": name, "v": lm.ch(v), "from": frm, "ft": ft, "ov": ov, "pat": lm.ch(pat), "rep": lm.ch(rep)}

    def rnd(n):
        out = []
        for _ in range(n):
            k = r.choice(["cap", "cap", "set", "set", "copy", "copy", "rm", "sub", "sub", "none" if r.random() < .2 else "cap", "noval" if r.random() < .2 else "copy"])
            out.append(tf(k, r.choice(["x", "y", "x", "z", "log_level", "_message"] if r.random() < .3 else ["x", "y", "z"]), r.choice(["", "a", "new"]),
                          r.choice(["x", "y", "z", "_message", "log_level", "log_type"]), r.choice([1, 2, 1, 2, 1, 2, 0, 3]), r.random() < .5,
                          r.choice(lm.PATS), r.choice(["", "x", "$0$0", "[$0]", "$$", "b"])))
        return out

    def matchers(n):
        out = []
        for l in lm.leaves1(r, n):
            t = base(l)
            out.append(r.choice([t, t, t, dict(t="not", kids=[t]), dict(t="or", kids=[t, base(lm.leaf("set", "y"))])]))
        return out + [always, dict(t="missing"), base(lm.leaf("set", "x")), base(lm.leaf("str", "x", 3, "new")), base(lm.leaf("str", "z", 3, "a"))]

    vals = ["a", "ab", "abc", "", "1", "aab"]
    allf = [lm.field(k, v, b) for k in "xy" for v, b in (("a", False), ("ab", False), ("a", True))]
    # every transform on every pair of fields
    ts = [tf("cap", "x"), tf("rm", "x"), tf("none", "x"), tf("noval", "x")] \
        + [tf("set", nm, "new", ft=ft, ov=ov) for nm in ("x", "log_level", "_message") for ft in (0, 1, 2, 3) for ov in (True, False)] \
        + [tf("copy", "x", frm=f, ft=ft, ov=ov) for f in ("y", "x", "_message", "log_level", "log_type", "q") for ft in (1, 2) for ov in (True, False)]
    part("a", "filters: single transforms", [dict(m=always, tf=[x]) for x in ts] + [dict(m=always, tf=[])], allf, 2, 1, 4, ctx.pick(3000, 60000), None)
    ts = [tf("sub", "x", pat=p, rep=q) for p in lm.PATS for q in ("", "x", "$0$0", "[$0]", "$$")]
    part("b", "filters: substitution", [dict(m=always, tf=[x]) for x in ts] + [dict(m=never, tf=[x]) for x in ts[:3]], [lm.field("x", v) for v in vals] + [lm.field("x", "a", True)], 1, 1, 3, ctx.pick(1500, 20000), None)
    part("c", "filters: one after another", [dict(m=m, tf=[x]) for m in (always, dict(t="missing"), base(lm.leaf("set", "x"))) for x in rnd(8)], allf[:3], 1, 2, ctx.pick(3, 4), ctx.pick(1500, 20000), None)
    for i in range(ctx.pick(2, 14)):
        part(f"r{i}", "filters: chains", [dict(m=r.choice(matchers(4)), tf=rnd(r.choice([0, 1, 1, 2, 2, 3]))) for _ in range(24)], lm.fields(r, 10, keys="xxyz", vals=vals + r.sample(lm.TEXTS, 3)), 3, 4, None, None, (ctx.pick(300, 4000), ctx.pick(25, 60)))
