"""Exhaustive check of spec/LogMatch.tla (every leaf of a pool against every field of a pool; small trees) and random
longer histories over seeded pools, each match replayed on the real matchers and the buffer selector."""
import vk, ws, lm


def run(ctx):
    drv = ws.build(["drv-match"])["drv-match"]
    r = ctx.rng

    def part(name, what, d, leaves, fields, msgs, levels, types, stack, nf, fam, depth, limit, sim):
        c = dict(Cfgs=("tla", "{[d |-> %d]}" % d), Leaves=leaves, Fields=fields, Msgs=msgs, Levels=levels, Types=types, MaxStack=stack, MaxFields=nf, Fam=set(fam))
        tests = vk.explore(ctx, "LogMatch", c, depth, limit=limit, name="MC" + name) if depth else []
        if sim:
            tests += vk.behaviours(ctx, "LogMatch", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, args=["match"], name=name, shards=8)
        vk.conform(ctx, "LogMatch", c, ev, what, name="TR" + name, parallel=8)

    # every comparison of a value with another
    ops = [1, 2, 3, 4, 5, 6]
    some = lambda l, n: ctx.rng.sample(l, min(n, len(l)))
    for name, k, vals in (("i", "int", lm.TEXTS), ("s", "str", lm.TEXTS), ("v", "ver", lm.VERS), ("p", "str", lm.TEXTS)):
        if name == "i":
            ls = [lm.leaf(k, "x", o, n=n) for n in (lm.NUMS if ctx.pick(0, 1) else some(lm.NUMS, 5)) for o in (ops if ctx.pick(0, 1) else some(ops, 4)) + [0, 7, 8]]
        elif name == "p":
            ls = [lm.leaf(x, "x", 7, p) for p in lm.PATS for x in ("str", "ver")]
        else:
            ls = [lm.leaf(k, "x", o, v) for v in (vals if ctx.pick(0, 1) else some(vals, 14)) for o in (ops if ctx.pick(0, 1) else some(ops, 3))]
        fs = [lm.field("x", v) for v in (vals if ctx.pick(0, 1) else some(vals, 28))] + [lm.field("x", "a", True), lm.field("y", "a")]
        part(name, "matching: single conditions", 1, ls, fs, [], [], [], 1, 1, [], 3, ctx.pick(200, 40000), None)
        # every condition against every value
        if name == "i":
            ls = [lm.leaf(k, "x", o, n=n) for n in lm.NUMS for o in ops + [0, 7, 8]]
        elif name != "p":
            ls = [lm.leaf(k, "x", o, v) for v in (vals if k == "ver" or ctx.pick(0, 1) else some(vals, 14)) for o in ops]
        ops_of = lambda f: [dict(op="fresh"), dict(op="field", w="cap", f=f), dict(op="match")]
        tests = [dict(cfg=dict(d=1), ops=[dict(op="leaf", leaf=l)] + sum((ops_of(lm.field("x", v)) for v in r.sample(vals, len(vals))), [])) for l in ls]
        ev = vk.run_driver(ctx, drv, tests, args=["match"], name=name + "g", shards=8)
        c = dict(Cfgs=("tla", "{[d |-> 1]}"), Leaves=ls[:1], Fields=fs, Msgs=[], Levels=[], Types=[], MaxStack=1, MaxFields=1, Fam=("tla", "{}"))
        vk.conform(ctx, "LogMatch", c, ev, "matching: every condition against every value", name="TR" + name + "g", parallel=8)
    # levels, types, messages
    ls = [lm.leaf("int", "log_level", o, n=n) for o in range(0, 9) for n in (-1, 0, 2, 4)] + [lm.leaf("int", "log_type", o, n=n) for o in (0, 3, 6, 7) for n in (-1, 0, 3)] \
        + [lm.leaf("msg", "x", o, v) for o in range(0, 9) for v in ("", "abc", "b")] + [lm.leaf("none"), lm.leaf("noval"), lm.leaf("set", "log_level"), lm.leaf("set", "x"), lm.leaf("str", "log_level", 3, "2")]
    part("l", "matching: levels, types, messages", 1, ls, lm.fields(r, 4), lm.MSGS, [-1, 0, 1, 2, 4, 7], [-1, 0, 3], 1, 1, [], 3, ctx.pick(1500, 40000), None)
    ls = [lm.leaf("lv", "x", o, n=n) for o in range(0, 6) for n in (-1, 0, 2, 4, 9)] + [lm.leaf("ty", n=n) for n in (0, 3)] + [lm.leaf("any"), lm.leaf("none")] \
        + [lm.leaf(k, "x", o, v) for k in ("msg", "tag") for o in range(0, 4) for v in ("", "a", "abc", "b", "[", "^a")]
    part("m", "matching: buffer matchers", 2, ls, [lm.field("x", v, b) for v in ("", "a", "abc", "ba") for b in (False, True)], lm.MSGS, [-1, 0, 1, 2, 4, 7], [-1, 0, 3], 1, 1, [], 3, ctx.pick(1500, 40000), None)
    # trees
    for i in range(ctx.pick(1, 12)):
        vals = r.sample(lm.TEXTS, 5) + r.sample(lm.VERS, 4)
        part(f"t{i}", "matching: trees", 1, lm.leaves1(r, 14), lm.fields(r, 10, vals=vals), lm.MSGS, [0, 2, 4, -1], [0, 3], 4, 3, ["tree", "mat"], None, None, (ctx.pick(110, 4000), ctx.pick(26, 60)))
        part(f"u{i}", "matching: trees of buffer matchers", 2, lm.leaves2(r, 12), lm.fields(r, 8, vals=["", "a", "ab", "abc", "b", "~", "1"]), lm.MSGS, [0, 2, 4, -1], [0, 3], 4, 3, ["tree", "mat"], None, None, (ctx.pick(110, 4000), ctx.pick(26, 60)))
    part("f", "matching: which field is read", 1, [lm.leaf("str", "x", 3, "a"), lm.leaf("set", "x"), lm.leaf("int", "x", 3, n=1)], [lm.field("x", "a"), lm.field("x", "1"), lm.field("x", "a", True), lm.field("y", "a")], [], [], [],
         1, 2, ["mat"], ctx.pick(5, 6), ctx.pick(1200, 20000), None)
