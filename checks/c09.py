"""Exhaustive check of spec/FeatureFlags.tla over small configurations (every type, rollout boundaries,
unreadable and malformed files) with every lookup replayed on the real loader, plus random
configurations; rollout shares are judged over up to 10^6 draws against more than six standard deviations."""
import vk, ws

BADS = ["", "values", "values: 3\n", "values:\n  a: -1\n", "values:\n  a: 1.5\n", "values:\n  a: [1]\n", "values:\n  a: null\n",
        "values:\n  a: {b: 1}\n", "value:\n  a: 1\n", "values:\n  a: 18446744073709551616\n", "{", "- a\n"]


def flag(name, t, v):
    roll = 0
    if t == "int":
        roll = min(int(v), 10000)
    return {"name": name, "type": t, "value": v, "roll": roll}


def q(s):
    import json
    return json.dumps(s)


def text(flags):
    if not flags:
        return "values: {}\n"
    return "values:\n" + "".join(f"  {q(f['name'])}: {f['value'] if f['type'] != 'str' else q(f['value'])}\n" for f in flags)


def cfg(flags, i=0):
    return {"kind": "good", "flags": flags, "text": text(flags), "seed": i}


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    r = ctx.rng
    small = [cfg([]), cfg([flag("a", "bool", "true"), flag("b", "bool", "false")]), cfg([flag("a", "int", "0"), flag("b", "int", "1")]),
             cfg([flag("a", "int", "9999"), flag("b", "int", "10000")]), cfg([flag("a", "int", "10001"), flag("b", "int", "18446744073709551615")]),
             cfg([flag("a", "str", "true"), flag("b", "str", "5")]), cfg([flag("a", "str", ""), flag("b", "int", "5000")])]
    small += [{"kind": k, "flags": [], "text": t, "seed": 0} for k, t in [("missing", "")] + [("bad", b) for b in BADS]]
    c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in small) + "}"), Names={"a", "b", "zz"}, Draws={0, 20000})
    # one lookup changes nothing, so a depth of one covers every state of a configuration
    tests = vk.explore(ctx, "FeatureFlags", c, 2)
    byc = {}
    for t in tests:
        byc.setdefault(vk.json.dumps(t["cfg"], sort_keys=True), []).extend(t["ops"])
    tests = [{"cfg": vk.json.loads(k), "ops": v} for k, v in byc.items()]
    # unreadable and malformed files all mean the same to the specification: every lookup on each of them
    every = [t["ops"] for t in tests if t["cfg"]["kind"] != "good" or not t["cfg"]["flags"]][0]
    tests += [{"cfg": k, "ops": every} for k in small if k["kind"] != "good"]
    names = ["a", "b", "A", "a b", "", "ü", "true", "0", "values"]
    for i in range(ctx.pick(400, 6000)):
        fl = []
        for nm in r.sample(names, r.randint(0, 6)):
            t = r.choice(["bool", "int", "int", "str"])
            v = {"bool": r.choice(["true", "false"]), "int": str(r.choice([0, 1, 2, 50, 4999, 5000, 9998, 9999, 10000, 10001, 2**31, 2**32 + 1, 2**63, 2**64 - 1, r.randrange(20000)])),
                 "str": r.choice(["true", "false", "0", "10000", "", "x y", "ü", "null"])}[t]
            fl.append(flag(nm, t, v))
        ops = []
        for _ in range(20):
            o = r.choice(["bool", "int", "str", "enabled"])
            op = {"op": o, "name": r.choice(names), "via": r.random() < 0.5}
            op["def"] = {"bool": r.random() < 0.5, "int": str(r.choice([0, 1, 7, 2**63 + 5])), "str": r.choice(["", "dflt", "true"]), "enabled": r.random() < 0.5}[o]
            if o == "enabled":
                op["n"] = 10000
            ops.append(op)
        tests.append({"cfg": cfg(fl, i), "ops": ops})
    deep = [1, 2, 3, 10, 100, 1000, 3333, 5000, 6667, 9000, 9900, 9990, 9998, 9999]
    for p in deep:
        tests.append({"cfg": cfg([flag("a", "int", str(p))], p), "ops": [{"op": "enabled", "name": "a", "via": v, "def": p % 2 == 0, "n": ctx.pick(1000000, 3000000)} for v in (True, False)]})
    match = """MatchOp(op, a, b) == IF op.op = "enabled" THEN b \\in a.any /\\ (a.p \\in 1 .. 9999 => Plausible(b, a.p, a.n)) ELSE a = b"""
    ev = vk.run_driver(ctx, drv, tests, shards=8, args=["flags"])
    vk.conform(ctx, "FeatureFlags", c, ev, "feature flags", match=match)
