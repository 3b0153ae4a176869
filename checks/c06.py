"""Exhaustive check of the precedence and protection rules of spec/LogFields.tla on short field lists,
with the transitions replayed on the real collector, plus random long field lists over all reserved
names, log types and provider failures.  Bounded list lengths; the name alphabet is fixed."""
import vk, ws

RES = ["app_id", "app_version", "carrier", "foreground", "log_level", "log_type", "model", "network_type", "os", "os_version", "radio_type"]
UND = ["_", "_x", "__a", "_app_id", "_message", "_os"]
PLAIN = ["a", "b", "", "x_", "App_id", "app_id ", "os_versio", "os_version2", "Log_Level", " _x", "foregroun"]
TYPES = ["Replay", "Resource", "InternalSDK", "Normal", "Lifecycle", "Span", "Device", "View", "UX"]
def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), Names={"a", "os", "_x"}, Types={"Normal", "Replay"})
    vk.explore(ctx, "LogFields", c, ctx.pick(3, 4), quiet=True, name="MCfull")
    tests = vk.explore(ctx, "LogFields", dict(c, Names={"a", "os"}), ctx.pick(3, 4), limit=ctx.pick(4000, 40000))
    match = """Match(a, b) == /\\ a.ok = b.ok /\\ a.ts = b.ts
  /\\ {b.fields[i] : i \\in 1 .. Len(b.fields)} = a.fields /\\ Len(b.fields) = Cardinality(a.fields)
  /\\ {b.matching[i] : i \\in 1 .. Len(b.matching)} = a.matching /\\ Len(b.matching) = Cardinality(a.matching)"""
    r = ctx.rng
    names = RES + UND + PLAIN

    def fl(n, ns):
        return [{"k": r.choice(ns), "kind": r.choice(["ootb", "custom"]), "v": r.randint(1, 99)} for _ in range(r.randint(0, n))]
    rnd = []
    for _ in range(ctx.pick(1500, 20000)):
        ns = r.sample(names, r.randint(2, 6)) if r.random() < 0.8 else names
        ops = []
        for _ in range(r.randint(3, 12)):
            x = r.random()
            if x < 0.3:
                ops.append({"op": "add", "k": r.choice(ns), "v": r.randint(1, 99)})
            elif x < 0.4:
                ops.append({"op": "remove", "k": r.choice(ns)})
            else:
                ops.append({"op": "collect", "prov": fl(5, ns), "log": fl(6, ns), "match": fl(4, ns), "type": r.choice(TYPES),
                            "fault": r.choice(["none"] * 8 + ["ts", "fields"]), "ts": r.choice([0, 1, 1700000000, -5])})
        rnd.append({"cfg": {"x": 0}, "ops": ops})
    # every name in every class at least once, on its own
    for k in names:
        for t in TYPES:
            ops = [{"op": "add", "k": k, "v": 1}]
            for i in range(6):
                f = [{"k": k, "kind": "ootb" if i % 2 else "custom", "v": 3}]
                ops.append({"op": "collect", "prov": f if i < 2 else [], "log": f if 2 <= i < 4 else [], "match": f if i >= 4 else [], "type": t, "fault": "none", "ts": 5})
            rnd.append({"cfg": {"x": 0}, "ops": ops})
    ev = vk.run_driver(ctx, drv, tests + rnd, shards=4, args=["fields"])
    vk.conform(ctx, "LogFields", c, ev, "log fields", match=match)

