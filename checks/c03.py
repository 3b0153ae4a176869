"""Exhaustive check of spec/KeyValue.tla (keys x values x storage faults x malformed entries) with every
transition replayed on the real store using several value types, plus concurrent runs.  Malformed
entries are drawn from a fixed set of corruptions; assumes single storage operations are atomic."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-kv"])["drv-kv"]
    keys = {"a", "b"}
    c = dict(Cfgs=("tla", '{[keys |-> <<"a", "b">>]}'), Keys=keys, Values={1, 2}, Faults={"none", "r", "d", "w", "wa", "x"})
    tests = vk.explore(ctx, "KeyValue", c, ctx.pick(4, 8), limit=ctx.pick(6000, 40000))
    c = dict(Cfgs=("tla", '{[keys |-> <<"a", "b", "c">>]}'), Keys={"a", "b", "c"}, Values={1, 2, 3}, Faults=c["Faults"])
    more = vk.behaviours(ctx, "KeyValue", c, ctx.pick(600, 8000), ctx.pick(30, 60))
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["kv"])
    vk.conform(ctx, "KeyValue", dict(c, Keys=keys), ev, "key-value store")
    ev = vk.run_driver(ctx, drv, more, name="more", shards=4, args=["kv"])
    vk.conform(ctx, "KeyValue", c, ev, "key-value store", name="TRmore")
    conc = []
    r = ctx.rng
    for i in range(ctx.pick(200, 2000)):
        ths = [[{"op": r.choice(["set", "get", "get"]), "k": r.choice("ab"), "v": r.randint(1, 4), "fault": "none"}
                for _ in range(r.randint(1, 4))] for _ in range(r.randint(2, 3))]
        conc.append({"cfg": {"keys": ["a", "b"]}, "threads": ths, "ops": [i]})
    ev = vk.run_driver(ctx, drv, conc, name="conc", shards=2, args=["kv"])
    vk.conform(ctx, "KeyValue", dict(c, Keys=keys), ev, "key-value store, concurrent", conc=True, match="Match(a, b) == a.v = b.v")
