"""Exhaustive check of spec/ServerStats.tla over small label limits with the transitions replayed on the real
collector (gathered as protobuf and as text), random long histories over scopes, labels, callbacks, chained
collectors, late-initialised metrics and in-flight gauges, and racing threads at the label limit.
Metric names used with one kind and one set of label names each; no ':' inside a single name."""
import vk, ws

MATCH = "MatchOp(op, a, b) == ResOk(op, a, b)"


def m(op, c=0, root="r", chain=(), name="x", **kw):
    return dict(op=op, c=c, root=root, chain=list(chain), name=name, **kw)


def st(n, labels=()):
    return {"n": n, "labels": [list(p) for p in labels]}


def universe():
    u = [m("vec", name="v1", kind="counter", names=["a"], id=1), m("vec", name="v2", kind="counter", names=["a", "a_b"], id=2)]
    u = [m("vec", name="v1", kind="counter", names=["a"], id=1)]
    for i in (1, 2, 3):
        u.append(dict(op="late", c=0, vec=1, id=i))
        for v in ("p", "q", "b_c"):
            u.append(dict(op="use", c=0, id=i, values=[v], v=1))
    u += [m("counter", labels=[], v=1), m("gauge", name="g", v=2), m("auto", name="g", id=1), dict(op="unauto", c=0, id=1), dict(op="gather", c=0)]
    return u


# Scopes: every name has one set of label names.
SCOPES = [("r", []), ("", []), ("r", [st("a")]), ("r", [st("a"), st("b")]), ("a", [st("b")]), ("", [st("a")]), ("r", [st(""), st("a")]), ("ab", []),
          ("l", [st("", [("k", "1")])]), ("l", [st("", [("k", "2")])]), ("l", [st("", [("k", "1")]), st("", [("k", "2")])]),
          ("l", [st("s", [("k", "1")]), st("", [("j", "1")])]), ("l", [st("s", [("k", "1")]), st("", [("j", "2"), ("k", "3")])])]
VALS = ["p", "q", "b_c", "c", "", "label_overflow", "x", "y", "z", "ünï"]


def rnd(r, n, limit):
    ops, vecs, lates, autos, na = [], [], 0, [], 0
    late_of = []
    chained = False

    def sc():
        root, ch = r.choice(SCOPES)
        return dict(root=root, chain=ch)
    names = [["a"], ["a_b"], ["a", "a_b"], ["b"], ["b", "a", "c"]]
    for _ in range(n):
        x = r.random()
        c = 0 if r.random() < 0.7 else 1
        pre = "s%d" % c   # chained collectors do not share names
        if x < 0.15:
            lab = [["q", r.choice("12")]] if r.random() < 0.4 else []
            ops.append(dict(op="counter", c=c, **sc(), name=pre + ("cl" if lab else "c"), labels=lab, v=r.randint(0, 5), dynamic=r.random() < 0.3))
        elif x < 0.2:
            ops.append(dict(op=r.choice(["gauge", "set"]), c=c, **sc(), name=pre + "g", v=r.randint(0, 5)))
        elif x < 0.24:
            ops.append(dict(op="hist", c=c, **sc(), name=pre + "h", v=r.randint(0, 9), buckets=r.random() < 0.5))
        elif x < 0.28:
            na += 1
            autos.append(na)
            ops.append(dict(op="auto", c=c, **sc(), name=pre + "ag", id=na))
        elif x < 0.32 and autos:
            ops.append(dict(op="unauto", c=0, id=autos.pop(r.randrange(len(autos)))))
        elif x < 0.34:
            ops.append(dict(op="stack", c=c, **sc(), name=pre + "sg"))
        elif x < 0.42 and len(vecs) < 6:
            k = len(vecs) + 1
            v = dict(op="vec", c=c, **sc(), name=f"{pre}v{k}", id=k, kind=r.choice(["counter", "counter", "gauge", "hist"]), names=r.choice(names), buckets=r.random() < 0.5)
            vecs.append(v)
            ops.append(v)
        elif x < 0.6 and vecs:
            lates += 1
            v = r.choice(vecs)
            late_of.append(v)
            ops.append(dict(op="late", c=0, vec=v["id"], id=lates))
            ops.append(dict(op="use", c=0, id=lates, values=[r.choice(VALS) for _ in v["names"]], v=r.randint(0, 3)))
        elif x < 0.75 and lates:
            i = r.randint(1, lates)
            ops.append(dict(op="use", c=0, id=i, values=[r.choice(VALS) for _ in late_of[i - 1]["names"]], v=r.randint(0, 3)))
        elif x < 0.77:
            ops.append(dict(op="cb", c=c, **sc(), name=pre + "cb", v=r.randint(1, 3)))
        elif x < 0.79 and not chained:
            chained = True
            ops.append(dict(op="chain", c=0))
        elif x < 0.9:
            # the text form is parsed back by the driver: keep to values it can tell apart
            ops.append(dict(op="gather", c=c))
        elif x < 0.95:
            ops.append(dict(op="text", c=c))
    ops.append(dict(op="gather", c=0))
    return {"cfg": {"limit": limit, "dflt": False}, "ops": ops}


def storm(r):
    limit = r.choice([0, 1, 2, 3, 5, 50])
    names = r.choice([["a"], ["a", "b"]])
    ops = [m("vec", name="v", kind="counter", names=names, id=1)]
    pool = [[r.choice(VALS[:4] + VALS[6:9]) for _ in names] for _ in range(6)]
    k = 0
    for _ in range(r.randint(0, 3)):
        k += 1
        ops += [dict(op="late", c=0, vec=1, id=k), dict(op="use", c=0, id=k, values=r.choice(pool), v=1)]
    ops.append(dict(op="storm", c=0, root="r", chain=[], vec=1, threads=[[r.choice(pool) for _ in range(r.randint(1, 12))] for _ in range(r.randint(2, 5))]))
    return {"cfg": {"limit": limit, "dflt": False}, "ops": ops}


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    r = ctx.rng
    u = universe()
    c = dict(Cfgs=("tla", "{[limit |-> l, dflt |-> FALSE] : l \\in 0 .. 2}"), Univ=("tla", "{" + ", ".join(vk.tla(o) for o in u) + "}"))
    tests = vk.explore(ctx, "ServerStats", c, ctx.pick(6, 7), limit=ctx.pick(3000, 30000))
    for t in tests:
        t["ops"].append({"op": "gather", "c": 0})
    tests += [rnd(r, r.randint(5, 60), r.choice([0, 1, 2, 3, 4, 6, 1000])) for _ in range(ctx.pick(800, 12000))]
    # the default limit
    big = {"cfg": {"limit": 1000, "dflt": True}, "ops": [m("vec", name="v", kind="counter", names=["a"], id=1)]}
    for i in range(1003):
        big["ops"] += [dict(op="late", c=0, vec=1, id=i + 1), dict(op="use", c=0, id=i + 1, values=[f"v{i}"], v=1)]
    big["ops"].append({"op": "gather", "c": 0})
    if ctx.thorough:
        tests.append(big)
    tests += [storm(r) for _ in range(ctx.pick(200, 3000))]
    ev = vk.run_driver(ctx, drv, tests, shards=8, args=["metrics"])
    c["Univ"] = set()
    vk.conform(ctx, "ServerStats", c, ev, "server metrics", match=MATCH)
