"""spec/TimeWire.tla: conversions over the whole 64-bit range (times split into day and second counts), their
round trips checked in the model on a set of boundary values, and the same and many random values replayed on
the real conversions; tickers replayed under a virtual clock.  Values are sampled, not exhausted."""
import vk, ws

DAY = 86400


def val(secs, n):
    d, s = divmod(secs, DAY)
    dh, dl = divmod(d, 10 ** 6)
    return {"dh": dh, "dl": dl, "s": s, "n": n}


T_MIN, T_MAX = -377705116800, 253402300799
I64 = 2 ** 63


def run(ctx):
    drv = ws.build(["drv-time"])["drv-time"]
    r = ctx.rng
    edge = [0, 1, -1, 59, 60, -60, 86399, 86400, -86400, -86401, 1700000000, 253402300799, T_MIN, T_MIN + 1, T_MAX - 1,
            2 ** 31 - 1, 2 ** 31, -2 ** 31, 2 ** 32, 2 ** 32 + 1, -2 ** 33]
    out = [T_MAX + 1, T_MIN - 1, I64 - 1, -I64, 2 ** 62, -2 ** 40, 2 ** 40]
    ns = [0, 1, 999, 1000, 999999, 1000000, 1000001, 500000000, 999999999]
    vals = [val(s, n) for s in edge for n in ns]
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), Vals=("tla", "{" + ", ".join(vk.tla(v) for v in vals) + "}"))
    vk.explore(ctx, "TimeWire", c, 2, quiet=True, view=None)
    ops = []

    def t_rand():
        k = r.random()
        if k < 0.3:
            return r.choice(edge)
        if k < 0.6:
            return r.randint(T_MIN, T_MAX)
        return r.randint(-10 ** r.randint(1, 11), 10 ** r.randint(1, 11))

    def any_rand():
        k = r.random()
        return r.choice(edge + out) if k < 0.4 else (r.randint(-I64, I64 - 1) if k < 0.7 else t_rand())

    def n_rand():
        return r.choice(ns) if r.random() < 0.5 else r.randint(0, 999999999)

    for s in edge:
        for n in ns:
            for o in ("ts", "fromts", "ms"):
                ops.append({"op": o, "v": val(s, n)})
    for s in out:
        for n in (0, 1, 999999999):
            ops.append({"op": "fromts", "v": val(s, n if s != I64 - 1 else 0)})
    for _ in range(ctx.pick(6000, 60000)):
        o = r.choice(["ts", "tsoff", "fromts", "ms", "floor", "ceil", "dur", "stddur", "fromdur", "abs", "checked"])
        op = {"op": o}
        if o in ("ts", "ms", "tsoff"):
            op["v"] = val(max(T_MIN + DAY * 2, min(t_rand(), T_MAX - 2 * DAY)) if o == "tsoff" else t_rand(), n_rand())
            if o == "tsoff":
                op["h"] = r.randint(-23, 23)
        elif o == "fromts":
            op["v"] = val(any_rand(), n_rand() if r.random() < 0.9 else -r.randint(1, 999999999))
        elif o in ("floor", "ceil"):
            op["i"] = r.choice([1, 2, 7, 15, 60, 300, 3600, 43200, 86400, 7 * 86400, 30 * 86400, r.randint(1, 46340)])
            t = max(T_MIN + 10 ** 7, min(t_rand(), T_MAX - 10 ** 7))
            op["v"] = val(t, n_rand() if o == "floor" else 0)
        else:
            s, n = any_rand(), n_rand()
            if s < 0 or (s == 0 and r.random() < 0.3):
                n = -n
            if o == "stddur":
                s, n = abs(s) if s > -I64 else 0, abs(n)
            if o in ("fromdur", "abs", "checked") and abs(s) >= I64 - 2:
                n = 0
            op["v"] = val(s, n)
        ops.append(op)
    ticks = [{"op": "tick", "kind": k, "i": i, "k": 6} for k in ("interval", "interval_at", "sleep", "timeout", "timeoutok", "now", "instant", "advance")
             for i in (1, 2, 10, 999, 1000, 1001, 60000, 86400000)]
    ticks += [{"op": "tick", "kind": "jittered", "i": i, "k": 4} for i in (1, 2, 3, 10, 1000, 60000) for _ in range(ctx.pick(40, 400))]
    ticks += [{"op": "tick", "kind": k, "i": 0, "k": 4} for k in ("interval", "interval_at", "jittered", "sleep", "now")]
    ops += ticks
    tests = [{"cfg": {"x": 0}, "ops": ops[i:i + 50]} for i in range(0, len(ops), 50)]
    ev = vk.run_driver(ctx, drv, tests, shards=4)
    vk.conform(ctx, "TimeWire", c, ev, "time conversions", match="Match(a, b) == TRUE\nMatchOp(op, a, b) == Match1(op, a, b)")
