"""Exhaustive check of spec/RateLimitLog.tla (occurrences, periods, clock steps around the boundary, several
sites) with every transition replayed under a paused clock on the real tracker and on sites of the real
macros, sequentially and from racing threads.  Millisecond clock steps."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    r = ctx.rng
    c = dict(Cfgs=("tla", "{[macros |-> FALSE]}"), Sites={0, 1}, Periods={0, 10, 15}, Steps={1, 10, 5}, Counts={1, 2})
    tests = vk.explore(ctx, "RateLimitLog", c, ctx.pick(5, 6), limit=ctx.pick(3000, 30000))

    def rnd(macros, n, conc):
        ops = []
        for _ in range(n):
            if r.random() < 0.5:
                ops.append({"op": "advance", "dt": r.choice([1, 1, 9, 10, 11, 14, 15, 16, 100, 60000])})
            else:
                k = r.choice([1, 1, 2, 3])
                t = r.choice([2, 3, 4]) if conc and r.random() < 0.5 else 1
                ops.append({"op": "occur", "site": r.randrange(4), "d": r.choice([0, 1, 10, 15, 25, 1000]), "n": t if t > 1 else k, "threads": t})
        return {"cfg": {"macros": macros}, "ops": ops}
    c["Sites"] = {0, 1, 2, 3}
    tests += [rnd(False, 40, False) for _ in range(ctx.pick(200, 4000))] + [rnd(False, 30, True) for _ in range(ctx.pick(60, 1000))]
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["ratelimit"])
    vk.conform(ctx, "RateLimitLog", c, ev, "rate-limited logging", match="Match(a, b) == a.n = b.n")
    # one process has 100 of each macro site
    mac = [rnd(True, 50, i % 4 == 0) for i in range(400)]
    ev = vk.run_driver(ctx, drv, mac, name="macros", shards=4, args=["ratelimit"])
    vk.conform(ctx, "RateLimitLog", c, ev, "rate-limited log sites", name="TRm", match="Match(a, b) == a.n = b.n")
