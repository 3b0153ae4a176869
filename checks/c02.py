"""Exhaustive check of spec/ActivitySession.tla (inactivity around its threshold, clock moving back, storage
faults, crashes at the durable write, restarts) with every transition replayed on the real strategy, whose
durable state is observed through processes started on copies of it, plus linearizability of recorded
multi-threaded runs.  Bounded depth; times to the millisecond."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-session"])["drv-session"]
    c = dict(Faults={"none", "r", "w", "d"}, Known=set(), Cfgs=("tla", "{[thr |-> 20000], [thr |-> 0]}"), MaxWrite=15000,
             Ticks={1, -1, 15000, 15001, 20000, 20001})
    tests = vk.explore(ctx, "ActivitySession", c, ctx.pick(5, 6), limit=ctx.pick(6000, 60000))
    small = dict(c, Faults={"none"})
    tests += vk.explore(ctx, "ActivitySession", small, ctx.pick(6, 7), limit=ctx.pick(4000, 60000), name="MCdeep")
    more = dict(c, Cfgs=("tla", "{[thr |-> t] : t \\in {0, 1, 20000, 15000, 1800000, 10000}}"),
                Ticks={1, -1, 2, 999, 14999, 15000, 15001, 19999, 20000, 20001, 9999, 10000, 10001, 1799999, 1800000, 1800001, -86400})
    tests += vk.behaviours(ctx, "ActivitySession", more, ctx.pick(500, 6000), ctx.pick(30, 60))
    ev = vk.run_driver(ctx, drv, tests, shards=6, args=["activity"], envs={"KIT_HANG": "8"})
    vk.conform(ctx, "ActivitySession", c, ev, "activity-based session")
    conc = []
    for i in range(ctx.pick(200, 2500)):
        r = ctx.rng
        pre = r.choice([[], [{"op": "sid", "fault": "none"}], [{"op": "sid", "fault": "none"}, {"op": "restart"}],
                        [{"op": "sid", "fault": "none"}, {"op": "restart"}, {"op": "tick", "d": 20001}],
                        [{"op": "sid", "fault": "none"}, {"op": "tick", "d": 20001}]])
        ths = [[{"op": r.choice(["sid", "sid", "sid", "start", "prev", "flush", "tick"]), "d": r.choice([1, 15001, 20001, -1]), "fault": "none", "delay": r.choice([0, 0, 200])}
                for _ in range(r.randint(1, 3))] for _ in range(r.randint(2, 4))]
        conc.append({"cfg": {"thr": 20000}, "ops": pre, "threads": ths})
    ev = vk.run_driver(ctx, drv, conc, name="conc", shards=4, args=["activity"], envs={"KIT_HANG": "8"})
    c["Known"] = set(range(1, 15))
    vk.conform(ctx, "ActivitySession", c, ev, "activity-based session, concurrent", conc=True,
               match='Match(a, b) == (b.ret = -5 \\/ a.ret = b.ret) /\\ ("disk" \\in DOMAIN b => a.disk = b.disk)')
