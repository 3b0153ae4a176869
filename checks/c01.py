"""Exhaustive check of spec/FixedSession.tla (callback outcomes x storage faults x crashes x restarts)
with every transition replayed on the real strategy, plus linearizability of recorded multi-threaded
runs.  Bounded depth and identifiers; assumes a storage whose single writes are atomic."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-session"])["drv-session"]
    c = dict(Cbs={"ok", "dup", "err", "rsid", "rstart"}, Faults={"none", "r", "w", "d"}, Known=set(), Cfgs=("tla", "{[k |-> 0]}"))
    tests = vk.explore(ctx, "FixedSession", c, ctx.pick(4, 5), limit=ctx.pick(4000, 60000))
    tests += vk.behaviours(ctx, "FixedSession", c, ctx.pick(400, 6000), ctx.pick(25, 60))
    ev = vk.run_driver(ctx, drv, tests, shards=4, envs={"KIT_HANG": "8"})
    vk.conform(ctx, "FixedSession", c, ev, "fixed session")
    conc = []
    for i in range(ctx.pick(150, 2000)):
        r = ctx.rng
        ths = [[{"op": r.choice(["sid", "sid", "start", "prev"]), "cb": "ok", "fault": "none", "delay": r.choice([0, 0, 200])}
                for _ in range(r.randint(1, 3))] for _ in range(r.randint(2, 4))]
        conc.append({"cfg": {"booted": r.random() < 0.5}, "threads": ths, "ops": [i]})
    ev = vk.run_driver(ctx, drv, conc, name="conc", shards=2, envs={"KIT_HANG": "8"})
    c["Known"] = set(range(1, 16))
    vk.conform(ctx, "FixedSession", c, ev, "fixed session, concurrent", conc=True,
               match='Match(a, b) == (b.ret = -5 \\/ a.ret = b.ret) /\\ ("disk" \\in DOMAIN b => a.disk = b.disk)')
