"""Exhaustive check of spec/MetricStore.tla (scopes and labels whose names run into each other, both kinds under one name, limits
changing at run time, handles kept and dropped, snapshots in between) to a bounded depth plus random longer histories,
replayed on the real store with snapshots taken by the real flusher; threads recording while snapshots are taken are raced."""
import vk, ws

GETS = [dict(path=[], root=False, name="m", l=0), dict(path=[], root=False, name="m", l=1), dict(path=["a"], root=True, name="m", l=0),
        dict(path=["a"], root=False, name="m", l=1), dict(path=["a", "b"], root=True, name="m", l=2), dict(path=["a:b"], root=False, name="m", l=2),
        dict(path=["a", "b"], root=False, name="m", l=3), dict(path=["a"], root=True, name="b:m", l=4), dict(path=["a", "b"], root=False, name="m", l=4)]


def run(ctx):
    drv = ws.build(["drv-stats"])["drv-stats"]
    match = "Match(a, b) == a.r = b.r /\\ Len(a.snap) = Len(b.snap) /\\ {a.snap[i] : i \\in DOMAIN a.snap} = {b.snap[i] : i \\in DOMAIN b.snap}"

    def part(name, what, gets, limits, fam, depth, limit, sim, h=3, fixed=()):
        cfgs = "{" + ", ".join(vk.tla(dict(limit=l)) for l in limits) + "}"
        c = dict(Cfgs=("tla", cfgs), Gets=gets, Fam=set(fam), MaxH=h)
        tests = [dict(cfg=dict(limit=limits[0]), ops=f) for f in fixed]
        tests += vk.explore(ctx, "MetricStore", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "MetricStore", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["store"])
        vk.conform(ctx, "MetricStore", c, ev, what, match=match, name="TR" + name, parallel=8)

    part("h", "handles", GETS[:3], [2], ["get"], ctx.pick(4, 5), ctx.pick(2500, 40000), (ctx.pick(300, 8000), 30), h=4,
         fixed=[[dict(op="race", n=ctx.pick(1500, 60000), t=t)] for t in "chk"] + [[dict(op="race", n=ctx.pick(500, 10000), t=t)] for t in ["dc", "dc", "dc", "dc", "dh"]])
    part("d", "dynamic metrics and limits", GETS[:2], [0, 1, 2, 3], ["get", "dyn", "limit"], ctx.pick(3, 4), ctx.pick(2500, 40000), (ctx.pick(400, 8000), 30), h=2)
    part("n", "names", GETS, [20], ["get", "dyn"], ctx.pick(3, 3), ctx.pick(2500, 40000), (ctx.pick(300, 4000), 30), h=6)
