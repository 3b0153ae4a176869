"""Exhaustive check of spec/RuntimeConf.tla (updates, restarts before and after health, crash loops, the crash between
the two writes of an update, damaged cache files, watches registered before and after) to a bounded depth plus
random longer histories, replayed on the real ConfigLoader; threads registering watches during an update are raced."""
import vk, ws

CONFS = [dict(int=1, bool=0, dur=10, str=1, v="n1"), dict(int=-1, bool=1, dur=-2, str=-1, v="n2"), dict(int=7, bool=-2, dur=10, str=-2, v="n3"),
         dict(int=-2, bool=-1, dur=500, str=2, v="n4")]


def run(ctx):
    drv = ws.build(["drv-runtime"])["drv-runtime"]

    def part(name, what, fam, depth, limit, sim, confs=CONFS, h=3, fixed=()):
        cfg = dict(cs=confs)
        c = dict(Cfgs=("tla", "{" + vk.tla(cfg) + "}"), Confs=confs, Fam=set(fam), MaxH=h)
        tests = [dict(cfg=cfg, ops=f) for f in fixed]
        tests += vk.explore(ctx, "RuntimeConf", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "RuntimeConf", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8)
        vk.conform(ctx, "RuntimeConf", c, ev, what, name="TR" + name, parallel=8)

    part("w", "watches", ["watch"], ctx.pick(4, 5), ctx.pick(2500, 40000), (ctx.pick(300, 8000), 30), h=5,
         fixed=[[dict(op="race", n=ctx.pick(400, 20000))]] * 4)
    part("c", "crash loops", ["crash"], ctx.pick(4, 6), ctx.pick(2500, 40000), (ctx.pick(300, 8000), 30), confs=CONFS[:2])
    part("d", "damaged caches", ["damage", "crash", "watch"], ctx.pick(3, 4), ctx.pick(3000, 40000), (ctx.pick(500, 8000), 30), confs=CONFS[:3])
