"""Exhaustive check of spec/StatsFiles.tla (recording, flushes, upload ticks, acknowledgements, clock, restarts, changing
limits, failing file operations, the process ending before, during or after each write or deletion, damaged files) to a
bounded depth plus random longer histories, replayed on the real Flusher and FileManager over the real file system."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-stats"])["drv-stats"]

    def part(name, what, cfgs, confs, fam, depth, limit, sim, now=15):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(dict(max=m, win=w)) for m, w in cfgs) + "}"), Confs=[dict(max=m, win=w) for m, w in confs], Fam=set(fam), MaxNow=now)
        tests = vk.explore(ctx, "StatsFiles", c, depth, limit=limit, name="MC" + name) + vk.behaviours(ctx, "StatsFiles", c, *sim, name="SIM" + name)
        for t in tests:
            for o in t["ops"]:
                if o["op"] == "damage":
                    o["x"] = ctx.rng.randrange(2)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8)
        vk.conform(ctx, "StatsFiles", c, ev, what, name="TR" + name, parallel=8)

    part("p", "flushes and uploads", [(2, 5), (10, 5)], [], ["many"], ctx.pick(6, 9), ctx.pick(2500, 40000), (ctx.pick(300, 8000), 40))
    part("l", "limits", [(1, 5), (2, 0)], [(1, 5), (2, 100), (0, 5)], [], ctx.pick(6, 8), ctx.pick(2000, 40000), (ctx.pick(300, 8000), 40))
    part("f", "failing file operations", [(2, 5), (1, 5)], [(2, 5), (2, 1000)], ["fail"], ctx.pick(4, 5), ctx.pick(2200, 40000), (ctx.pick(450, 8000), 30))
    part("c", "crashes and damage", [(2, 5)], [], ["crash", "damage"], ctx.pick(5, 6), ctx.pick(2200, 40000), (ctx.pick(400, 8000), 30))
