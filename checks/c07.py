"""Exhaustive check of spec/Shutdown.tla (trigger, handles, waiters, clones, abandoned waits and shutdowns)
with every transition replayed on the real types under an executor that polls only woken futures, in
asynchronous and blocking form.  Bounded numbers of waiters and handles."""
import vk, ws

MATCH = "Match(a, b) == a.woken = {b.woken[i] : i \\in 1 .. Len(b.woken)} /\\ a.done = b.done /\\ a.status = b.status"


def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    c = dict(Cfgs=("tla", "{[x |-> 0]}"), MaxW=ctx.pick(2, 3), MaxH=2, Slow=set())
    tests = vk.explore(ctx, "Shutdown", c, ctx.pick(8, 9), limit=ctx.pick(6000, 60000))
    big = dict(c, MaxW=8, MaxH=5)
    tests += vk.behaviours(ctx, "Shutdown", big, ctx.pick(600, 8000), ctx.pick(30, 50))
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["shutdown"])
    vk.conform(ctx, "Shutdown", c, ev, "shutdown", match=MATCH)
    # the blocking form, some with pauses long enough for its polling to notice anything
    bl = vk.behaviours(ctx, "Shutdown", dict(big, Slow={True, False}), ctx.pick(400, 2000), ctx.pick(14, 25), name="SIMb")
    bl = [t for t in bl if any(o["op"] == "fireb" for o in t["ops"])][:ctx.pick(120, 800)]
    for t in bl:
        fired = False
        for o in t["ops"]:
            fired |= o["op"] == "fireb"
            o["slow"] = fired and ctx.rng.random() < 0.15
    ev = vk.run_driver(ctx, drv, bl, name="blocking", shards=8, args=["shutdown"])
    vk.conform(ctx, "Shutdown", c, ev, "shutdown, blocking form", name="TRb", match=MATCH)
    # a component that takes its time to let go
    late = [{"cfg": {"x": 0}, "ops": [{"op": "mkw", "id": 1, "from": "t", "src": 0}, {"op": "fireb", "slow": False, "pause": p}, {"op": "dropw", "id": 1}]}
            for p in (12_000, 3_000)]
    ev = vk.run_driver(ctx, drv, late, name="late", shards=2, args=["shutdown"])
    vk.conform(ctx, "Shutdown", c, ev, "shutdown, blocking form, late component", name="TRl", match=MATCH)
