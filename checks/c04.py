"""Exhaustive check of spec/Device.tla (storage faults x crashes at the durable write x restarts) with
every transition replayed on the real device, plus recorded multi-threaded first uses over a slow
storage.  Bounded depth; assumes single storage writes are atomic."""
import vk, ws


def run(ctx):
    drv = ws.build(["drv-kv"])["drv-kv"]
    c = dict(Cfgs=("tla", "{[disk |-> d] : d \\in {0, 1, -1}}"), Faults={"none", "r", "d", "w"}, Known=set())
    tests = vk.explore(ctx, "Device", c, ctx.pick(5, 8), limit=ctx.pick(6000, 40000))
    tests += vk.behaviours(ctx, "Device", c, ctx.pick(600, 5000), ctx.pick(30, 60))
    ev = vk.run_driver(ctx, drv, tests, shards=4, args=["device"])
    vk.conform(ctx, "Device", c, ev, "device id")
    conc = []
    r = ctx.rng
    for i in range(ctx.pick(200, 2000)):
        ths = [[{"op": "id", "fault": "none", "delay": r.choice([0, 0, 100])} for _ in range(r.randint(1, 3))] for _ in range(r.randint(2, 4))]
        conc.append({"cfg": {"disk": r.choice([0, 0, 1, -1])}, "threads": ths, "ops": [i]})
    ev = vk.run_driver(ctx, drv, conc, name="conc", shards=2, args=["device"])
    vk.conform(ctx, "Device", dict(c, Known=set(range(1, 8))), ev, "device id, concurrent", conc=True, match="Match(a, b) == a = b")
