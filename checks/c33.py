"""Exhaustive check of spec/NetUsage.tla (responses with readable, unreadable, binary, duplicated and very large byte counts; resource
logs at any interval; every kind of log; network quality and flag changes) to a bounded depth plus random longer histories over a larger
catalogue of logs, replayed on the three real interceptors in the order the logger uses, with a settable clock.  The reported window is
the samples begun within the last minute (a sample spans two resource logs); ages of exactly 60 s are not tried."""
import random
import vk, ws

KEYS = ["rqb", "rqh", "rsb", "rsh", "st"]
TYPES = ["Device", "InternalSDK", "Lifecycle", "Span", "Normal", "Replay", "Resource", "View", "UX"]


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    f = lambda k, v: dict(k=k, v=v)
    log = lambda ty, msg, *fs: dict(ty=ty, msg=msg, fs=list(fs))
    beat = log("Resource", "")

    def part(name, what, logs, steps, quals, depth, limit, sim):
        lg = "{" + ", ".join(vk.tla(x) for x in logs) + "}"
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(dict(q=q, on=o)) for q in ("unknown", "offline") for o in (True, False)) + "}"),
                 Logs=("tla", lg), Steps=set(steps), Quals=set(quals))
        tests = vk.explore(ctx, "NetUsage", c, depth, limit=limit, name="MC" + name) if depth else []
        tests += vk.behaviours(ctx, "NetUsage", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["usage"])
        vk.conform(ctx, "NetUsage", c, ev, what, name="TR" + name, parallel=8)

    part("a", "network usage",
         [beat, log("Span", "resp", f("rqb", 3), f("rsh", 10), f("st", 200)), log("Span", "resp", f("rqb", -2), f("rqh", -3), f("rqb", 5), f("rqh", 7)),
          log("Span", "resp", f("rsb", -1), f("rsh", 1), f("rqh", 1)), log("Normal", "", f("rqb", 1))],
         [19, 59, 61], [], ctx.pick(5, 7), ctx.pick(1500, 80000), (ctx.pick(150, 6000), 30))
    part("b", "counts by kind", [beat, log("Resource", "text"), log("Resource", "bin"), log("Span", "resp", f("st", -2))] + [log(t, "text") for t in TYPES],
         [61], ["unknown", "offline", "online"], ctx.pick(3, 4), ctx.pick(1500, 40000), (ctx.pick(100, 6000), 40))
    rng = random.Random(33)
    many = [beat, beat]
    for _ in range(60):
        fs = [f(rng.choice(KEYS + ["x"]), rng.choice([0, 1, 2, 17, 1000000, -1, -2, -2, -3])) for _ in range(rng.randrange(0, 6))]
        many.append(log(rng.choice(["Span", "Span", "Span", "Resource", "Normal"]), rng.choice(["resp", "resp", "", "text", "bin"]), *fs))
    part("c", "arbitrary fields", many, [1, 19, 59, 61, 200], ["offline"], 0, 0, (ctx.pick(160, 12000), 50))
