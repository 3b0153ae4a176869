"""Exhaustive check of spec/WatchedFile.tla (replacements of every kind, loads at their own pace, readers,
shutdown); recorded executions of the real watcher over a scratch directory (plain renames and symlink
swaps; good, unparsable, non-UTF-8, missing and directory contents; bursts; readers on other threads;
shutdown, twice) are validated against it, and after each synchronised replacement the latest content must be in force.
Assumes the notification arrives within 10 s."""
import vk, ws

KINDS = ["good", "good", "good", "bad", "utf8", "missing", "dir"]


def rnd(r, i, n):
    k8s = r.random() < 0.4
    ops, v = [], 1
    for _ in range(n):
        x = r.random()
        if x < 0.08:
            ops.append({"op": "other"})
        elif x < 0.14:
            ops.append({"op": "shutdown"})
        else:
            v += 1
            ops.append({"op": "put", "kind": r.choice(KINDS), "v": v, "sync": r.random() < 0.35})
    if not any(o["op"] == "shutdown" for o in ops):
        v += 1
        ops.append({"op": "put", "kind": "good", "v": v, "sync": True})
    return {"cfg": {"init": r.choice(["good", "good", "bad", "missing", "utf8"]), "k8s": k8s, "mt": r.random() < 0.5,
                    "fallback": r.random() < 0.5, "seed": i}, "ops": ops}




def run(ctx):
    drv = ws.build(["drv-base"])["drv-base"]
    c = dict(Cfgs=("tla", '{[init |-> k] : k \\in {"good", "bad"}}'), Kinds={"good", "bad", "missing"}, MaxV=ctx.pick(3, 4))
    vk.explore(ctx, "WatchedFile", c, ctx.pick(7, 8), quiet=True)
    r = ctx.rng
    tests = [rnd(r, i, r.randint(2, 14)) for i in range(ctx.pick(400, 4000))]
    # after a shutdown and its harmless repetition nothing is observed
    for i in range(ctx.pick(20, 200)):
        t = rnd(r, 10000 + i, r.randint(1, 5))
        v = 50
        t["ops"] += [{"op": "shutdown"}, {"op": "put", "kind": "good", "v": v, "sync": True}, {"op": "shutdown"}, {"op": "put", "kind": "bad", "v": v + 1, "sync": False}]
        tests.append(t)
    # more events at once than the kernel queues
    for i in range(ctx.pick(2, 8)):
        t = rnd(r, 20000 + i, r.randint(0, 4))
        t["ops"] = [o for o in t["ops"] if o["op"] != "shutdown"]
        t["cfg"]["mt"] = False
        t["ops"] += [{"op": "flood", "n": 8000}, {"op": "put", "kind": r.choice(KINDS), "v": 60, "sync": True}, {"op": "put", "kind": "good", "v": 61, "sync": True}]
        tests.append(t)
    ev = vk.run_driver(ctx, drv, tests, shards=8, args=["loader"])
    vk.conform(ctx, "WatchedFile", c, ev, "watched file")
