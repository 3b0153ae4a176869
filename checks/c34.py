"""Exhaustive check of spec/LogPipeline.tla (logs, blocking logs, logs of the previous session, wrong session hints, field changes, flushes,
configurations, session changes, metadata failures, buffer failures, uploads triggered by workflows, shutdown, in every order, with
the configuration and the server's decision taken up at any point of the queue) to a bounded depth plus random longer histories, replayed on the real
AsyncLogBuffer and ProcessingPipeline between mock buffers and a driver playing the flushers and the server; calls by three threads at once, with real waiting, against spec/LogQueue.tla."""
import random
import vk, ws

MATCH = ('Match(a, b) == a = b\n'
         'Same(a, b) == /\\ a.w = b.w /\\ a.cnt = b.cnt /\\ a.lost = b.lost /\\ a.ask = b.ask /\\ a.trig = b.trig /\\ a.req = b.req /\\ a.sv <= b.sv\n'
         '             /\\ a.done = {b.done[i] : i \\in DOMAIN b.done}\n'
         'MatchOp(op, a, b) == IF op.op \\in {"run", "ack", "accept", "stop"} THEN Same(a, b) ELSE Match(a, b)')


def run(ctx):
    drv = ws.build(["drv-logger"])["drv-logger"]
    conf = lambda c="", t="", u="", tail="", filt="", fire="": dict(selC=list(c), selT=list(t), selU=list(u), tail=list(tail), filt=list(filt), fire=list(fire))
    log = lambda tag, blk=False, kind="n": dict(tag=tag, blk=blk, kind=kind)

    def part(name, what, confs, logs, fields, faults, acks, fam, caps, sts, depth, limit, sim):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(dict(cap=k, st=s)) for k in caps for s in sts) + "}"), Confs=("tla", vk.tla(confs)),
                 Logs=("tla", "{" + ", ".join(vk.tla(x) for x in logs) + "}"), Fields=set(fields) if fields else ("tla", "{}"),
                 Faults=("tla", "{" + ", ".join(vk.tla(list(x)) for x in faults) + "}"), Acks=("tla", "{" + ", ".join(acks) + "}"),
                 Fam=set(fam) if fam else ("tla", "{}"))
        tests = vk.explore(ctx, "LogPipeline", c, depth, limit=limit, name="MC" + name)
        tests += vk.behaviours(ctx, "LogPipeline", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, args=["pipe", vk.json.dumps(confs)])
        vk.conform(ctx, "LogPipeline", c, ev, what, match=MATCH, name="TR" + name, parallel=8)

    # before and after the first configuration; sessions; fields; metadata failures; stop
    part("a", "taking up of logs", [conf("a", "b", "ab", filt="b"), conf("b", "aW", "", tail="a", filt="a")],
         [log("a"), log("b", True), log("b", kind="p"), log("W", True, "w")], [0, 1, 2], [], ["TRUE"], ["sess", "prov", "stop"], [2, 3], [False],
         ctx.pick(4, 5), ctx.pick(1500, 60000), (ctx.pick(300, 10000), 25))
    # blocking calls and flushes against their flushers
    part("b", "blocking calls", [conf("a", "b", "ab"), conf("", "", "b", tail="b")],
         [log("a", True), log("b", True), log("c", True), log("a")], [1, 2], [], ["TRUE", "FALSE"], ["flush", "stop"], [3], [True, False],
         ctx.pick(4, 5), ctx.pick(1500, 60000), (ctx.pick(300, 10000), 25))
    # uploads triggered by workflows; failing buffers
    part("c", "triggered uploads", [conf("a", "b", "cd", fire="abce"), conf("b", "c", "bd", tail="c", fire="d", filt="d"), conf("", "bd", "d", fire="de")],
         [log("a"), log("b"), log("b", True), log("c", True), log("d"), log("e"), log("e", True)], [], [("c", f) for f in ("ok", "lock", "big")] + [("t", "big"), ("t", "ok")],
         ["TRUE"], [], [4], [False], ctx.pick(4, 5), ctx.pick(1500, 60000), (ctx.pick(300, 10000), 25))

    # several threads at once, blocking for real
    c = dict(Cfgs=("tla", "{[x |-> 1]}"), Fields={0, 1, 2})
    vk.explore(ctx, "LogQueue", c, ctx.pick(4, 6), limit=10, name="MCd")
    tests = []
    for seed in range(ctx.pick(400, 12000)):
        r = random.Random(3400 + seed)
        i = 0
        ths = [[] for _ in range(3)]
        for _ in range(r.randrange(5, 11)):
            k = r.randrange(10)
            if k < 6:
                i += 1
                op = dict(op="log", i=i, blk=r.random() < 0.4)
            else:
                op = dict(op="field", v=r.randrange(3)) if k < 9 else dict(op="flush", blk=r.random() < 0.7)
            r.choice(ths).append(op)
        tests.append({"cfg": {"x": 1}, "threads": ths, "ops": [seed]})
    confs = [conf("a")]
    ev = vk.run_driver(ctx, drv, tests, name="d", shards=8, args=["pipe-race", vk.json.dumps(confs)])
    vk.conform(ctx, "LogQueue", c, ev, "several threads", conc=True, match="Match(a, b) == a = b", name="TRd", threads=4, parallel=8)
