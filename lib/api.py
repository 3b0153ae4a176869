"""What the checks of bd-api's stream (spec/ApiStream.tla) share."""
import vk, ws

RTS = [
    dict(init=1600, max=6000, gen=0, una=1000, comp=True, v="r1"),
    dict(init=400, max=400, gen=5000, una=86400000, comp=False, v="r2"),
    dict(init=1600, max=40000, gen=0, una=0, comp=True, v="r3"),
]
MATCH = """Set(q) == {q[i] : i \\in DOMAIN q}
Match(a, b) == /\\ a.sent = b.sent /\\ a.trig = b.trig /\\ a.starts = b.starts /\\ a.end = b.end /\\ a.q = b.q /\\ a.kf = b.kf
               /\\ Len(b.done) = Cardinality(a.done) /\\ Set(b.done) = a.done
MatchOp(op, a, b) == Match(a, b)"""


class Api:
    def __init__(self, ctx):
        self.ctx = ctx
        self.drv = ws.build(["drv-api"])["drv-api"]

    def part(self, name, what, fam, depth=None, limit=None, sim=None, fixed=None, rts=RTS, cfgs=(0,), pings=(-1, 4000), waits=(300, 20000, 70000),
             keys=("k1",), clocks=(0,), kinds=("intent", "log"), ids=("a", "b"), ups=3, launches=2):
        ctx = self.ctx
        fmt = "[rt |-> %d, rts |-> " + vk.tla(list(rts)) + "]"
        c = dict(Cfgs=("tla", "{" + ", ".join(fmt % i for i in cfgs) + "}"), Rts=list(rts), Pings=("tla", "{" + ", ".join(map(str, pings)) + "}"),
                 Waits=set(waits), Keys=set(keys), Clocks=("tla", "{" + ", ".join(map(str, clocks)) + "}"), Kinds=set(kinds), Ids=set(ids),
                 MaxUps=ups, MaxLaunch=launches, Fam=set(fam))
        tests = []
        for ops in fixed or []:
            tests.append(dict(cfg=dict(rt=cfgs[0], rts=list(rts)), ops=ops))
        if depth:
            tests += vk.explore(ctx, "ApiStream", c, depth, limit=limit, name="MC" + name)
        if sim:
            tests += vk.behaviours(ctx, "ApiStream", c, *sim, name="SIM" + name)
        ev = vk.run_driver(ctx, self.drv, tests, name=name, shards=8, timeout=600)
        vk.conform(ctx, "ApiStream", c, ev, what, name="TR" + name, match=MATCH, parallel=8, timeout=800)
