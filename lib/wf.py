"""Workflow definitions for spec/Workflows.tla, and the exploration and replay of an instance."""
import vk, ws


def tr(m, to, n=1, acts=()):
    return dict(m=list(m), n=n, to=to, acts=list(acts))


def m(i):
    return dict(k="m", id=i)


def f(i):
    return dict(k="f", id=i)


SHOT = dict(k="s", id="s")


def wf(i, excl, st, lim=0, dur=0):
    return {"id": i, "excl": excl, "lim": lim, "dur": dur, "st": st}


def chain(i, excl, lim=0, dur=0, p="", n=2):
    """a, then n times b, then c."""
    return wf(i, excl, [[tr("a", 2, 1, [m(p + i + "1")])], [tr("b", 3, n, [m(p + i + "2")])], [tr("c", 4, 1, [m(p + i + "3"), SHOT])], []], lim, dur)


def fork(i, excl, lim=0, dur=0, p=""):
    """a forks into two branches, one of which forks again."""
    return wf(i, excl, [[tr("a", 2, 1, [m(p + i + "1")]), tr("ab", 3, 1, [f(p + i + "2")])],
                        [tr("b", 4, 1, [m(p + i + "3")]), tr("bc", 3, 2, [m(p + i + "4")])],
                        [tr("c", 4, 1, [m(p + i + "5")])], []], lim, dur)


def loop(i, excl, lim=0, dur=0, p=""):
    """Comes back to the initial state and to itself."""
    return wf(i, excl, [[tr("a", 2, 1, [m(p + i + "1")]), tr("c", 1, 2, [m(p + i + "2")])],
                        [tr("b", 2, 1, [m(p + i + "3")]), tr("c", 1, 1, [m(p + i + "4")])]], lim, dur)


def one(i, excl, lim=0, dur=0, p="", n=1):
    return wf(i, excl, [[tr("a", 2, n, [m(p + i + "1"), SHOT])], []], lim, dur)


def odd(i, excl, lim=0, dur=0, p=""):
    """A timeout that never fires, a transition that never can, two transitions alike."""
    return wf(i, excl, [[tr("a", 2, -1, [m(p + i + "1")]), tr("a", 3, 0, [m(p + i + "2")]), tr("b", 2, 2, [m(p + i + "3")]), tr("b", 3, 2, [m(p + i + "3")])],
                        [tr("abc", 4, 1, [m(p + i + "4")])], [tr("abc", 4, 3, [m(p + i + "5")])], []], lim, dur)


SHAPES = [chain, fork, loop, one, odd]


def rand(rng, i, letters="abc", lim=0, dur=0, p=""):
    ns = rng.randint(2, 4)
    st, k = [], 0
    for a in range(ns):
        ts = []
        for _ in range(0 if a == ns - 1 and rng.random() < .8 else rng.randint(1, 3)):
            k += 1
            acts = []
            if rng.random() < .7:
                acts.append(m(f"{p}{i}{k}"))
            if rng.random() < .2:
                acts.append(f(f"{p}{i}{k}"))
            if rng.random() < .15:
                acts.append(SHOT)
            ts.append(tr("".join(sorted(rng.sample(letters, rng.choice([1, 1, 2])))), rng.randint(1, ns), rng.choice([1, 1, 1, 2, 2, 3, 0, -1] if rng.random() < .3 else [1, 1, 2, 3]), acts))
        st.append(ts)
    return wf(i, rng.random() < .5, st, lim, dur)


def cfg(defs, confs, conf=1, lims=(1000,), lim=1):
    return dict(defs=defs, confs=[list(c) for c in confs], conf=conf, lims=list(lims), lim=lim)


MATCH = """Match(a, b) == \\A k \\in DOMAIN a : IF k = "acts" THEN a.acts = {b.acts[i] : i \\in DOMAIN b.acts} /\\ Cardinality(a.acts) = Len(b.acts)
               ELSE a[k] = b[k]"""



def parts(ctx):
    drv = ws.build(["drv-workflows"])["drv-workflows"]

    def part(name, what, cfgs, depth, limit, sim, gaps=(0,), sessions=("s1",), letters="abc", fam=(), match=MATCH):
        c = dict(Cfgs=("tla", "{" + ", ".join(vk.tla(x) for x in cfgs) + "}"), Letters=set(letters), Gaps=set(gaps), Sessions=set(sessions), Fam=set(fam))
        tests = vk.explore(ctx, "Workflows", c, depth, limit=limit, name="MC" + name) if depth else []
        if sim:
            tests += vk.behaviours(ctx, "Workflows", c, *sim, name="SIM" + name)
        for t in tests:
            for o in t["ops"]:
                if o["op"] == "damage":
                    o["x"] = ctx.rng.randrange(40)
        ev = vk.run_driver(ctx, drv, tests, name=name, shards=8, timeout=600)
        vk.conform(ctx, "Workflows", c, ev, what, name="TR" + name, match=match, parallel=8, timeout=800)

    return part
