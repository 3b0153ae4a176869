"""Shared machinery of the checks: TLC runs, path generation, trace validation, evidence."""
import hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time, concurrent.futures as cf

LIB = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, LIB)
import ws

VERIF = ws.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar"
CM = [p for p in ("/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/veriftools/tla/CommunityModules.jar") if os.path.exists(p)]


class ToolError(Exception):
    pass


class Ctx:
    """One run of one property's check."""

    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.thorough = self.tier == "thorough"
        self.t0 = time.time()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, events=0, samples=[], configs=[])
        self.assumptions = []
        self.violations = []
        self.known_seen = []
        self.work = os.path.join(ws.BUILD, "run", f"{prop}-{os.getpid()}")
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.rng = random.Random(self.seed * 7919 + 13)
        self.known = load_known(prop)
        self.driver = {}

    def path(self, *a):
        return os.path.join(self.work, *a)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def violation(self, what, detail):
        """what: short line; detail: the failing history, which goes to the replay file."""
        for k in self.known:
            if k["match"] in what or k["match"] in json.dumps(detail, sort_keys=True):
                line = f"KNOWN-FINDING: property={self.prop} {k['what']}"
                if line not in self.known_seen:
                    self.known_seen.append(line)
                    print(line, flush=True)
                return False
        os.makedirs(os.path.join(VERIF, "replay"), exist_ok=True)
        h = hashlib.sha256(json.dumps([what, detail], sort_keys=True, default=str).encode()).hexdigest()[:10]
        p = os.path.join(VERIF, "replay", f"{self.prop}-{h}.json")
        with open(p, "w") as f:
            json.dump({"property": self.prop, "what": what, "seed": self.seed, "tier": self.tier, "driver": self.driver, "detail": detail}, f, indent=1, default=str)
        self.violations.append({"what": what, "replay": p})
        print(f"  {what}"[:1500], flush=True)
        print(f"VIOLATION property={self.prop} replay={p}", flush=True)
        if os.environ.get("VK_STOP"):  # for trying out planted bugs
            os._exit(1)
        return True

    def finish(self, level="model_checking"):
        n = self.cov
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
            "coverage": {k: n[k] for k in ("states", "transitions", "traces_validated_against_impl")}
            | {"events": n["events"], "samples": n["samples"], "details": n["configs"]},
            "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations), "violation_list": self.violations, "known_findings": self.known_seen,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.work, ignore_errors=True)
        print(f"{self.prop} {self.tier}: {n['states']} states, {n['transitions']} transitions, "
              f"{n['traces_validated_against_impl']} traces, {n['events']} events, {ev['wall_s']}s", flush=True)
        return 1 if self.violations else 0


def load_known(prop):
    p = os.path.join(VERIF, "known-findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) match=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append({"match": m.group(2), "what": m.group(3)})
    return out


#
# TLC
#
def tla(v):
    if isinstance(v, bool):
        return "TRUE" if v else "FALSE"
    if isinstance(v, int):
        return str(v) if v > -2**31 else "(-2147483647 - 1)"
    if isinstance(v, str):
        return json.dumps(v)
    if isinstance(v, (list, tuple)):
        return "<<" + ", ".join(tla(x) for x in v) + ">>"
    if isinstance(v, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(x) for x in v)) + "}"
    if isinstance(v, dict):
        return "[" + ", ".join(f"{k} |-> {tla(x)}" for k, x in v.items()) + "]"
    raise ValueError(v)


def tlc(ctx, name, module, cfg, defs="", extends=None, workers=1, timeout=600, args=(), envs=None, heap="3g", deque=False):
    """Runs TLC on a generated root module `name` that EXTENDS `module` plus `defs`, with config text."""
    d = ctx.path(name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(SPEC, f), d)
    root = "R" + re.sub(r"\W", "", name)
    with open(os.path.join(d, root + ".tla"), "w") as f:
        f.write(f"---- MODULE {root} ----\nEXTENDS {module}{', ' + extends if extends else ''}\n{defs}\n====\n")
    with open(os.path.join(d, root + ".cfg"), "w") as f:
        f.write(cfg)
    cmd = ["java", f"-Xmx{heap}", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Dtlc2.TLC.stopAfter=100000", "-Xss64m",
           "-Djava.io.tmpdir=" + d]
    if deque:
        cmd.append("-Dtlc2.tool.queue.IStateQueue=StateDeque")
    cmd += ["-cp", ":".join([JAR] + CM), "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "states"),
            "-noGenerateSpecTE", "-nowarning", "-config", root + ".cfg", *args, root + ".tla"]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(envs or {})
    out = os.path.join(d, "out.txt")
    with open(out, "w") as f:
        try:
            r = subprocess.run(cmd, cwd=d, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            rc = r.returncode
        except subprocess.TimeoutExpired:
            rc = -9
    shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
    return rc, out


def tail(p, n=60):
    with open(p, errors="replace") as f:
        return "".join(l[:600] + ("\n" if len(l) > 600 else "") for l in [x for x in f.readlines() if not x.startswith("<<\"P\"")][-n:])


def stats(out):
    gen = dist = 0
    for line in open(out, errors="replace"):
        m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
        if m:
            gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
        m = re.match(r"Progress.*: ([\d,]+) states checked", line)
    return gen, dist


def model_check(ctx, name, module, defs, cfg, workers=4, timeout=600, paths=False, args=()):
    """Exhaustive check of a bounded instance.  With paths=True (one worker) also returns one
    operation path per transition, printed by the instance's action constraint as <<"P", json>>."""
    t = time.time()
    rc, out = tlc(ctx, name, module, cfg, defs, workers=1 if paths else workers, timeout=timeout, args=args)
    if rc != 0:
        raise ToolError(f"TLC on {name}: exit {rc}\n{tail(out)}")
    gen, dist = stats(out)
    ctx.cov["states"] += dist
    ctx.cov["transitions"] += gen
    ctx.cov["configs"].append({"instance": name, "distinct_states": dist, "states_generated": gen, "s": round(time.time() - t, 1)})
    if not paths:
        return None
    return read_paths(out)


def read_paths(out):
    res = []
    for line in open(out, errors="replace"):
        if line.startswith('<<"P", "') and line.rstrip().endswith('">>'):
            s = line.rstrip()[len('<<"P", '):-2]
            res.append(json.loads(json.loads(s)))
    return res


def simulate(ctx, name, module, defs, cfg, num, depth, timeout=300):
    """Random behaviours of the specification; the instance prints its history at the last level."""
    rc, out = tlc(ctx, name, module, cfg, defs, timeout=timeout,
                  args=("-simulate", f"num={num}", "-depth", str(depth), "-seed", str(ctx.seed)))
    if rc != 0:
        raise ToolError(f"TLC simulation {name}: exit {rc}\n{tail(out)}")
    return read_paths(out)


def maximal(paths):
    """Drops paths that are proper prefixes of others (their transitions are covered there)."""
    keys = {}
    for p in paths:
        k = tuple(json.dumps(o, sort_keys=True) for o in p)
        keys[k] = p
    pref = set()
    for k in keys:
        for i in range(len(k)):
            pref.add(k[:i])
    return [p for k, p in keys.items() if k not in pref]


def run_driver(ctx, binary, tests, name="drv", timeout=300, args=(), envs=None, shards=1):
    """tests: list of JSON values, one per line on the driver's input.  The driver writes one JSON
    line per event to its output file; the first event of each test is a 'reset'."""
    def one(i, chunk):
        inp, outp = ctx.path(f"{name}-{i}.in"), ctx.path(f"{name}-{i}.ndjson")
        with open(inp, "w") as f:
            for t in chunk:
                f.write(json.dumps(t) + "\n")
        # In memory where possible: what the drivers create is small and short-lived.
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        d = tempfile.mkdtemp(prefix="verif-", dir=shm or ctx.path(""))
        e = dict(os.environ, RUST_BACKTRACE="0", RUST_LOG="off", SCRATCH=d)
        e.update(envs or {})
        try:
            r = subprocess.run([binary, inp, outp, *map(str, args)], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        except subprocess.TimeoutExpired:
            # The code under test hung: what was recorded so far, plus a marker the model never allows.
            return outp, "timeout", ""
        finally:
            shutil.rmtree(d, ignore_errors=True)
        return outp, r.returncode, r.stdout[-3000:]
    ctx.driver = {"driver": os.path.basename(binary), "args": [str(a) for a in args], "env": envs or {}}
    chunks = [tests[i::shards] for i in range(shards)]
    chunks = [c for c in chunks if c]
    res = []
    with cf.ThreadPoolExecutor(max_workers=len(chunks) or 1) as ex:
        for outp, rc, log in ex.map(lambda a: one(*a), enumerate(chunks)):
            events = load_events(outp)
            if rc == "timeout":
                events.append({"ev": "hang", "op": {"op": "hang"}, "res": "hang"})
            elif rc != 0:
                events.append({"ev": "abort", "op": {"op": "abort"}, "res": {"rc": rc, "log": log}})
            res.append(events)
    return res


def load_events(p):
    ev = []
    if os.path.exists(p):
        for line in open(p, errors="replace"):
            line = line.strip()
            if line:
                try:
                    ev.append(json.loads(line))
                except json.JSONDecodeError:
                    break
    return ev


def validate(ctx, name, module, defs, cfg, batches, what, timeout=600, deque=False, parallel=6, max_rounds=8, heap="3g"):
    """Checks recorded executions against the trace specification.

    A trace spec reads env TRACE, consumes events with variable l, keeps the largest l in TLC
    register 1 and prints it by POSTCONDITION PrintAt ("AT", l).  The execution is accepted iff all
    its events were consumed.  The first event that no behaviour of the specification explains is the
    violation; its test is then removed and the rest is checked again, so that a known finding does
    not hide others."""
    def tests_of(events):
        out = []
        for e in events:
            if e.get("ev") == "reset" or not out:
                out.append([])
            out[-1].append(e)
        return out

    def one(i, events):
        bad, rounds = [], 0
        while events and rounds < max_rounds:
            rounds += 1
            p = ctx.path(f"{name}-{i}-{rounds}.trace")
            with open(p, "w") as f:
                for e in events:
                    f.write(json.dumps(e) + "\n")
            t = time.time()
            rc, out = tlc(ctx, f"{name}v{i}r{rounds}", module, cfg, defs, workers=1, timeout=timeout, envs={"TRACE": p}, deque=deque, heap=heap)
            at = None
            inv = None
            for line in open(out, errors="replace"):
                m = re.match(r'<<"AT", (\d+)>>', line)
                if m:
                    at = int(m.group(1))
                m = re.match(r"Error: (Invariant|Action property|Temporal properties?) ?(\S*)", line)
                if m:
                    inv = m.group(2) or m.group(1)
            gen, dist = stats(out)
            if inv is not None:
                # An invariant failed along an execution of the code; the trace shows where.
                ls = [int(x) for x in re.findall(r"/\\ l = (\d+)", open(out, errors="replace").read())]
                at = ls[-1] if ls else 1
                at = max(at - 1, 1)
                reason = f"property {inv} is violated"
            elif at is None or rc not in (0,):
                if at is None:
                    raise ToolError(f"trace validation {name}: exit {rc}\n{tail(out)}")
                reason = "no behaviour of the specification explains this event"
            else:
                reason = "no behaviour of the specification explains this event"
            shutil.rmtree(ctx.path(f"{name}v{i}r{rounds}"), ignore_errors=True)
            os.remove(p)
            if inv is None and at > len(events):
                return bad, dist
            # locate the test
            pos = at - 1
            n = 0
            ts = tests_of(events)
            for k, tst in enumerate(ts):
                if n <= pos < n + len(tst):
                    bad.append({"reason": reason, "test": tst[: pos - n + 1], "event": tst[pos - n], "rest": tst[pos - n + 1:][:20]})
                    ts.pop(k)
                    break
                n += len(tst)
            events = [e for tst in ts for e in tst]
        return bad, 0

    t = time.time()
    batches = [b for b in batches if b]
    ntests = sum(1 for b in batches for e in b if e.get("ev") == "reset")
    nev = sum(len(b) for b in batches)
    found = []
    with cf.ThreadPoolExecutor(max_workers=parallel) as ex:
        for bad, dist in ex.map(lambda a: one(*a), enumerate(batches)):
            found += bad
    ctx.cov["traces_validated_against_impl"] += ntests
    ctx.cov["events"] += nev
    for b in batches[:1]:
        ctx.cov["samples"] += [e for e in b[:40] if e.get("ev") != "reset"][:6]
    ctx.cov["configs"].append({"traces": name, "tests": ntests, "events": nev, "s": round(time.time() - t, 1)})
    reported = 0
    for b in found:
        if reported >= 3:
            break
        if ctx.violation(f"{what}: {b['reason']}: {json.dumps(b['event'], default=str)[:700]}", b):
            reported += 1
    return not found


#
# Components: a module with S0(cfg), Ops(s), Outcomes(s, op), Inv(s), StepOk(s, op, o).
#
MC = r"""
VARIABLES s, hist
MCInit == \E c \in Cfgs : s = S0(c) /\ hist = <<c>>
\* (The step property is asserted here: TLC evaluates invariants of new states much slower.)
MCNext == \E op \in Ops(s) : \E o \in Outcomes(s, op) :
            /\ Assert(StepOk(s, op, o), <<"StepOk", s, op, o>>)
            /\ s' = o.s /\ hist' = Append(hist, op)
MCBound == Len(hist) <= MCDepth
MCView == s
MCInv == Inv(s)
MCPrint == PrintT(<<"P", ToJson(hist')>>)
MCPrintLast == Len(hist') < MCDepth + 1 \/ PrintT(<<"P", ToJson(hist')>>)
"""

SEQ = r"""
VARIABLES s, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
TInit == s = 0 /\ l = 1 /\ TLCSet(1, 1)
TStep(e) ==
  \/ e.ev = "reset" /\ s' = S0(e.op)
  \/ e.ev = "op" /\ \E o \in Outcomes(s, e.op) : MatchOp(e.op, o.res, e.res) /\ s' = o.s
TNext == /\ l <= Len(Trace)
         /\ TStep(Trace[l])
         /\ l' = l + 1
         /\ TLCSet(1, IF TLCGet(1) < l + 1 THEN l + 1 ELSE TLCGet(1))
TInv == l = 1 \/ Inv(s)
PrintAt == PrintT(<<"AT", TLCGet(1)>>)
"""

CONC = r"""
VARIABLES s, p, l
Trace == ndJsonDeserialize(IOEnv.TRACE)
Idle == [st |-> "idle"]
TInit == s = 0 /\ p = [t \in 0 .. Threads |-> Idle] /\ l = 1 /\ TLCSet(1, 1)
TStep(e) ==
  \/ e.ev = "reset" /\ s' = S0(e.op) /\ p' = [t \in 0 .. Threads |-> Idle]
  \/ e.ev = "op" /\ UNCHANGED p /\ \E o \in Outcomes(s, e.op) : MatchOp(e.op, o.res, e.res) /\ s' = o.s
  \/ e.ev = "inv" /\ UNCHANGED s /\ p' = [p EXCEPT ![e.t] = [st |-> "inv", op |-> e.op, done |-> e.done, res |-> e.res]]
  \/ /\ e.ev = "ret" /\ UNCHANGED s /\ p[e.t].st = "lin"
     /\ p' = [p EXCEPT ![e.t] = Idle]
Lin == /\ Trace[l].ev = "ret" /\ UNCHANGED l
       /\ p[Trace[l].t].st = "inv"
       /\ \E t \in 0 .. Threads :
            /\ p[t].st = "inv"
            /\ \E o \in Outcomes(s, p[t].op) :
                 /\ p[t].done => MatchOp(p[t].op, o.res, p[t].res)
                 /\ s' = o.s /\ p' = [p EXCEPT ![t] = [st |-> "lin"]]
TNext == /\ l <= Len(Trace)
         /\ \/ /\ TStep(Trace[l])
               /\ l' = l + 1
               /\ TLCSet(1, IF TLCGet(1) < l + 1 THEN l + 1 ELSE TLCGet(1))
            \/ Lin
TInv == l = 1 \/ Inv(s)
PrintAt == PrintT(<<"AT", TLCGet(1)>>)
"""

EXT = "Json, IOUtils, TLC, Sequences, Integers, FiniteSets"


def consts(c):
    """Python constants as definitions of the root module and their cfg lines.  A value of the form
    ("tla", text) is used as it stands."""
    d = cfg = ""
    for k, v in c.items():
        t = v[1] if isinstance(v, tuple) and len(v) == 2 and v[0] == "tla" else tla(v)
        # (TLC evaluates a definition once, but what replaces a constant at every use.)
        d += f"k_{k} == {t}\nc_{k} == k_{k}\n"
        cfg += f"CONSTANT {k} <- c_{k}\n"
    return d, cfg


def to_tests(paths):
    return [{"cfg": p[0], "ops": p[1:]} for p in paths]


def explore(ctx, comp, c, depth, name=None, timeout=600, defs="", limit=None, quiet=False, view="MCView", extra_cfg="", pre=""):
    """Model-checks the instance exhaustively to the depth; returns one test per transition (prefixes dropped)."""
    d, cfg = consts(c)
    d = pre + d + f"MCDepth == {depth}\n" + defs + MC
    cfg += "INIT MCInit\nNEXT MCNext\nCONSTRAINT MCBound\nINVARIANT MCInv\nCHECK_DEADLOCK FALSE\n" + extra_cfg
    if view:
        cfg += f"VIEW {view}\n"
    if not quiet:
        cfg += "ACTION_CONSTRAINT MCPrint\n"
    p = model_check(ctx, name or f"MC{comp}", f"{comp}, {EXT}", d, cfg, paths=not quiet, timeout=timeout)
    if quiet:
        return []
    p = maximal(p)
    if limit and len(p) > limit:
        ctx.rng.shuffle(p)
        p = p[:limit]
    return to_tests(p)


def behaviours(ctx, comp, c, num, depth, name=None, defs="", timeout=300, extra_cfg="", pre=""):
    d, cfg = consts(c)
    d = pre + d + f"MCDepth == {depth}\n" + defs + MC
    cfg += "INIT MCInit\nNEXT MCNext\nACTION_CONSTRAINT MCPrintLast\nINVARIANT MCInv\nCHECK_DEADLOCK FALSE\n" + extra_cfg
    p = simulate(ctx, name or f"SIM{comp}", f"{comp}, {EXT}", d, cfg, num, depth + 1, timeout=timeout)
    # (all successors of a behaviour's last state are printed: one of them is enough)
    seen, out = set(), []
    ctx.rng.shuffle(p)
    for h in p:
        k = json.dumps(h[:-1], sort_keys=True)
        if k not in seen:
            seen.add(k)
            out.append(h)
    return to_tests(out)


def annotate(events):
    """Gives every invocation the result it will return, so that the search does not guess."""
    out, open_ = [], {}
    for e in events:
        e = dict(e)
        if e["ev"] == "reset":
            open_ = {}
        elif e["ev"] == "inv":
            e.update(done=False, res=0)
            open_[e["t"]] = e
        elif e["ev"] == "ret":
            open_.pop(e["t"]).update(done=True, res=e["res"])
        out.append(e)
    return out


def conform(ctx, comp, c, events, what, conc=False, match="Match(a, b) == a = b", name=None, parallel=6, timeout=600, threads=4, defs="", pre="", **kw):
    d, cfg = consts(c)
    if "MatchOp(" not in match:
        match += "\nMatchOp(op, a, b) == Match(a, b)"
    d = pre + d + match + "\n" + (f"Threads == {threads}\n" if conc else "") + defs + (CONC if conc else SEQ)
    if conc:
        events = [annotate(e) for e in events]
    cfg += "INIT TInit\nNEXT TNext\nINVARIANT TInv\nCHECK_DEADLOCK FALSE\nPOSTCONDITION PrintAt\n"
    return validate(ctx, name or f"TR{comp}{'c' if conc else ''}", f"{comp}, {EXT}", d, cfg, split(events, parallel), what, parallel=parallel, timeout=timeout, **kw)


def split(events_list, n):
    """Re-splits recorded tests into n batches of whole tests."""
    tests = []
    for ev in events_list:
        for e in ev:
            if e.get("ev") == "reset" or not tests:
                tests.append([])
            tests[-1].append(e)
    out = [[] for _ in range(n)]
    sizes = [0] * n
    for t in tests:
        i = sizes.index(min(sizes))
        out[i].extend(t)
        sizes[i] += len(t)
    return out


def main(prop, fn):
    try:
        ctx = Ctx(prop)
        fn(ctx)
        sys.exit(ctx.finish())
    except ws.BuildError as e:
        print(f"{prop}: build failed\n{e}", file=sys.stderr)
        sys.exit(2)
    except ToolError as e:
        print(f"{prop}: {e}", file=sys.stderr)
        sys.exit(2)
