"""Planted bugs.  add(...) writes /verif/seeded/<id>; `python3 tools/seed.py try [ids]` plants them one
by one in a scratch copy of the repository and reports what the demo and the check say."""
import fcntl, json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = f"{V}/seeded"
REPO = "/repo"
DEMO = r'''#!/bin/bash
# Builds the demonstration against /repo's crates in a scratch directory and runs it there.
here=$(cd "$(dirname "$0")" && pwd)
scratch=${DEMO_SCRATCH:-}
if [ -z "$scratch" ]; then
  scratch=$(mktemp -d /tmp/demo.XXXXXXXX)
  trap 'rm -rf -- "$scratch"' EXIT
fi
cp -r "$here/kit/." "$scratch/"
python3 "$scratch/lib/ws.py" drv-demo > "$scratch/build.log" 2>&1 || { tail -40 "$scratch/build.log"; exit 3; }
mkdir -p "$scratch/tmp"
cd "$scratch/tmp" && SCRATCH="$scratch/tmp" TMPDIR="$scratch/tmp" RUST_LOG=off timeout 100 "$scratch/build/target/debug/drv-demo"
'''


def kit(d, deps, rs, dev=()):
    k = f"{d}/kit"
    shutil.rmtree(k, ignore_errors=True)
    os.makedirs(f"{k}/lib")
    shutil.copy(f"{V}/lib/ws.py", f"{k}/lib/ws.py")
    os.makedirs(f"{k}/harness/drv-demo/src")
    shutil.copy(f"{V}/harness/Cargo.lock", f"{k}/harness/Cargo.lock")
    shutil.copytree(f"{V}/harness/shims", f"{k}/harness/shims")
    shutil.copytree(f"{V}/harness/inject", f"{k}/harness/inject")
    for x in deps:
        if x.startswith("drv-"):
            shutil.copytree(f"{V}/harness/{x}", f"{k}/harness/{x}")
    t = '[package]\nname = "drv-demo"\nversion = "1.0.0"\nedition = "2021"\npublish = false\n\n[dependencies]\n'
    for x in deps:
        if x.startswith(("bd-", "drv-")):
            t += f'{x}.path = "../{x}"\n'
        elif x == "tokio":
            t += 'tokio = { workspace = true, features = ["full", "test-util"] }\n'
        else:
            t += f"{x}.workspace = true\n"
    open(f"{k}/harness/drv-demo/Cargo.toml", "w").write(t)
    open(f"{k}/harness/drv-demo/src/main.rs", "w").write(rs)


def add(id, prop, needs, breaks, edits, deps, demo):
    """edits: [(file, old, new)] against /repo's HEAD."""
    d = f"{S}/{id}"
    os.makedirs(d, exist_ok=True)
    with tempfile.TemporaryDirectory() as t:
        a, b = f"{t}/a", f"{t}/b"
        for f, old, new in edits:
            src = subprocess.run(["git", "-C", REPO, "show", f"HEAD:{f}"], capture_output=True, text=True, check=True).stdout
            for side in (a, b):
                p = f"{side}/{f}"
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.exists(p):
                    open(p, "w").write(src)
            p = f"{b}/{f}"
            cur = open(p).read()
            if cur.count(old) != 1:
                raise SystemExit(f"{id}: {f}: {cur.count(old)} matches of {old!r}")
            open(p, "w").write(cur.replace(old, new))
        r = subprocess.run(["git", "diff", "--no-index", "a", "b"], cwd=t, capture_output=True, text=True).stdout
        r = r.replace("a/a/", "a/").replace("b/b/", "b/")
        open(f"{d}/patch.diff", "w").write(r)
    subprocess.run(["git", "-C", REPO, "apply", "--check", f"{d}/patch.diff"], check=True)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(f"{d}/meta.json", "w"), indent=1)
    kit(d, deps, demo)
    open(f"{d}/demo.sh", "w").write(DEMO)
    os.chmod(f"{d}/demo.sh", 0o755)


HDEMO = r'''#!/bin/bash
# Builds a driver against /repo's crates in a scratch directory, has it run one history there, and compares what it
# observed with what was observed without the bug.
here=$(cd "$(dirname "$0")" && pwd)
scratch=${DEMO_SCRATCH:-}
if [ -z "$scratch" ]; then
  scratch=$(mktemp -d /tmp/demo.XXXXXXXX)
  trap 'rm -rf -- "$scratch"' EXIT
fi
cp -r "$here/kit/." "$scratch/"
python3 "$scratch/lib/ws.py" @DRV@ > "$scratch/build.log" 2>&1 || { tail -40 "$scratch/build.log"; exit 3; }
mkdir -p "$scratch/tmp"
cd "$scratch/tmp" && SCRATCH="$scratch/tmp" TMPDIR="$scratch/tmp" RUST_LOG=off RUST_BACKTRACE=0 timeout 100 "$scratch/build/target/debug/@DRV@" "$here/history.json" "$scratch/out.ndjson" @ARGS@
python3 - "$here/expected.json" "$scratch/out.ndjson" << 'EOF'
import json, sys
def canon(x):
    if isinstance(x, dict): return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list): return sorted(map(canon, x), key=json.dumps) if @SORT@ else [canon(v) for v in x]
    return x
want = json.load(open(sys.argv[1]))
got = [e for e in (json.loads(l) for l in open(sys.argv[2]) if l.strip()) if "res" in e]
for i, w in enumerate(want):
    g = got[i] if i < len(got) else None
    if g is None or canon(g["res"]) != canon(w["res"]):
        print("operation", i, json.dumps(w["op"])[:300])
        print("expected", json.dumps(w["res"])[:1000])
        print("observed", json.dumps(g and g["res"])[:1000])
        sys.exit(1)
sys.exit(0 if len(got) == len(want) else 1)
EOF
'''


def canon(x):
    if isinstance(x, dict):
        return {k: canon(v) for k, v in x.items()}
    if isinstance(x, list):
        return sorted(map(canon, x), key=json.dumps)
    return x


def observe(binary, test, args):
    with tempfile.TemporaryDirectory(dir="/dev/shm") as t:
        open(f"{t}/in", "w").write(json.dumps(test) + "\n")
        os.makedirs(f"{t}/s")
        subprocess.run([binary, f"{t}/in", f"{t}/out", *args], env=dict(os.environ, SCRATCH=f"{t}/s", RUST_LOG="off", RUST_BACKTRACE="0"), timeout=120, capture_output=True)
        return [e for e in (json.loads(l) for l in open(f"{t}/out") if l.strip()) if "res" in e]


def addhist(id, prop, needs, breaks, edits, drv, args, test):
    """A bug whose demonstration is one history (cfg, ops) run by a driver of /verif/harness."""
    import shlex
    args = [str(a) for a in args]
    want = [[{"op": e["op"], "res": e["res"]} for e in observe(f"{V}/build/target/debug/{drv}", test, args)] for _ in range(16)]
    # where the order inside a result is not determined it is left out of the comparison
    order = any(w != want[0] for w in want)
    if order and any(canon(w[i]["res"]) != canon(want[0][i]["res"]) for w in want for i in range(len(want[0]))):
        raise SystemExit(f"{id}: not the same every time")
    add(id, prop, needs, breaks, edits, [drv, "drv-kit"], "fn main() {}\n")
    d = f"{S}/{id}"
    shutil.rmtree(f"{d}/kit/harness/drv-demo")
    open(f"{d}/history.json", "w").write(json.dumps(test) + "\n")
    json.dump(want[0], open(f"{d}/expected.json", "w"))
    open(f"{d}/demo.sh", "w").write(HDEMO.replace("@DRV@", drv).replace("@SORT@", str(order)).replace("@ARGS@", " ".join(shlex.quote(a) for a in args)))


VB = "/tmp/vb"


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, errors="replace", **kw)


OFFICIAL = {"bd-completion", "bd-device", "bd-key-value", "bd-log", "bd-log-metadata", "bd-log-primitives", "bd-metadata", "bd-network-quality",
            "bd-panic", "bd-profile", "bd-rt", "bd-runtime-config", "bd-shutdown", "bd-stats-common", "bd-server-stats", "bd-logger", "bd-session", "bd-test-helpers", "bd-proto"}


def official(id):
    """Build and stable tests with the bug, in /repo itself (put back straight afterwards)."""
    p = f"{S}/{id}/patch.diff"
    lk = open("/tmp/vb.lock", "w")
    fcntl.flock(lk, fcntl.LOCK_EX)
    try:
        sh(f"git -C {REPO} apply {p}")
        r = sh("bash /opt/vp/build.sh")
        if r.returncode:
            return "BUILD FAILS " + (r.stdout + r.stderr)[-1500:]
        sh("bash /opt/vp/test.sh /tmp/vb-test.json")
        got = json.load(open("/tmp/vb-test.json"))
        base = json.load(open("/opt/vp/BASELINE.json"))
        stable = base.get("passed", base.get("stable", base)) if isinstance(base, dict) else base
        miss = [t for t in stable if t not in got["passed"]]
        return "tests ok" if not miss else f"TESTS FAIL {miss}"
    finally:
        sh(f"git -C {REPO} checkout -- .")
        lk.close()


def try_one(id, checks=None, demo=True, slot=0):
    d = f"{S}/{id}"
    prop = json.load(open(f"{d}/meta.json"))["property"]
    vb = f"{VB}{slot}"
    os.makedirs(vb, exist_ok=True)
    with open("/tmp/vb.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        sh(f"rsync -a --delete --exclude target --exclude .git {REPO}/ {vb}/repo/")
    sh(f"rsync -a --delete --exclude build --exclude seeded --exclude .git --exclude evidence --exclude replay {V}/ {vb}/verif/")
    sh(f"git init -q {vb}/repo") if not os.path.isdir(f"{vb}/repo/.git") else None
    out = [id, prop]
    env = dict(os.environ, VERIF_REPO=f"{vb}/repo", DEMO_SCRATCH=f"{vb}/demo")
    if demo:
        shutil.rmtree(f"{vb}/demo/harness", ignore_errors=True)
        os.makedirs(f"{vb}/demo", exist_ok=True)
        r = sh(f"bash {d}/demo.sh", env=env)
        out.append(f"demo clean {'ok' if r.returncode == 0 else 'FAILS ' + (r.stdout + r.stderr)[-1500:]}")
    r = sh(f"patch -p1 -d {vb}/repo < {d}/patch.diff")
    if r.returncode:
        return out + ["PATCH FAILS " + r.stdout]
    if demo:
        r = sh(f"bash {d}/demo.sh", env=env)
        out.append(f"demo bug rc={r.returncode} {'ok' if r.returncode not in (0, 3) else 'NOT SHOWN ' + r.stdout[-1500:]}")
    for p in checks or [prop]:
        if os.path.exists(f"{V}/checks/{p.lower()}.py"):
            r = sh(f"VERIF_TIER=quick timeout 900 python3 checks/run.py {p}", cwd=f"{vb}/verif", env=dict(env))
            caught = r.returncode == 1 and f"VIOLATION property={p}" in r.stdout
            out.append(f"{p}: {'CAUGHT' if caught else f'MISSED rc={r.returncode} ' + (r.stdout + r.stderr)[-800:]}")
    return out


if __name__ == "__main__":
    args = sys.argv[2:]
    slot = 0
    if args and args[0].startswith("slot="):
        slot = int(args.pop(0)[5:])
    ids = args or sorted(os.listdir(S))
    for id in ids:
        if sys.argv[1] == "official":
            files = [l[6:] for l in open(f"{S}/{id}/patch.diff") if l.startswith("+++ b/")]
            print(id, official(id) if any(f.split("/")[0] in OFFICIAL for f in files) else "not in the official build", flush=True)
        elif sys.argv[1] == "rekit":
            # the kit follows /verif/lib and /verif/harness
            k = f"{S}/{id}/kit/harness/drv-demo"
            if not os.path.isdir(k):
                drvs = [x for x in os.listdir(f"{S}/{id}/kit/harness") if x.startswith("drv-")]
                kit(f"{S}/{id}", drvs, "")
                shutil.rmtree(k)
                continue
            rs = open(f"{k}/src/main.rs").read()
            import tomllib
            deps = list(tomllib.load(open(f"{k}/Cargo.toml", "rb"))["dependencies"])
            kit(f"{S}/{id}", deps, rs)
            open(f"{S}/{id}/demo.sh", "w").write(DEMO)
        else:
            print(" | ".join(try_one(id, slot=slot, demo=sys.argv[1] != "check")), flush=True)
