"""Lays out /verif/build/ws, a cargo workspace with copies of /repo's crates and our drivers.

/repo's own workspace cannot be resolved offline (git dependencies), so, like the official build,
this one is generated: sources are copied from /repo's working tree on every run (written only when
their content changed, so cargo rebuilds exactly what changed), manifests are /repo's with missing
dependencies mapped to the stand-ins in harness/shims, and third-party crates come from a directory
source made of the .crate files in cargo's cache.
"""
import hashlib, json, os, re, shutil, subprocess, sys, tarfile, tomllib, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
WS = os.path.join(BUILD, "ws")
VENDOR = os.path.join(BUILD, "vendor")
HARNESS = os.path.join(VERIF, "harness")
SHIMS = os.path.join(HARNESS, "shims")
CACHES = sorted(glob.glob("/root/.cargo/registry/cache/index.crates.io-*"))

# Left out: they need crates that are not available here, or nothing checks them.
SKIP = {"bd-pgv", "bd-hyper-network", "bd-noop-network", "bd-profile", "bd-grpc", "bd-test-helpers", "bd-proto-util"}
SHIMMED = ("protobuf", "sketches-rust", "fs2", "intrusive-collections", "bd-pgv", "futures")
UNUSED_PROTOS = {"google", "insight", "mme", "prometheus", "pulse"}


def env(extra=None):
    e = dict(os.environ)
    e.update(
        RUSTUP_TOOLCHAIN="1.83.0", CARGO_NET_OFFLINE="true", SKIP_PROTO_GEN="1", CARGO_TERM_COLOR="never",
        RUSTC_WRAPPER="", RUSTFLAGS="-Awarnings --cap-lints allow -C link-arg=-fuse-ld=lld", CARGO_INCREMENTAL="1",
        CARGO_TARGET_DIR=os.path.join(BUILD, "target"), HOME="/root",
        PATH="/root/.cargo/bin:" + os.environ.get("PATH", "/usr/bin:/bin"),
    )
    e.update(extra or {})
    return e


def read(p, mode="rb"):
    with open(p, mode) as f:
        return f.read()


def write(p, data):
    if isinstance(data, str):
        data = data.encode()
    if os.path.isfile(p) and read(p) == data:
        return
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as f:
        f.write(data)


def mirror(src, dst, edit=None):
    """Makes dst a copy of src, touching only files whose content differs."""
    want = set()
    for d, _, files in os.walk(src):
        for f in files:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, src)
            data = read(p)
            if edit:
                data = edit(rel, data)
                if data is None:
                    continue
            want.add(rel)
            write(os.path.join(dst, rel), data)
    for d, _, files in os.walk(dst):
        for f in files:
            if os.path.relpath(os.path.join(d, f), dst) not in want:
                os.remove(os.path.join(d, f))


def toml(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {toml(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(toml(x) for x in v) + "]"
    return json.dumps(v)


def dump(tables):
    out = ""
    for name, t in tables.items():
        out += f"[{name}]\n" + "".join(f"{json.dumps(k)} = {toml(v)}\n" for k, v in t.items()) + "\n"
    return out


def crates():
    return sorted(
        d for d in os.listdir(REPO)
        if d.startswith("bd-") and d not in SKIP and os.path.isfile(f"{REPO}/{d}/Cargo.toml")
    )


def drivers():
    return sorted(d for d in os.listdir(HARNESS) if d.startswith("drv-"))


def dep(name, v, members):
    if name in SHIMMED:
        out = {"path": f"{SHIMS}/{name}"}
        return out
    if name == "flate2":
        # No C zlib here: the pure Rust backend of the same crate.
        return {"version": "1", "default-features": False, "features": ["rust_backend"]}
    if name.startswith("bd-"):
        if name not in members:
            return None
    return v


def manifest(crate, members, wsdeps):
    m = tomllib.loads(read(f"{REPO}/{crate}/Cargo.toml").decode())
    deps = {}
    for k, v in m.get("dependencies", {}).items():
        v = dep(k, v, members)
        if v is not None:
            deps[k] = v
    pkg = {k: v for k, v in m["package"].items() if k not in ("license-file",)}
    pkg.update(build=False, autotests=False, autobenches=False, autoexamples=False, autobins=False)
    feats = {}
    for f, l in m.get("features", {}).items():
        if crate == "bd-grpc-codec" and f.startswith("zlib"):
            feats[f] = []
            continue
        feats[f] = [x for x in l if x.split("/")[0].replace("dep:", "") in deps or x in m.get("features", {})]
    # Modules we append to a crate root (see harness/inject) may need these.
    if os.path.isdir(f"{HARNESS}/inject/{crate}"):
        extra = f"{HARNESS}/inject/{crate}/deps.toml"
        if os.path.exists(extra):
            for k, v in tomllib.loads(read(extra).decode()).items():
                deps.setdefault(k, v)
    t = {"package": pkg, "lib": dict(m.get("lib", {}), doctest=False, test=False), "dependencies": deps}
    if feats:
        t["features"] = feats
    return dump(t)


def source_edit(crate):
    inj = f"{HARNESS}/inject/{crate}"

    def edit(rel, data):
        if rel.endswith((".h", ".proto", ".fbs")):
            return None
        if crate == "bd-proto" and rel.startswith("protos/"):
            parts = rel.split("/")
            if parts[1] in UNUSED_PROTOS:
                return None
            if rel == "protos/mod.rs":
                s = data.decode()
                for u in UNUSED_PROTOS:
                    s = re.sub(rf"^pub mod {u};\n", "", s, flags=re.M)
                return s.encode()
        if rel == "lib.rs" and os.path.isfile(f"{inj}/append.rs"):
            data = data + b"\n" + read(f"{inj}/append.rs")
        if os.path.isfile(f"{inj}/{rel}.append"):
            data = data + b"\n" + read(f"{inj}/{rel}.append")
        return data

    return edit


def vendor():
    """A directory source with every crate version of harness/Cargo.lock."""
    lock = tomllib.loads(read(f"{HARNESS}/Cargo.lock").decode())
    os.makedirs(VENDOR, exist_ok=True)
    for p in lock["package"]:
        if "source" not in p:
            continue
        unpack(p["name"], p["version"])


def unpack(name, version):
    d = os.path.join(VENDOR, f"{name}-{version}")
    if os.path.exists(os.path.join(d, ".cargo-checksum.json")):
        return True
    for c in CACHES:
        f = os.path.join(c, f"{name}-{version}.crate")
        if not os.path.exists(f):
            continue
        shutil.rmtree(d, ignore_errors=True)
        with tarfile.open(f) as t:
            t.extractall(VENDOR)
        # Only what our platform needs is built; other platforms' crates are just resolved.
        sha = hashlib.sha256(read(f)).hexdigest()
        write(os.path.join(d, ".cargo-checksum.json"), json.dumps({"files": {}, "package": sha}))
        return True
    return False


def layout():
    os.makedirs(BUILD, exist_ok=True)
    members = crates()
    root = tomllib.loads(read(f"{REPO}/Cargo.toml").decode())["workspace"]
    wsdeps = {}
    for k, v in root["dependencies"].items():
        if k in SHIMMED:
            v = {"path": f"{SHIMS}/{k}"}
        elif isinstance(v, dict) and "git" in v:
            continue
        wsdeps[k] = v
    drv = drivers()
    write(f"{WS}/Cargo.toml", dump({
        "workspace": {"members": members + drv, "resolver": "2"},
        "workspace.dependencies": wsdeps,
        "profile.dev": {"debug": 1, "opt-level": 0},
        "profile.dev.package.\"*\"": {"debug": False, "opt-level": 1},
        # As released: its assertions (about what configurations the server sends) are not part of the behaviour.
        "profile.dev.package.bd-workflows": {"debug-assertions": False},
    }))
    write(f"{WS}/.cargo/config.toml",
          f'[source.crates-io]\nreplace-with = "vendored"\n\n[source.vendored]\ndirectory = "{VENDOR}"\n')
    for c in members:
        write(f"{WS}/{c}/Cargo.toml", manifest(c, members, wsdeps))
        mirror(f"{REPO}/{c}/src", f"{WS}/{c}/src", source_edit(c))
    for d in drv:
        mirror(f"{HARNESS}/{d}", f"{WS}/{d}")
    lock = read(f"{HARNESS}/Cargo.lock")
    stamp = f"{WS}/Cargo.lock.from"
    if not os.path.exists(f"{WS}/Cargo.lock") or not os.path.exists(stamp) or read(stamp) != lock:
        write(f"{WS}/Cargo.lock", lock)
        write(stamp, lock)
    vendor()


class BuildError(Exception):
    pass


def build(drivers_, extra_env=None, release=False):
    """Builds driver binaries from /repo's current tree and returns {driver: path}."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        layout()
        cmd = ["cargo", "build", "--offline", "--manifest-path", f"{WS}/Cargo.toml"]
        for d in drivers_:
            cmd += ["-p", d]
        r = subprocess.run(cmd, cwd=WS, env=env(extra_env), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-6000:])
    return {d: os.path.join(BUILD, "target", "debug", d) for d in drivers_}


if __name__ == "__main__":
    print(build(sys.argv[1:] or drivers()))
