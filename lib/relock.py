"""Developer tool: rebuilds harness/Cargo.lock from /repo's lock and what the caches hold."""
import os, re, subprocess, ws, glob, sys
extra = sys.argv[1:]
text = ws.read(f"{ws.REPO}/Cargo.lock").decode()
head, *pk = text.split("[[package]]\n")
keep = []
for p in pk:
    n = re.search(r'name = "(.*)"', p).group(1); v = re.search(r'version = "(.*)"', p).group(1)
    if 'source = "git' in p or 'source' not in p: continue
    if any(os.path.exists(f"{c}/{n}-{v}.crate") for c in ws.CACHES): keep.append(p)
    else: print("missing", n, v)
ws.write(f"{ws.HARNESS}/Cargo.lock", head + "".join("[[package]]\n" + p for p in keep))
ws.layout()
for e in extra:
    n, v = e.rsplit("-", 1); assert ws.unpack(n, v), e
r = subprocess.run(["cargo", "generate-lockfile" if False else "metadata", "--offline", "--format-version", "1", "--manifest-path", ws.WS + "/Cargo.toml"], env=ws.env(), cwd=ws.WS, capture_output=True, text=True)
print(r.returncode, r.stderr[-3000:])
if r.returncode == 0:
    ws.write(f"{ws.HARNESS}/Cargo.lock", ws.read(f"{ws.WS}/Cargo.lock"))
