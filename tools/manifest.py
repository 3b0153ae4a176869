"""Writes MANIFEST.json: a check for every checks/cNN.py, everything else under not_applicable."""
import importlib.util, json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "lib"), os.path.join(V, "checks")]
NA = {}
checks, na = [], []
for line in open(f"{V}/properties.jsonl"):
    p = json.loads(line)["id"]
    f = f"{V}/checks/{p.lower()}.py"
    if not os.path.exists(f):
        na.append({"property": p, "reason": NA.get(p, "not built yet")})
        continue
    src = open(f).read()
    note = src.split('"""')[1].strip().replace("\n", " ") if src.startswith('"""') else ""
    checks.append({
        "property": p,
        "quick_cmd": f"VERIF_TIER=quick python3 checks/run.py {p}",
        "thorough_cmd": f"VERIF_TIER=thorough python3 checks/run.py {p}",
        "evidence_file": f"evidence/{p}.json",
        "technique": "TLA+ specification model-checked with TLC; generated behaviours replayed on the real code and recorded traces validated against the specification",
        "level": "model_checking",
        "level_note": note,
    })
hooks = {"guard": "none", "enable": "no hooks are needed: checks build copies of /repo's crates and use their public items, or modules appended to the copies (harness/inject)", "source_commits": []}
m = {"version": 1, "setup_cmd": "python3 lib/setup.py", "hooks": hooks, "checks": checks, "not_applicable": na,
     "notes": "Specifications in spec/ (TLA+, TLC). See DESIGN.md."}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")
print(len(checks), "checks", len(na), "not claimed")
