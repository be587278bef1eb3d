#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks/*.py (TECHNIQUE / NOTE in each)."""
import ast, glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl")) if l.strip()]
na = json.load(open(os.path.join(V, "cfg/not_applicable.json"))) if os.path.exists(os.path.join(V, "cfg/not_applicable.json")) else {}
checks, nal = [], []
for p in props:
    i = p["id"]
    m = [f for f in sorted(glob.glob(os.path.join(V, "checks", "*.py"))) if re.match(i.lower() + r"(_.*)?\.py$", os.path.basename(f))]
    if not m:
        nal.append({"property": i, "reason": na.get(i, "no check built yet")})
        continue
    consts = {}
    for n in ast.parse(open(m[0]).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("TECHNIQUE", "NOTE", "LEVEL"):
            consts[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({"property": i, "quick_cmd": "python3 vf/run.py %s quick" % i,
                   "thorough_cmd": "python3 vf/run.py %s thorough" % i,
                   "evidence_file": "evidence/%s.json" % i,
                   "technique": consts["TECHNIQUE"], "level": consts.get("LEVEL", "exploration"),
                   "level_note": consts["NOTE"]})
json.dump({"version": 1, "setup_cmd": "python3 vf/build.py asan all && python3 vf/build.py tsan lib harnesses",
           "checks": checks, "not_applicable": nal,
           "notes": "No hooks are added to /repo; sanitizer builds are made out of tree by vf/build.py from /repo's working tree."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(nal), "not claimed")
