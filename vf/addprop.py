#!/usr/bin/env python3
"""stdin: blocks 'ID | title', then lines  s: statement  q: over,over ; text  t: why tests cannot  f: files  m: name @ where  o: observe at"""
import json, os, sys
P = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
props = {}
for l in open(P):
    if l.strip():
        p = json.loads(l)
        props[p["id"]] = p
cur = None
for l in sys.stdin:
    l = l.strip()
    if not l:
        continue
    if " | " in l and l[1:3].isdigit() and l[0].isupper():
        i, t = l.split(" | ", 1)
        assert len(t) <= 80, (len(t), t)
        cur = props[i] = {"id": i, "title": t, "statement": "", "quantifier": {}, "why_tests_cant": "",
                          "anchors": {"files": [], "mechanism": [], "observe_at": [], "hook_needed": None}}
        continue
    k, v = l.split(": ", 1)
    if k == "s":
        cur["statement"] = v
    elif k == "q":
        o, t = v.split(" ; ", 1)
        cur["quantifier"] = {"over": o.split(","), "text": t}
    elif k == "t":
        cur["why_tests_cant"] = v
    elif k == "f":
        cur["anchors"]["files"] = v.split()
        for f in v.split():
            assert os.path.exists("/repo/" + f), f
    elif k == "m":
        n, w = v.split(" @ ")
        cur["anchors"]["mechanism"].append({"name": n, "where": w})
    elif k == "o":
        cur["anchors"]["observe_at"] = [x.strip() for x in v.split(";")]
    else:
        raise SystemExit("bad line " + l)
with open(P, "w") as f:
    for i in sorted(props):
        f.write(json.dumps(props[i], ensure_ascii=False) + "\n")
print(len(props), "properties")
