#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one place (run by hand)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], [], []

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, claim=True, level_note="", reason=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    assert len(title) <= 80, (id, len(title))
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    props.append(d)
    if claim:
        checks.append({"property": id, "quick_cmd": f"python3 check.py --property {id} --tier quick", "thorough_cmd": f"python3 check.py --property {id} --tier thorough",
                       "technique": "deterministic simulation with fault injection", "level": "exploration", "level_note": level_note})
    else:
        na.append({"property": id, "reason": reason})

exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d in props: f.write(json.dumps(d) + "\n")
m = {"version": 1, "setup_cmd": "python3 check.py --setup",
     "hooks": {"guard": "none (no hook is committed to the repository; the simulator instruments a copy of the sources through 'go build -overlay')",
               "enable": "build.sh rewrites the current working tree into an overlay and compiles it with 'go test -c -overlay'", "source_commits": []},
     "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(props), "properties,", len(checks), "checks")
