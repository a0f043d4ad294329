#!/usr/bin/env python3
"""writes /verif/properties.jsonl and /verif/MANIFEST.json from props.py and the registered rules"""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, "docs"), V, os.path.join(V, "rules")]
sys.setrecursionlimit(20000)
import props, registry, notes
have = registry.all_rules()
lines, checks, na = [], [], []


def row(i, title, st, over, text, why, mech, state=(), observe=()):
    files = sorted({f for _, w in mech for f in re.findall(r"src/[\w/]+\.rs", w)})
    return {"id": i, "title": title, "statement": st, "quantifier": {"over": over, "text": text},
            "why_tests_cant": why, "anchors": {
                "files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
                "observe_at": list(observe), "hook_needed": None}}


for i, q in sorted(props.P.items()):
    if i not in have:
        print("not yet:", i)
        continue
    lines.append(row(i, q["title"], q["statement"], q["over"], q["text"], q["why"], q["mech"], q["state"], q["observe"]))
    checks.append({"property": i, "quick_cmd": f"python3 run.py {i} quick", "thorough_cmd": f"python3 run.py {i} thorough",
                   "technique": notes.TECH.get(i, notes.DEFAULT_TECH), "level": "other",
                   "level_note": notes.NOTE.get(i, notes.DEFAULT_NOTE)})
for i, title, st, over, text, why, reason, mech in props.NA:
    lines.append(row(i, title, st, over, text, why, mech))
    na.append({"property": i, "reason": reason})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in lines:
        f.write(json.dumps(x) + "\n")
m = {"version": 1, "setup_cmd": "python3 build.py && python3 build.py random_leader", "checks": checks,
     "not_applicable": na, "notes": notes.NOTES}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
