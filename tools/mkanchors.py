#!/usr/bin/env python3
"""writes rules/anchors.json: names, argument and return types of the crate's functions and fields of its structs as the rules
know them, so that a renamed function or field is recognised by its place.  Run on the original tree only."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "rules")]
import build
from common import Ctx, last
c = Ctx(build.ensure_dump("")[0])
p = c.prog
fns, params = {}, {}
for short, keys in sorted(p.by_short.items()):
    for k in keys:
        b = p.bodies[k]
        if b.j.get("local", True) and b.kind not in ("closure", "coroutine") and not b.j.get("trait") and len(keys) == 1:
            at = c.argtys(k)
            fns[short] = [at, c.tyname(b.locals[0][0])]
            if at:
                params[short] = [[t, (b.locals[i + 1] + [""])[1]] for i, t in enumerate(at)]
adts = {}
for q, a in sorted(p.adts.items()):
    if a.get("local") and a["k"] == "struct" and "<" not in q and a["v"][0]["f"] and not a["v"][0]["f"][0].isdigit():
        adts[last(q)] = list(zip(a["v"][0]["f"], a["v"][0]["t"]))
enums = {last(q): [(v["n"], v["t"]) for v in a["v"]] for q, a in sorted(p.adts.items())
         if a.get("local") and a["k"] == "enum" and "<" not in q and "::_::" not in q}
with open(os.path.join(V, "rules", "anchors.json"), "w") as o:
    json.dump({"fns": fns, "fields": adts, "variants": enums, "params": params}, o, indent=0, sort_keys=True)
print(len(fns), len(adts))
