"""runs every rule on VERIF_REPO in one process, prints {property: [violations]} as JSON"""
import json, os, sys, traceback
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "rules")]
sys.setrecursionlimit(20000)
import build
import registry
from common import Ctx, NoAnswer

try:
    dump, _ = build.ensure_dump("")
except build.BuildError as e:
    print(json.dumps({"BUILD": [str(e)[-1500:]]}))
    sys.exit(0)
ctx = Ctx(dump, "")
alt = None
out = {}
only = [x for x in os.environ.get("MUT_ONLY", "").split(",") if x]
for pid, rules in sorted(registry.all_rules().items()):
    if only and pid not in only:
        continue
    cs = [ctx]
    if pid in registry.BOTH:
        if alt is None:
            alt = Ctx(build.ensure_dump("random_leader")[0], "random_leader")
        cs.append(alt)
    for c in cs:
        n = len(c.violations)
        for r in rules:
            try:
                r(c)
            except NoAnswer as e:
                c.ob("anchor", str(e), False, f"NoAnswer {e}")
            except Exception as e:
                c.ob("analysis", f"{type(e).__name__}: {str(e)[:300]}", False, traceback.format_exc()[-1500:])
        vs = c.violations[n:]
        if vs:
            if os.environ.get("MUT_FIRST"):
                print(json.dumps({pid: 1}))
                sys.exit(0)
            out.setdefault(pid, []).extend(f"{v['rule']} | {v['construct']} | {v['where']} | {v['detail'][:700]}" for v in vs[:3])
print(json.dumps(out))
