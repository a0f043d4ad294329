#!/usr/bin/env python3
"""run.py ID [quick|thorough]: decides property ID for /repo's current source by static analysis."""
import json
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.path.insert(0, os.path.join(VERIF, "rules"))
sys.setrecursionlimit(20000)
import build  # noqa
from common import Ctx, NoAnswer, last  # noqa
import registry  # noqa


def known(pid):
    """constructs recorded as genuine, unrepaired defects: 'known: property=<id> key=<rule> | <construct>'"""
    out = {}
    try:
        for ln in open(os.path.join(VERIF, "known_findings.txt")):
            ln = ln.strip()
            if ln.startswith("known: property=" + pid + " key="):
                out[ln.split(" key=", 1)[1]] = ln
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rules = registry.all_rules().get(pid)
    if not rules:
        print("no check for", pid)
        return 2
    feats = [""] + (["random_leader"] if tier == "thorough" or pid in registry.BOTH else [])
    viols, obs, samples, fns, notes = [], [], [], set(), []
    paths = steps = 0
    digests = []
    for ft in feats:
        try:
            dump, dg = build.ensure_dump(ft)
        except build.BuildError as e:
            print(e)
            return 2
        digests.append(dg + ("+" + ft if ft else ""))
        ctx = Ctx(dump, ft)
        for r in rules:
            try:
                r(ctx)
            except NoAnswer as e:
                ctx.ob("anchor", str(e), False, f"the rule finds nothing to attach to: {e}")
            except Exception as e:  # the analysis cannot discharge the obligations of this tree
                ctx.ob("analysis", f"{type(e).__name__}: {str(e)[:200]}", False,
                       "the analysis does not get through this code, its obligations stay open\n" +
                       traceback.format_exc()[-3000:])
        viols += [dict(v, features=ft) for v in ctx.violations]
        obs += ctx.obs
        samples += ctx.samples
        fns |= ctx.fns
        paths += ctx.paths
        steps += ctx.steps
        notes += ctx.notes
    kn = known(pid)
    new, seen = [], set()
    for v in viols:
        key = v["rule"] + " | " + v["construct"]
        if key in kn:
            if key not in seen:
                print(f"KNOWN-FINDING: property={pid} {key}")
            seen.add(key)
        else:
            new.append(v)
    byrule = {}
    for r, i, okv in obs:
        a = byrule.setdefault(r, [0, 0, set()])
        a[0] += 1
        a[1] += okv
        a[2].add(i)
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "coverage": {
            "explanation": "static analysis of the MIR of /repo's current source: every path of the entry points is "
                           "summarised symbolically (loops by their bodies, calls inlined), and each rule is an "
                           "obligation on every path or call site it speaks about; nothing of /repo is executed",
            "source_digest": digests, "configurations": len(feats),
            "functions_analysed": len(fns), "functions": sorted(last(f) if False else f for f in fns)[:200],
            "paths": paths, "transfer_steps": steps,
            "obligations": len(obs), "discharged": sum(1 for o in obs if o[2]),
            "distinct_obligations": len({(r, i) for r, i, _ in obs}),
            "rules": {r: {"instances": a[0], "discharged": a[1], "distinct_constructs": len(a[2])}
                      for r, a in sorted(byrule.items())},
            "samples": samples[:12], "notes": notes[:20],
        },
        "assumptions": registry.ASSUMPTIONS,
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    with open(os.path.join(evd, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    rp = os.path.join(evd, pid + ".violation.json")
    if os.path.exists(rp):
        os.unlink(rp)
    if not new:
        print(f"{pid}: {len(obs)} obligations on {paths} paths of {len(fns)} functions discharged")
        return 0
    with open(rp, "w") as f:
        json.dump({"property": pid, "source_digest": digests, "violations": new[:50]}, f, indent=1)
    for v in new[:5]:
        print(f"{pid}: {v['rule']}\n  at {v['construct']} [{v['where']}]\n  " +
              v["detail"][:1500].replace("\n", "\n  "))
    if len(new) > 5:
        print(f"... {len(new)} undischarged obligations in all")
    print(f"VIOLATION property={pid} replay={rp}")
    return 1


if __name__ == "__main__":
    sys.exit(main())
