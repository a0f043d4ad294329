#!/usr/bin/env python3
"""mutants.py [-j N] [-k KIND] [ID..]: applies every small change of mutlist.py to a scratch copy, runs all rules on it and
prints which properties report it.  kind "bug": the expected property has to; kind "same": none may."""
import json, multiprocessing, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("MUTW", "/tmp/mutwork")


def worker(args):
    n, m = args
    d, b = f"{W}/repo{n}", f"{W}/build{n}"
    for f in subprocess.run(["git", "ls-files", "src"], cwd="/repo", capture_output=True, text=True).stdout.split():
        shutil.copyfile(os.path.join("/repo", f), os.path.join(d, f))
    for e in m["edits"]:
        f, old, new = e[:3]
        p = os.path.join(d, f)
        s = open(p).read()
        c = s.count(old)
        k = e[3] if len(e) > 3 else None
        if k is None and c != 1 or k is not None and k >= c:
            return m["id"], "EDIT", f"{f}: {c} occurrences of {old[:80]!r}"
        if k is None:
            s = s.replace(old, new)
        else:
            parts = s.split(old)
            s = old.join(parts[:k + 1]) + new + old.join(parts[k + 1:])
        open(p, "w").write(s)
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD_DIR=b, MUT_ONLY=",".join(m.get("only", ())))
    t = time.time()
    p = subprocess.run([sys.executable, os.path.join(V, "tools", "allrules.py")], env=env, capture_output=True, text=True)
    try:
        r = json.loads(p.stdout.strip().splitlines()[-1])
    except Exception:
        return m["id"], "FAIL", (p.stdout + p.stderr)[-1500:]
    return m["id"], "DONE", (r, round(time.time() - t))


def init(ids):
    global ME
    ME = ids.get()


def job(m):
    return worker((ME, m))


def prepare(j):
    os.makedirs(W, exist_ok=True)
    for n in range(j):
        d, b = f"{W}/repo{n}", f"{W}/build{n}"
        if not os.path.isdir(d):
            os.makedirs(d)
            subprocess.run(f"git -C /repo archive HEAD | tar x -C {d}", shell=True)
        if not os.path.isdir(b):
            src = os.path.join(V, ".build")
            os.makedirs(b)
            for x in os.listdir(src):
                if x == "target" or x.startswith("mirdump-"):
                    subprocess.run(["cp", "-a", os.path.join(src, x), b])


def main():
    sys.path.insert(0, os.path.join(V, "tools"))
    import mutlist
    import samelist  # noqa: F401 (adds to mutlist.M)
    import samelist2  # noqa: F401
    import samelist3  # noqa: F401
    import samelist4  # noqa: F401
    import samelist5, samelist6, samelist7, samelist8, samelist9, samelist10, samelist11, samelist12, samelist13, samelist14, samelist15, samelist16, samelist17, samelist18, samelist19, renames  # noqa: F401
    av = sys.argv[1:]
    j, kind, ids = 8, None, []
    while av:
        a = av.pop(0)
        if a == "-j":
            j = int(av.pop(0))
        elif a == "-k":
            kind = av.pop(0)
        else:
            ids.append(a)
    ms = [m for m in mutlist.M if (not kind or m["kind"] == kind) and
          (not ids or any(m["id"] == i or i.endswith("*") and m["id"].startswith(i[:-1]) for i in ids))]
    j = min(j, len(ms))
    prepare(j)
    q = multiprocessing.Manager().Queue()
    for n in range(j):
        q.put(n)
    by = {m["id"]: m for m in ms}
    good = bad = 0
    with multiprocessing.Pool(j, init, (q,)) as pool:
        for i, st, r in pool.imap_unordered(job, ms):
            m = by[i]
            if st != "DONE":
                bad += 1
                print(f"{i:34} {st} {r if st == 'EDIT' else r[-600:]}", flush=True)
                continue
            res, dt = r
            hit = sorted(res)
            exp = m["expect"]
            ok = any(x in hit for x in exp) if m["kind"] == "bug" else not hit
            good += ok
            bad += not ok
            print(f"{i:34} {'ok  ' if ok else 'MISS' if m['kind'] == 'bug' else 'FALSE'} {dt}s expected {','.join(exp)} reported {','.join(hit)}", flush=True)
            if m["kind"] == "same" and hit:
                for p in hit:
                    for v in res[p][:2]:
                        print("      ", p, v[:330].replace("\n", " / "), flush=True)
    print(good, "as expected,", bad, "not")


if __name__ == "__main__":
    main()
