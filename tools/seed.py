#!/usr/bin/env python3
"""seed.py make [ID..]: writes /verif/seeded/<id>/ from seeds.py;  seed.py check [ID..]: confirms each in a scratch copy
(demo passes clean, fails patched; stable tests pass patched) and says which checks report it."""
import json, os, shutil, subprocess, sys, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import seeds
W = "/tmp/seedwork"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
DEMO = r'''#!/bin/bash
# exit 0: the behaviour is right; nonzero: it is broken.  Runs in a scratch copy of the current directory.
D=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH CARGO_HOME=${CARGO_HOME:-/root/.cargo} CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_TERM_COLOR=never RUSTC_WRAPPER=
T=$(mktemp -d /tmp/seeded-demo.XXXXXX) || exit 3
trap 'rm -rf -- "$T"' EXIT
for f in Cargo.toml Cargo.lock src tests examples rust-toolchain benches; do [ -e "$f" ] && cp -a "$f" "$T/"; done
rm -rf -- "$T/tests"; mkdir -p "$T/target"
[ -d target/debug ] && cp -a target/debug "$T/target/"
cat "$D/demo.rs" >> "$T/@FILE@"
touch "$T"/src/*.rs "$T/@FILE@"
cd "$T" && CARGO_TARGET_DIR="$T/target" timeout 280 cargo test --offline @FEAT@--lib seeded_demo > "$T/log" 2>&1
rc=$?
tail -25 "$T/log"
grep -q "test result: ok. [1-9]" "$T/log" || exit 1
exit $rc
'''


def sh(cmd, cwd=None, env=None, t=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=t)
    return p.returncode, p.stdout


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    t = "/tmp/seedmk"
    shutil.rmtree(t, ignore_errors=True)
    sh(f"git clone -q /repo {t}")
    for f, old, new in s["edits"]:
        p = os.path.join(t, f)
        src = open(p).read()
        assert src.count(old) == 1, (s["id"], f, src.count(old), old)
        open(p, "w").write(src.replace(old, new))
    rc, diff = sh("git diff", cwd=t)
    assert diff.strip()
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    base = sh("git diff -U0 82fcacb HEAD -- src", cwd=t)[1]
    mine = {ln[1:].strip() for ln in base.splitlines() if ln.startswith("+") and len(ln) > 8}
    gone = {ln[1:].strip() for ln in diff.splitlines() if ln.startswith("-") and not ln.startswith("---")}
    if gone & mine:
        print("  warning: touches lines of fix commits:", gone & mine)
    shutil.rmtree(t, ignore_errors=True)
    head = open(os.path.join(V, "tools", "harness", s["harness"])).read() if s.get("harness") else ""
    open(os.path.join(d, "demo.rs"), "w").write(head + s["test"].rstrip() + ("\n}\n" if s.get("harness") else "\n"))
    ft = f"--features {s['feature']} " if s.get("feature") else ""
    open(os.path.join(d, "demo.sh"), "w").write(DEMO.replace("@FILE@", s["file"]).replace("@FEAT@", ft))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)


def check(s, static_only=False):
    W = f"/tmp/seedwork{os.getpid()}"
    d = os.path.join(V, "seeded", s["id"])
    if not os.path.isdir(W):
        sh(f"cp -a /repo {W}")
    sh("git checkout -q -- . && git clean -fdq -e target -e Cargo.lock", cwd=W)
    out = {}
    if not static_only:
        out["demo clean"] = sh(f"{d}/demo.sh", cwd=W)[0]
    rc, o = sh(f"git apply {d}/patch.diff", cwd=W)
    assert rc == 0, o
    if not static_only:
        rc, o = sh(f"{d}/demo.sh", cwd=W)
        out["demo patched"] = rc
        out["how"] = ([ln for ln in o.splitlines() if "panicked" in ln or "error" in ln or "assert" in ln] + [""])[0][:160]
        sh("rm -rf target/debug/.fingerprint/overlord-*", cwd=W)
        env = dict(ENV, CARGO_TARGET_DIR=W + "/target")
        rc, o = sh("cargo nextest run --workspace --offline --no-fail-fast --tool-config-file vp:/opt/vp/nextest.toml "
                   "--profile vp 2>&1", cwd=W, env=env)
        st = {x.split("::", 1)[1] for x in json.load(open("/opt/vp/BASELINE.json"))["stable"]}
        bad = [x for x in st if re.search(r"FAIL.*" + re.escape(x.split("::")[-1]) + r"\b", o)]
        ok = sum(1 for x in st if re.search(r"PASS.*" + re.escape(x.split("::")[-1]) + r"\b", o))
        out["stable"] = f"{ok} pass, fail {bad}" if ok else o[-600:]
    env = dict(os.environ, VERIF_REPO=W, VERIF_BUILD_DIR=W + "b")
    rc, o = sh(f"python3 run.py {s['property']} quick", cwd=V, env=env)
    out["check"] = rc
    out["report"] = o.strip().splitlines()[0][:160] if rc == 1 else ""
    sh("git checkout -q -- .", cwd=W)
    good = rc == 1 and (static_only or out["demo clean"] == 0 and out["demo patched"] != 0)
    print(s["id"], "OK" if good else "LOOK", json.dumps(out)[:900])


def job(a):
    try:
        check(*a)
    except Exception as e:
        print(a[0]["id"], "LOOK", repr(e)[:300])
    sys.stdout.flush()


if __name__ == "__main__":
    cmd, ids = sys.argv[1], sys.argv[2:]
    todo = [s for s in seeds.SEEDS if not ids or s["id"] in ids]
    if cmd == "make":
        for s in todo:
            make(s)
    else:
        import multiprocessing, glob
        with multiprocessing.Pool(min(4, len(todo))) as pool:
            pool.map(job, [(s, cmd == "static") for s in todo], 1)
        for d in glob.glob("/tmp/seedwork*"):
            shutil.rmtree(d, ignore_errors=True)
