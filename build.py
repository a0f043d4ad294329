"""Builds the MIR dumper and dumps the MIR of /repo's current working tree (content-hash keyed)."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SKIP = {"target", ".git", "node_modules"}


class BuildError(Exception):
    pass


def build_dir():
    d = os.environ.get("VERIF_BUILD_DIR") or os.path.join(VERIF, ".build")
    try:
        os.makedirs(d, exist_ok=True)
        t = os.path.join(d, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
        return d
    except OSError:
        d = os.path.join(tempfile.gettempdir(), "verif-build-%d" % os.getuid())
        os.makedirs(d, exist_ok=True)
        return d


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def digest(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\1")
    return h.hexdigest()[:20]


def repo_files():
    out = []
    for d, ds, fs in os.walk(REPO):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in sorted(fs):
            p = os.path.join(d, f)
            if os.path.isfile(p) and (f.endswith((".rs", ".toml")) or f == "README.md" or "/src/" in p + "/"):
                out.append(p)
    return out


def sysroot():
    rc, o = sh(["rustc", "+nightly", "--print", "sysroot"])
    if rc:
        raise BuildError("no nightly toolchain: " + o)
    return o.strip()


def ensure_driver(bd):
    src = os.path.join(VERIF, "driver", "main.rs")
    out = os.path.join(bd, "mirdump-" + digest([src]))
    if not os.path.exists(out):
        tmp = out + ".tmp%d" % os.getpid()
        rc, o = sh(["rustc", "+nightly", "--edition", "2021", src, "-o", tmp])
        if rc:
            raise BuildError("cannot build the MIR dumper:\n" + o[-3000:])
        os.rename(tmp, out)
    return out


def ensure_dump(features=""):
    """returns (path of the MIR json, digest of the analysed source)"""
    bd = build_dir()
    with open(os.path.join(bd, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        drv = ensure_driver(bd)
        files = repo_files()
        dg = digest(files + [os.path.join(VERIF, "driver", "main.rs")])
        out = os.path.join(bd, "mir-%s%s.json" % (dg, "-" + features if features else ""))
        if os.path.exists(out):
            return out, dg
        scr = os.path.join(bd, "scratch")
        if os.path.isdir(scr):
            shutil.rmtree(scr)
        for f in files:
            r = os.path.relpath(f, REPO)
            if r.startswith(("Cargo.lock",)):
                continue
            t = os.path.join(scr, r)
            os.makedirs(os.path.dirname(t), exist_ok=True)
            shutil.copyfile(f, t)
        shutil.copyfile(os.path.join(VERIF, "Cargo.lock.pinned"), os.path.join(scr, "Cargo.lock"))
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS", "RUSTC"):
            env.pop(k, None)
        env.update(LD_LIBRARY_PATH=os.path.join(sysroot(), "lib"), MIRDUMP_OUT=out + ".tmp",
                   RUSTC_WORKSPACE_WRAPPER=drv, CARGO_TARGET_DIR=os.path.join(bd, "target"), CARGO_TERM_COLOR="never")
        # the dump is a side effect of compilation: force the crate itself to be re-checked
        cmd = ["cargo", "+nightly", "check", "--lib", "--offline"]
        if features:
            cmd += ["--features", features]
        sh(["cargo", "+nightly", "clean", "--offline", "-p", "overlord"], env, scr)
        rc, o = sh(cmd, env, scr)
        if rc or not os.path.exists(out + ".tmp"):
            raise BuildError("/repo does not build:\n" + o[-4000:])
        os.rename(out + ".tmp", out)
        olds = sorted((os.path.join(bd, f) for f in os.listdir(bd) if f.startswith("mir-") and f.endswith(".json")),
                      key=os.path.getmtime)
        for f in olds[:-6]:
            os.unlink(f)
        shutil.rmtree(scr, ignore_errors=True)
        return out, dg


if __name__ == "__main__":
    try:
        print(*ensure_dump(*sys.argv[1:2]))
    except BuildError as e:
        print(e)
        sys.exit(2)
