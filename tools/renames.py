"""renames of functions, fields and locals that the repository's own tests do not name; imported by mutants.py"""
import collections, glob, os, re
from mutlist import M

R = "/repo/"
FS = sorted(glob.glob(R + "src/**/*.rs", recursive=True))
SRC = {f[len(R):]: open(f).read() for f in FS}
TESTS = "".join(open(f).read() for f in glob.glob(R + "tests/**/*.rs", recursive=True))
TESTS += "".join(s.split("#[cfg(test)]\nmod")[1] for s in SRC.values() if "#[cfg(test)]\nmod" in s)
PUBAPI = {"get_handler", "send_msg", "run", "new", "get_block"}


def add(i, name):
    edits = []
    for f, s in SRC.items():
        n = re.sub(rf"\b{name}\b", name + "_x", s)
        if n != s:
            edits.append((f, s, n))
    M.append({"id": i, "kind": "same", "expect": [], "edits": edits})


defs = collections.Counter()
for f, s in SRC.items():
    for m in re.finditer(r"\bfn (\w+)", s.split("#[cfg(test)]\nmod")[0]):
        defs[m.group(1)] += 1
LIB = SRC["src/lib.rs"]
for name, n in sorted(defs.items()):
    if n == 1 and name not in PUBAPI and not re.search(rf"\bfn {name}\b", LIB) and not re.search(rf"\b{name}\b", TESTS) and \
            name not in ("poll", "poll_next", "is_terminated", "default", "from", "try_from", "rlp_append", "decode", "serialize",
                         "deserialize", "clear", "get_leader", "expecting", "visit_str", "visit_seq", "visit_map", "hash", "flush", "trigger"):
        add("rn_" + name, name)
# fields
for f in ("src/state/process.rs", "src/timer.rs", "src/smr/state_machine.rs", "src/state/collection.rs", "src/utils/auth_manage.rs",
          "src/utils/timer_config.rs"):
    for m in re.finditer(r"\n(?:pub(?:\(crate\))? )?struct (\w+)[^{;(]*\{(.*?)\n\}", SRC[f], re.S):
        for x in re.finditer(r"\n\s*(?:pub(?:\(crate\))? )?(\w+)\s*:", m.group(2)):
            n = x.group(1)
            tot = sum(len(re.findall(rf"\n\s*(?:pub(?:\(crate\))? )?{n}\s*:\s*[A-Z\w(]", s)) for s in SRC.values())
            if not re.search(rf"\b{n}\b", TESTS) and len(n) > 4 and n not in ("height", "round", "proposer", "address", "interval", "state_machine"):
                add(f"rf_{m.group(1)}_{n}", n)
