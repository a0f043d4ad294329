#!/usr/bin/env python3
"""automut.py [-j N] OUT.jsonl [FILE..]: mechanical one-place changes of the source (operators, constants, dropped
statements, exchanged names), each analysed with all rules.  Prints those no rule reports; they are then judged by hand."""
import json, multiprocessing, os, random, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants as MU

FILES = ["src/codec.rs", "src/types.rs", "src/overlord.rs", "src/timer.rs", "src/smr/mod.rs", "src/smr/smr_types.rs",
         "src/smr/state_machine.rs", "src/state/collection.rs", "src/state/parallel.rs", "src/state/process.rs",
         "src/utils/auth_manage.rs", "src/utils/rand_proposer.rs", "src/utils/timer_config.rs", "src/wal/wal_type.rs"]

SUBS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
        (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" \+ 1\b", ""),
        (r" - 1\b", ""), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
        (r"VoteType::Prevote\b", "VoteType::Precommit"), (r"VoteType::Precommit\b", "VoteType::Prevote"),
        (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_ok\(\)", ".is_err()"),
        (r"\.is_err\(\)", ".is_ok()"), (r"\.is_empty\(\)", ".len() == 1"), (r"\.iter\(\)", ".iter().skip(1)"),
        (r"\.iter\(\)", ".iter().rev()"), (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.any\(", ".all("),
        (r"self\.height\b", "self.round"), (r"self\.round\b", "self.height"), (r"\bheight,", "height: round,"),
        (r"\.height\b", ".round"), (r"\.round\b", ".height"), (r"\bINIT_ROUND\b", "1"), (r"\bINIT_HEIGHT\b", "1"),
        (r"Step::Propose\b", "Step::Prevote"), (r"Step::Prevote\b", "Step::Precommit"), (r"Step::Precommit\b", "Step::Brake"),
        (r"Step::Brake\b", "Step::Commit"), (r"Step::Commit\b", "Step::Brake"),
        (r"TriggerType::PrevoteQC\b", "TriggerType::PrecommitQC"), (r"TriggerType::PrecommitQC\b", "TriggerType::PrevoteQC"),
        (r"FromWhere::PrevoteQC", "FromWhere::PrecommitQC"), (r"FromWhere::PrecommitQC", "FromWhere::PrevoteQC"),
        (r"FromWhere::PrecommitQC", "FromWhere::ChokeQC"), (r"FromWhere::ChokeQC", "FromWhere::PrecommitQC"),
        (r"TriggerSource::State\b", "TriggerSource::Timer"), (r"TriggerSource::Timer\b", "TriggerSource::State"),
        (r"Some\(lock\.round\)", "None"), (r"\block_round\b", "None"), (r"\bpolc\b", "None"),
        (r"propose_weight", "vote_weight"), (r"vote_weight\b", "propose_weight"), (r"prevote_", "precommit_"),
        (r"\.prevote\b", ".precommit"), (r"\.precommit\b", ".prevote"), (r"_interval\b", "_xinterval"),
        (r"block_hash\.clone\(\)", "Hash::new()"), (r"hash\.clone\(\)", "Hash::new()"), (r"\.clear\(\)", ".len()"),
        (r"\.sort\(\)", ".reverse()"), (r"\.insert\(", ".contains("), (r"\.cloned\(\)", ".cloned().filter(|_| false)"),
        (r"\.ok_or_else\(", ".or_else(|| None).ok_or_else("), (r"\bOrdering::Less\b", "Ordering::Greater"),
        (r"\bOrdering::Greater\b", "Ordering::Less"), (r"\bOrdering::Equal\b", "Ordering::Less"),
        (r"self\.address\.clone\(\)", "self.leader_address.clone()"), (r"self\.leader_address\b", "self.address"),
        (r"\bself\.is_leader\b", "!self.is_leader"), (r"set_qc\(", "contains_qc("), (r"\?;$", ".ok();"),
        (r"^(\s*)(self\.[\w.]+\(.*\))\?;$", r"\1let _ = \2;"), (r"Poll::Ready\(None\)", "Poll::Pending"),
        (r"Poll::Pending", "Poll::Ready(None)"), (r"\bNone\b(?! =>)", "Some(Default::default())"), (r"Ok\(None\)", "Ok(Some(Default::default()))"),
        (r"\.min\(", ".max("), (r"\.max\(", ".min("), (r"\bu64::max_value\(\)", "0")]


def skipped(lines):
    """lines in tests, log and error texts, attributes, comments"""
    sk = set()
    depth = 0
    for i, l in enumerate(lines):
        s = l.strip()
        if s.startswith("#[cfg(test)]") and any("mod " in x for x in lines[i + 1:i + 3]):
            sk |= set(range(i, len(lines)))
            break
        if depth == 0 and re.match(r"(log::\w+!|let metric|common_apm)", s):
            depth = 0
            j = i
            while True:
                depth += lines[j].count("(") - lines[j].count(")")
                sk.add(j)
                if depth <= 0:
                    break
                j += 1
            depth = 0
        if s.startswith(("//", "#[", "use ", "pub use", "#!", "pub mod", "mod ")):
            sk.add(i)
    return sk


def mask(l):
    """positions inside string literals and comments"""
    out, ins = set(), False
    for i, c in enumerate(l):
        if c == '"' and (i == 0 or l[i - 1] != "\\"):
            ins = not ins
            out.add(i)
        elif ins:
            out.add(i)
        elif l.startswith("//", i):
            out |= set(range(i, len(l)))
            break
    return out


def gen(f):
    src = open("/repo/" + f).read()
    lines = src.split("\n")
    sk = skipped(lines)
    seen = set()
    for i, l in enumerate(lines):
        if i in sk or not l.strip():
            continue
        m = mask(l)
        for pat, rep in SUBS:
            for x in re.finditer(pat, l):
                if x.start() in m:
                    continue
                n = l[:x.start()] + x.expand(rep) + l[x.end():]
                if (i, n) in seen or n == l:
                    continue
                seen.add((i, n))
                yield i, i + 1, [n]
        s = l.strip()
        x = re.match(r"^(\s*(?:\} else )?if )(?!let )(.*)( \{)$", l)
        if x and x.group(2).count("(") == x.group(2).count(")"):
            yield i, i + 1, [f"{x.group(1)}!({x.group(2)}){x.group(3)}"]
            yield i, i + 1, [f"{x.group(1)}({x.group(2)}) && false{x.group(3)}"]
        prev = next((lines[j].strip() for j in range(i - 1, -1, -1) if lines[j].strip() and not lines[j].strip().startswith("//")), "")
        if (prev.endswith(("{", "}", ";"))) and not re.match(r"(let |use |\}|else|match |for |loop|while |if |pub |fn |const |impl|type |struct |enum |async fn|#)", s) \
                and not s.endswith("{") or s.startswith("return "):
            # a whole statement
            d, j = 0, i
            while j < len(lines):
                d += lines[j].count("(") + lines[j].count("{") - lines[j].count(")") - lines[j].count("}")
                if d < 0:
                    j = None
                    break
                if d == 0 and lines[j].rstrip().endswith(";"):
                    break
                j += 1
            if j is not None and j < min(len(lines), i + 25):
                yield i, j + 1, []


def main():
    av = sys.argv[1:]
    j = 8
    if av[0] == "-j":
        j = int(av[1])
        av = av[2:]
    out, files = av[0], av[1:] or FILES
    done = set()
    if os.path.exists(out):
        done = {json.loads(x)["id"] for x in open(out)}
    ms = []
    for f in files:
        lines = open("/repo/" + f).read().split("\n")
        cnt = {}
        for a, b, new in gen(f):
            k = cnt[a] = cnt.get(a, 0) + 1
            i = f"{f}:{a + 1}#{k}"
            if i in done:
                continue
            # unique context: the whole file
            old = "\n".join(lines)
            ms.append({"id": i, "edits": [(f, old, "\n".join(lines[:a] + new + lines[b:]))],
                       "show": ["\n".join(lines[a:b]), "\n".join(new)]})
    print(len(ms), "changes", flush=True)
    MU.prepare(j)
    q = multiprocessing.Manager().Queue()
    for n in range(j):
        q.put(n)
    random.Random(1).shuffle(ms)
    by = {m["id"]: m for m in ms}
    with multiprocessing.Pool(j, MU.init, (q,)) as pool, open(out, "a") as o:
        for i, st, r in pool.imap_unordered(MU.job, ms):
            res = sorted(r[0]) if st == "DONE" else [st]
            o.write(json.dumps({"id": i, "res": res, "show": by[i]["show"]}) + "\n")
            o.flush()


if __name__ == "__main__":
    main()
