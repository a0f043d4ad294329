"""Shared machinery of the rules: anchors, roots, obligations, evidence."""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine"))
from terms import *  # noqa
import interp as I  # noqa
from interp import Interp, Program, St, Ev, last  # noqa
from facts import Facts  # noqa


class NoAnswer(Exception):
    """the analysed code has no construct the rule can be attached to"""


# canonical name -> (owner type, [argument types], return type) used when a private function was renamed
SIGS = {
    "VoteCollector::insert_vote": (["Context", "Bytes", "SignedVote", "Bytes"], "()"),
    "VoteCollector::set_qc": (["AggregatedVote"], "()"),
    "VoteCollector::get_vote_map": (["u64", "u64", "VoteType"], "Result"),
    "VoteCollector::get_votes": (["u64", "u64", "VoteType", "Bytes"], "Result"),
    "VoteCollector::get_qc_by_id": (["u64", "u64", "VoteType"], "Result"),
    "VoteCollector::get_qc_by_hash": (["u64", "Bytes", "VoteType"], "Option"),
    "VoteCollector::get_height_votes": (["u64"], "Option"),
    "VoteCollector::vote_count": (["u64", "u64", "VoteType"], "usize"),
    "VoteCollector::flush": (["u64"], "()"),
    "ProposalCollector::insert": (["Context", "u64", "u64", "SignedProposal"], "Result"),
    "ProposalCollector::get": (["u64", "u64"], "Result"),
    "ProposalCollector::get_height_proposals": (["u64"], "Option"),
    "ProposalCollector::flush": (["u64"], "()"),
    "ChokeCollector::insert": (["u64", "SignedChoke"], "()"),
    "ChokeCollector::set_qc": (["u64", "AggregatedChoke"], "()"),
    "ChokeCollector::get_qc": (["u64"], "Option"),
    "ChokeCollector::get_chokes": (["u64"], "Option"),
    "ChokeCollector::max_round_above_threshold": (["usize"], "Option"),
    "ChokeCollector::print_round_choke_log": (["u64"], "()"),
    "ChokeCollector::clear": ([], "()"),
    "AuthorityManage::update": (["[Node]"], "()"),
    "AuthorityManage::get_vote_weight": (["Bytes"], "Result"),
    "AuthorityManage::get_proposer": (["u64", "u64"], "Result"),
    "AuthorityManage::is_above_threshold": (["[u8]"], "Result"),
    "AuthorityManage::get_voters": (["[u8]"], "Result"),
    "AuthorityManage::contains": (["Bytes"], "bool"),
    "AuthorityManage::get_vote_weight_sum": ([], "u64"),
    "AuthorityManage::len": ([], "usize"),
    "AuthorityManage::get_address_ref": ([], "Vec"),
    "State::run": (["UnboundedReceiver", "Event", "UnboundedReceiver", "UnboundedReceiver"], None),
    "State::handle_msg": (["Context", "OverlordMsg"], None),
    "State::handle_event": (["Option"], None),
    "State::handle_resp": (["Option"], "Result"),
    "State::start_with_wal": ([], None),
    "State::view_change_reason": (["u64", "FromWhere"], "ViewChangeReason"),
    "parallel_verify": (["Context", "OverlordMsg", "Arc", "AuthorityManage", "UnboundedSender"], None),
}
# names, types and fields of the tree the rules were written for (tools/mkanchors.py)
ANCHORS = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "anchors.json")))
# parameters that another parameter also holds: (holder, fields)
DERIVED = {
    ("VoteCollector::insert_vote", "hash"): ("vote", (("SignedVote", "vote"), ("Vote", "block_hash"))),
    ("VoteCollector::insert_vote", "addr"): ("vote", (("SignedVote", "voter"),)),
    ("ProposalCollector::insert", "height"): ("proposal", (("SignedProposal", "proposal"), ("Proposal", "height"))),
    ("ProposalCollector::insert", "round"): ("proposal", (("SignedProposal", "proposal"), ("Proposal", "round"))),
    ("ChokeCollector::insert", "round"): ("signed_choke", (("SignedChoke", "choke"), ("Choke", "round"))),
    ("ChokeCollector::set_qc", "round"): ("qc", (("AggregatedChoke", "round"),)),
}
READERS = {
    "VoteCollector::get_vote_map", "VoteCollector::get_votes", "VoteCollector::get_qc_by_id",
    "VoteCollector::get_qc_by_hash", "VoteCollector::vote_count", "ProposalCollector::get", "ChokeCollector::get_qc",
    "ChokeCollector::get_chokes", "ChokeCollector::max_round_above_threshold",
    "AuthorityManage::get_vote_weight", "AuthorityManage::get_proposer", "AuthorityManage::is_above_threshold",
    "AuthorityManage::get_voters", "AuthorityManage::contains", "AuthorityManage::get_vote_weight_sum",
    "AuthorityManage::len", "AuthorityManage::get_address_ref",
}
# queries a tree may do without
OPTIONAL = {"AuthorityManage::get_address_ref", "AuthorityManage::get_vote_weight_sum", "AuthorityManage::len", "VoteCollector::vote_count",
            "AuthorityManage::contains", "VoteCollector::get_qc_by_hash"}
WRITERS = {
    "VoteCollector::insert_vote", "VoteCollector::set_qc", "VoteCollector::get_height_votes", "VoteCollector::flush",
    "ProposalCollector::insert", "ProposalCollector::get_height_proposals", "ProposalCollector::flush",
    "ChokeCollector::insert", "ChokeCollector::set_qc", "ChokeCollector::clear", "AuthorityManage::update",
}


def reader(short):
    """a query on a collector: no effect, result = f(collector value, arguments)"""
    def h(eng, f, args, st, site, rty):
        return [(st, mk("call", short, *[deepread(eng, st, a) for a in args]))]
    return h


def deepread(eng, st, a):
    return eng.deep(st, a)


def send_ok(eng, f, args, st, site, rty):
    """internal channels stay open while the instance runs (assumption): a send succeeds"""
    vals = [eng.deep(st, a) for a in args]
    st.emit(Ev("UnboundedSender::unbounded_send", tuple(vals), ok(I.UNIT), st.facts, site, eng.selfv(st), None, st.chain))
    return [(st, ok(I.UNIT))]


def quiet(short):
    def h(eng, f, args, st, site, rty):
        return [(st, I.NOISE)]
    return h


class Ctx:
    def __init__(self, path, features=""):
        self.prog = Program(path, ANCHORS)
        self.path = path
        self.obs = []          # (rule, instance, ok, detail)
        self.violations = []
        self.paths = 0
        self.fns = set()
        self.steps = 0
        self.samples = []
        self.notes = []
        self.cache = {}
        self.resolve()

    # ---------------------------------------------------------------- anchors
    def argtys(self, key):
        b = self.prog.bodies[key]
        return [self.tyname(b.locals[i + 1][0]) for i in range(b.argc)]

    def tyname(self, t):
        n = 0
        while n < 5:
            ty = self.prog.types.get(t)
            if ty and ty["k"] in ("ref", "ptr"):
                t = ty["a"][0]
                n += 1
            else:
                break
        if t.startswith("&"):
            t = t.lstrip("&").replace("mut ", "")
        ty = self.prog.types.get(t)
        if ty and ty["k"] == "adt":
            return last(ty["p"])
        if t.startswith("["):
            return "[" + self.tyname(t.strip("[]")) + "]"
        return I.strip_generics(t).split("::")[-1]

    def resolve(self):
        p = self.prog
        taken = {k for s in ANCHORS["fns"] for k in p.by_short.get(s, [])}
        for s, (ats, ret) in SIGS.items():
            if p.by_short.get(s):
                continue
            owner = s.rsplit("::", 1)[0] if "::" in s else None
            cands = []
            for short, keys in list(p.by_short.items()):
                for k in keys:
                    if k in taken:
                        continue
                    b = p.bodies[k]
                    if b.kind in ("closure", "coroutine") or b.j.get("trait"):
                        continue
                    if owner and ("self" not in b.j or p.adt_last(b.j["self"]) != owner):
                        continue
                    if not owner and "self" in b.j:
                        continue
                    at = self.argtys(k)
                    if owner:
                        at = at[1:]
                    if at != ats:
                        continue
                    if ret is not None and self.tyname(b.locals[0][0]) != ret:
                        continue
                    cands.append((short, k))
            if len(cands) == 1:
                short, k = cands[0]
                p.alias(short, s, k)
                taken.add(k)
        self.adapt()

    def adapt(self):
        """parameters of a function put in another order, dropped because another one holds them, or added: the rules go on
        speaking of the original list (Program.adapt: canonical position -> actual position or field of another argument)"""
        p = self.prog
        for short, want in ANCHORS["params"].items():
            ks = p.by_short.get(short, [])
            if len(ks) != 1:
                continue
            b = p.bodies[ks[0]]
            ret = self.tyname(b.locals[0][0])
            if ANCHORS["fns"][short][1] == "Option" and ret not in ("Option", "Result"):
                p.unwrapped.add(ks[0].split("[")[0])
            have = [(t, (b.locals[i + 1] + [""])[1]) for i, t in enumerate(self.argtys(ks[0]))]
            want = [tuple(x) for x in want]
            if [t for t, _ in have] == [t for t, _ in want] and (
                    sorted(n for _, n in have) != sorted(n for _, n in want) or [n for _, n in have] == [n for _, n in want]):
                continue
            free, spec = list(range(len(have))), [None] * len(want)
            for test in (lambda w, x: w == x, lambda w, x: w[1].strip("_") == x[1].strip("_"), lambda w, x: w[0] == x[0]):
                for i, w in enumerate(want):
                    if spec[i] is None:
                        c = [j for j in free if test(w, have[j])]
                        if c:
                            spec[i] = c[0]
                            free.remove(c[0])
            names = [n for _, n in want]
            for i, (t, n) in enumerate(want):
                if spec[i] is None:
                    d = DERIVED.get((short, n))
                    if d and d[0] in names and isinstance(spec[names.index(d[0])], int):
                        spec[i] = (spec[names.index(d[0])], d[1])
            p.adapt[ks[0].split("[")[0]] = (spec, [n for _, n in have])

    def fn(self, short):
        k = self.prog.fn(short)
        if k is None:
            raise NoAnswer(f"function {short} not found")
        return k

    def field(self, adt_short, name):
        for p, a in self.prog.adts.items():
            if last(p) == adt_short and a["k"] == "struct":
                fs = a["v"][0]["f"]
                if name in fs:
                    return fs.index(name), len(fs), p
        raise NoAnswer(f"field {adt_short}.{name} not found")

    def get(self, v, adt, name):
        """value of a struct field of an abstract value"""
        i, n, p = self.field(adt, name)
        if v.op == "agg":
            return v.a[3 + i]
        return self.eng0().field(v, None, i, name, n, p)

    def eng0(self):
        e = self.cache.get("eng0")
        if e is None:
            e = self.cache["eng0"] = Interp(self.prog)
        return e

    def adt(self, short):
        for p in self.prog.adts:
            if last(p) == short and not p.startswith("std"):
                return p
        raise NoAnswer(f"type {short} not found")

    def mkagg(self, short, variant=None, **fields):
        """build an aggregate of a type of the crate, fields by name (positional: _0, _1)"""
        p = self.adt(short)
        a = self.prog.adts[p]
        vi = 0
        if variant is not None:
            names = [v["n"] for v in a["v"]]
            if variant not in names:
                raise NoAnswer(f"variant {short}::{variant} not found")
            vi = names.index(variant)
        v = a["v"][vi]
        vals = []
        for fname in v["f"]:
            key = fname if not fname.isdigit() else "_" + fname
            if key in fields:
                vals.append(fields[key])
            else:
                vals.append(mk("sym", f"{fname}"))
        return agg(p, vi, v["n"], vals)

    def isv(self, t, short, variant=None):
        return t.op == "agg" and last(t.a[0]) == short and (variant is None or t.a[2] == variant)

    def f(self, t, name):
        """field of an aggregate by name"""
        a = self.prog.adts[t.a[0]]
        fs = a["v"][t.a[1]]["f"]
        return t.a[3 + fs.index(name)]

    # ---------------------------------------------------------------- running
    def engine(self, atoms=(), hooks=None, budget=1500000):
        hk = {"UnboundedSender::unbounded_send": send_ok, "State::view_change_reason": reader("State::view_change_reason")}
        for a in atoms:
            if a in READERS:
                hk[a] = reader(a)
        hk.update(hooks or {})
        at = set(atoms) | {"State::view_change_reason"}
        return Interp(self.prog, at, hk, budget)

    def done(self, eng, outs):
        self.steps += eng.steps
        self.paths += len(outs)
        for k in eng.fn_seen:
            self.fns.add(self.prog.bodies[k].path)

    # ---------------------------------------------------------------- obligations
    def ob(self, rule, inst, okv, detail="", where=""):
        self.obs.append((rule, inst, bool(okv)))
        if okv:
            if len(self.samples) < 12 and not any(s["rule"] == rule for s in self.samples):
                self.samples.append({"rule": rule, "instance": inst, "verdict": "holds"})
        else:
            self.violations.append({"rule": rule, "construct": inst, "where": where, "detail": detail[:6000]})
        return bool(okv)

    def floor(self, rule, n, lo):
        """a rule that no longer finds the constructs it speaks about is not satisfied by silence"""
        self.ob("presence: " + rule, f"{rule}: {n} instances (at least {lo})", n >= lo,
                f"expected at least {lo} instance(s) of `{rule}` in the analysed code, found {n}")


def where(ev):
    ch = " > ".join(f"{last(p)}" for p, _ in (ev.chain or ()))
    return f"{ev.site} in {ch}"


def pathdesc(facts):
    s = facts.show()
    return s if len(s) < 3000 else s[:3000] + "…"
