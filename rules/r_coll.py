"""Rules about the collectors (votes, certificates, proposals, chokes), stated over their operations only:
what a query answers after an update, for every prior content, and that all other answers are unchanged."""
from lib import *

PV, PC = "Prevote", "Precommit"


class World:
    """the possible states of a collector after a sequence of operations"""

    def __init__(self, ctx, owner, empty=False):
        self.ctx, self.owner = ctx, owner
        self.eng = ctx.engine(())
        self.eng.split_keys = True
        st = St()
        if empty:
            outs = self.eng.root(ctx.fn(owner + "::new"), [], st)
            self.sts = []
            for s, r in outs:
                s.env[("H", "self")] = self.eng.deep(s, r)
                self.sts.append(s)
        else:
            st.env[("H", "self")] = S
            self.sts = [st]

    def fork(self):
        w = object.__new__(World)
        w.ctx, w.owner, w.eng = self.ctx, self.owner, self.eng
        w.sts = [s.copy() for s in self.sts]
        return w

    def assume(self, *lits):
        w = self.fork()
        out = []
        for s in w.sts:
            f = s.facts
            for t, v in lits:
                f = f.assume(t, v) if f is not None else None
            if f is not None:
                s.facts = f
                out.append(s)
        w.sts = out
        return w

    def do(self, op, *args):
        w = self.fork()
        out = []
        for s in w.sts:
            for s2, r in w.eng.root(w.ctx.fn(f"{self.owner}::{op}"), [SELF] + list(args), s):
                out.append(s2)
        w.sts = out
        return w

    def ask(self, op, *args):
        """[(state, deep answer)] of a query"""
        out = []
        for s in self.sts:
            out += ask(self, s, op, args)
        return out

    def value(self, s):
        return s.env[("H", "self")]


def ask(w, s, op, args, val=None):
    s = s.copy()
    if val is not None:
        s.env[("H", "self")] = val
    key = w.ctx.fn(f"{w.owner}::{op}")
    return [(s2, w.eng.deep(s2, r)) for s2, r in w.eng.root(key, [SELF] + list(args), s)]


def negative(f, t):
    if t.op == "agg" and t.a[2] in ("Err", "None"):
        return True
    return False


def unchanged(w, before, op, *args):
    """every answer of the query in w equals the answer it had for content `before` -> None or a counter-path"""
    for s in w.sts:
        for s2, r in ask(w, s, op, args):
            for s3, r0 in ask(w, s2, op, args, before):
                if negative(s3.facts, r) and negative(s3.facts, r0):
                    continue
                if r is r0 or s3.facts.same(r, r0):
                    continue
                return f"{op}: {show(r)[:500]} instead of {show(r0)[:500]}\n path: {pathdesc(s3.facts)}"
    return None


def collector_done(ctx, w):
    ctx.done(w.eng, [1] * len(w.sts))


def vt(ctx, k):
    return ctx.mkagg("VoteType", k)


class VoteW:
    """symbols of one vote"""

    def __init__(self, ctx, k, n="1", h="h", r="r", a="a", x="x"):
        self.h, self.r, self.k = mk("sym", h), mk("sym", r), k
        self.x, self.a = mk("sym", x), mk("sym", a)
        self.ctx = mk("sym", "ctx" + n)
        self.sv = ctx.mkagg("SignedVote", signature=mk("sym", "sig" + n), voter=self.a,
                            vote=ctx.mkagg("Vote", height=self.h, round=self.r, vote_type=vt(ctx, k),
                                           block_hash=self.x))
        self.args = (self.ctx, self.x, self.sv, self.a)
        self.pos = (self.h, self.r, vt(ctx, k))


def qc_value(ctx, k, n="", h="h", r="r", x="x"):
    return ctx.mkagg("AggregatedVote", height=mk("sym", h), round=mk("sym", r), vote_type=vt(ctx, k),
                     block_hash=mk("sym", x), signature=mk("sym", "qsig" + n), leader=mk("sym", "ql" + n))


W = "state/collection.rs"


def map_value(ctx, s, r):
    """the vote map an answer stands for (no map = empty map)"""
    if negative(s.facts, r):
        return EMPTYC
    return okval(ctx, r)


def members(m, x, facts, eng, st):
    """set stored under x in map m"""
    import models as M
    g = M.mget(eng, st, m, x)
    if g[0] == "some":
        return g[1]
    if g[0] == "none":
        return EMPTYC
    t = g[1]
    if is_none(facts, t):
        return EMPTYC
    return mk("fld", t, 1, 0, "0")


def elements(t):
    """known elements of a set/list built from the empty collection, None when other elements may be in it"""
    out = []
    while t.op == "mut" and t.a[0] in ("sinsert", "push"):
        out.append(t.a[3])
        t = t.a[2]
    return (out[::-1], t)


def c05(ctx):
    ctx.fn("VoteCollector::insert_vote")
    n = 0
    h2, r2, x2 = mk("sym", "h2"), mk("sym", "r2"), mk("sym", "x2")
    for k in (PV, PC):
        ko = PC if k == PV else PV
        v = VoteW(ctx, k)
        any_ = World(ctx, "VoteCollector")
        w = any_.do("insert_vote", *v.args)
        lab = f"vote collector, {k.lower()} vote"
        # effect on the votes of its own position
        for s in w.sts:
            for s2, r in ask(w, s, "get_vote_map", v.pos):
                for s3, r0 in ask(w, s2, "get_vote_map", v.pos, S):
                    n += 1
                    m, m0 = map_value(ctx, s3, r), map_value(ctx, s3, r0)
                    if s3.facts.query(EMPTY(m)) is True and m is not EMPTYC:
                        continue
                    if negative(s3.facts, r) and m0 is not EMPTYC:
                        good = s3.facts.query(EMPTY(m0)) is True
                    elif m is m0 or s3.facts.same(m, m0):
                        good = True
                    else:
                        good = m.op == "mut" and m.a[0] == "insert" and m.a[3] is v.x and \
                            (m.a[2] is m0 or m0 is EMPTYC)
                        if good:
                            st_ = m.a[4]
                            good = st_.op == "mut" and st_.a[0] == "sinsert" and st_.a[3] is v.a
                            if good:
                                base = st_.a[2]
                                old = members(m.a[2], v.x, s3.facts, w.eng, s3)
                                good = base is old or s3.facts.same(base, old) or base is EMPTYC and old is EMPTYC
                    ctx.ob("a vote adds its voter to the voters of its block, or changes nothing", lab, good,
                           f"votes before: {show(m0)[:400]}\n after: {show(m)[:600]}\n path: {pathdesc(s3.facts)}", W)
        # everything else unchanged
        for nm, ww, q in (
            ("another height", w.assume((EQ(v.h, h2), False)), (h2, v.r, vt(ctx, k))),
            ("another round", w.assume((EQ(v.r, r2), False)), (v.h, r2, vt(ctx, k))),
            ("the other kind", w, (v.h, v.r, vt(ctx, ko))),
        ):
            n += 1
            bad = unchanged(ww, S, "get_vote_map", *q) or unchanged(ww, S, "get_votes", *(q + (x2,)))
            ctx.ob("a vote counts only for its own height, round and kind", f"{lab}, {nm}", bad is None, str(bad), W)
        bad = unchanged(w, S, "get_qc_by_id", h2, r2, vt(ctx, k)) or unchanged(w, S, "get_qc_by_hash", h2, x2, vt(ctx, k)) \
            or unchanged(w, S, "get_qc_by_id", h2, r2, vt(ctx, ko))
        ctx.ob("a vote creates no certificate", lab, bad is None, str(bad), W)
        # one vote per voter and position, whatever happens in between
        va = VoteW(ctx, k, "2", x="x2")
        vb = VoteW(ctx, k, "3", a="b", x="x3", h="h3", r="r3")
        vd = VoteW(ctx, ko, "5", x="x3")
        other = (EQ(v.a, vb.a), False)
        mids = [("at once", w), ("after its own vote of the other kind", w.do("insert_vote", *vd.args))]
        for where_, hh, rr, lits in (("same round", "h", "r", ()),
                                     ("another round", "h", "r3", ((EQ(v.r, vb.r), False),)),
                                     ("another height", "h3", "r3", ((EQ(v.h, vb.h), False),))):
            b1 = VoteW(ctx, k, "3", a="b", x="x3", h=hh, r=rr)
            b2 = VoteW(ctx, ko, "4", a="b", x="x3", h=hh, r=rr)
            w1 = any_.assume(*lits).do("insert_vote", *v.args)
            mids.append((f"after a vote of another member, {where_}", w1.assume(other).do("insert_vote", *b1.args)))
            mids.append((f"after a vote of the other kind of another member, {where_}",
                         w1.assume(other).do("insert_vote", *b2.args)))
            mids.append((f"after a certificate, {where_}", w1.do("set_qc", qc_value(ctx, k, h=hh, r=rr, x="x3"))))
        for nm, mid in mids:
            for s in mid.sts:
                m1 = mid.fork()
                m1.sts = [s.copy()]
                after = m1.do("insert_vote", *va.args)
                before = mid.value(s)
                bad = unchanged(after, before, "get_vote_map", *va.pos) or \
                    unchanged(after, before, "get_votes", *(va.pos + (va.x,))) or \
                    unchanged(after, before, "get_votes", *(va.pos + (v.x,)))
                n += 1
                ctx.ob("a second vote of the same voter, height, round and kind is not counted", f"{lab}, {nm}",
                       bad is None, str(bad), W)
        # from nothing: exactly the votes that arrived are counted, each voter with its own vote
        e = World(ctx, "VoteCollector", empty=True)
        e1 = e.do("insert_vote", *v.args)
        vs = VoteW(ctx, k, "6", a="b", x="x")
        vo = VoteW(ctx, k, "7", a="b", x="x2")
        ab = (EQ(v.a, vs.a), False)
        xx = (EQ(v.x, vo.x), False)
        for nm, ww, expect in (("one vote", e1, {v.x: [v]}),
                               ("two votes for a block", e1.assume(ab).do("insert_vote", *vs.args), {v.x: [v, vs]}),
                               ("two votes for two blocks", e1.assume(ab, xx).do("insert_vote", *vo.args),
                                {v.x: [v], vo.x: [vo]})):
            for s in ww.sts:
                for s2, r in ask(ww, s, "get_vote_map", v.pos):
                    m = map_value(ctx, s2, r)
                    got = {}
                    good = not negative(s2.facts, r)
                    for x, vs_ in expect.items():
                        els, base = elements(members(m, x, s2.facts, ww.eng, s2))
                        good = good and base is EMPTYC and set(els) == {q.a for q in vs_}
                    good = good and len(mapkeys(m)) == len(expect)
                    n += 1
                    ctx.ob("every first vote of a voter is counted, for its block only", f"{lab}, {nm}", good,
                           f"votes counted: {show(m)[:600]}\n path: {pathdesc(s2.facts)}", W)
        # the votes handed out for aggregation are those of the counted voters
        for s in any_.sts:
            for s2, r in ask(any_, s, "get_votes", v.pos + (v.x,)):
                if negative(s2.facts, r):
                    continue
                for s3, r0 in ask(any_, s2, "get_vote_map", v.pos, S):
                    if negative(s3.facts, r0):
                        continue
                    L = okval(ctx, r)
                    setx = members(okval(ctx, r0), v.x, s3.facts, any_.eng, s3)
                    src, el, lits = votes_of(ctx, L)
                    n += 1
                    at = I.AT(src, mk("idx", src))
                    good = src is setx and el is not None and el.op == "get" and el.a[1] is at
                    ctx.ob("the votes handed out for a block are those of all its counted voters", lab, good,
                           f"{show(L)[:600]} for voters {show(setx)[:200]}", W)
                    if good:
                        # the voter's record is the vote it cast
                        for sw in w.assume((NOT(is_recorded(el, at, v.a)), True)).sts:
                            for s4, r4 in ask(w, sw, "get_votes", v.pos + (v.x,)):
                                if negative(s4.facts, r4):
                                    continue
                                rec = record_of(ctx, w.eng, s4, okval(ctx, r4), v.a)
                                good = bool(rec) and all(any(x is v.sv for x in subterms(q)) for q in rec)
                                n += 1
                                ctx.ob("a voter's stored vote is the vote it cast", lab, good,
                                       f"stored: {[show(q)[:300] for q in rec]}\n path: {pathdesc(s4.facts)}", W)
        collector_done(ctx, w)
    qc_laws(ctx)
    call_sites(ctx)
    ctx.floor("vote collector law", n, 30)


def record_of(ctx, eng, st, L, a):
    """what the list of handed out votes holds for voter a: the values of the cases that apply to it"""
    import models as M
    if L.op == "fld":
        L = L.a[0]
    if L.op == "agg" and L.a[2] in ("Some", "Ok"):
        L = L.a[3]
    if L.op != "fold":
        return []
    at = I.AT(L.a[1], mk("idx", L.a[1]))
    out = []
    for c in L.a[3:]:
        lits = [(subst(x.a[0], {at: a}), x.a[1]) for x in c.a[1:] if x.op == "lit"]
        if any(st.facts.query(t) is (not bool(v)) for t, v in lits):
            continue
        e = subst(c.a[0], {at: a})
        if e.op == "agg" and e.a[2] == "None":
            continue
        if e.op == "agg" and e.a[2] == "Some":
            e = e.a[3]
        if e.op == "fld" and e.a[0].op == "get":
            e = e.a[0]
        if e.op == "get":
            g = M.mget(eng, st, e.a[0], e.a[1])
            if g[0] == "none":
                continue
            e = g[1]
        out.append(e)
    return out


def is_recorded(el, at, a):
    """the literal 'voter a has a record', from the record expression of a stored voter"""
    g = subst(el, {at: a})
    return EQ(mk("discr", g, OPTION), INT(1))


def mapkeys(m):
    ks = []
    while m.op == "mut" and m.a[0] == "insert":
        if m.a[3] not in ks:
            ks.append(m.a[3])
        m = m.a[2]
    return ks


def votes_of(ctx, L):
    """(source set, record expression per voter) of a list of votes"""
    if L.op == "fld":
        L = L.a[0]
    if L.op == "agg" and L.a[2] in ("Some", "Ok"):
        L = L.a[3]
    if L.op == "fold" and L.a[0] in ("push", "collect") and L.a[2] is EMPTYC:
        el = None
        for c in L.a[3:]:
            e = c.a[0]
            if e.op == "agg" and e.a[2] == "None":
                continue
            if e.op == "agg" and e.a[2] == "Some":
                e = e.a[3]
            if e.op == "fld" and e.a[0].op == "get":
                e = e.a[0]
            el = e
        return L.a[1], el, None
    return L, None, None


def qc_laws(ctx):
    h2, r2, x2 = mk("sym", "h2"), mk("sym", "r2"), mk("sym", "x2")
    n = 0
    for k in (PV, PC):
        ko = PC if k == PV else PV
        q = qc_value(ctx, k)
        h, r, x = mk("sym", "h"), mk("sym", "r"), mk("sym", "x")
        w = World(ctx, "VoteCollector").do("set_qc", q)
        lab = f"{k.lower()} certificate"
        for op, args, val in (("get_qc_by_id", (h, r, vt(ctx, k)), okval), ("get_qc_by_hash", (h, x, vt(ctx, k)), someval)):
            for s2, a in w.ask(op, *args):
                n += 1
                ctx.ob("a stored certificate is found by its position and by its block", f"{lab}: {op}",
                       not negative(s2.facts, a) and val(ctx, a) is q, f"answer: {show(a)[:300]}", W)
        for nm, ww, args in (("another height", w.assume((EQ(h, h2), False)), (h2, r, vt(ctx, k))),
                             ("another round", w.assume((EQ(r, r2), False)), (h, r2, vt(ctx, k))),
                             ("the other kind", w, (h, r, vt(ctx, ko)))):
            n += 1
            bad = unchanged(ww, S, "get_qc_by_id", *args)
            ctx.ob("a certificate is filed under its own height, round and kind only", f"{lab}, {nm}", bad is None,
                   str(bad), W)
        for nm, ww, args in (("another height", w.assume((EQ(h, h2), False)), (h2, x, vt(ctx, k))),
                             ("another block", w.assume((EQ(x, x2), False)), (h, x2, vt(ctx, k))),
                             ("the other kind", w, (h, x, vt(ctx, ko)))):
            n += 1
            bad = unchanged(ww, S, "get_qc_by_hash", *args)
            ctx.ob("a certificate is filed under its own height, block and kind only", f"{lab}, {nm}", bad is None,
                   str(bad), W)
        for kk in (PV, PC):
            n += 1
            bad = unchanged(w, S, "get_vote_map", h2, r2, vt(ctx, kk)) or \
                unchanged(w, S, "get_votes", h2, r2, vt(ctx, kk), x2)
            ctx.ob("a certificate does not change the votes", f"{lab}, {kk.lower()} votes", bad is None, str(bad), W)
        e = World(ctx, "VoteCollector", empty=True)
        for op, args in (("get_qc_by_id", (h, r, vt(ctx, k))), ("get_qc_by_hash", (h, x, vt(ctx, k))),
                         ("get_vote_map", (h, r, vt(ctx, k))), ("get_votes", (h, r, vt(ctx, k), x))):
            for s2, a in e.ask(op, *args):
                n += 1
                ctx.ob("an empty collector has no votes and certificates", op, negative(s2.facts, a), show(a)[:200], W)
        collector_done(ctx, w)
    ctx.floor("certificate law", n, 20)


def call_sites(ctx):
    """every vote is filed under the block it names and the member that signed it"""
    n = 0
    N = Node(ctx)
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "col" and a.fn == "VoteCollector::insert_vote":
                n += 1
                hsh, sv, who = a.args[1], a.args[2], a.args[3]
                f = a.facts
                good = f.same(hsh, ctx.get(ctx.get(sv, "SignedVote", "vote"), "Vote", "block_hash")) and \
                    f.same(who, ctx.get(sv, "SignedVote", "voter"))
                ctx.ob("a vote is filed under the block it names and the voter it names", inst2(lab, "insert"), good,
                       desc(lab, p, "filed as " + ", ".join(show(x)[:120] for x in a.args), A), where(a.e))
    ctx.floor("vote filed", n, 4)


def inst2(lab, x):
    return f"{lab}: {x}"


# ---------------------------------------------------------------------------------------------- C40
def sp_value(ctx, n=""):
    return mk("sym", "sp" + n)


def c40(ctx):
    ctx.fn("ProposalCollector::insert")
    h, r, h2, r2 = (mk("sym", x) for x in ("h", "r", "h2", "r2"))
    p1, p2 = sp_value(ctx, "1"), sp_value(ctx, "2")
    c1, c2 = mk("sym", "c1"), mk("sym", "c2")
    n = 0
    any_ = World(ctx, "ProposalCollector")
    ins = []
    for s in any_.sts:
        key = ctx.fn("ProposalCollector::insert")
        for s2, ret in any_.eng.root(key, [SELF, c1, h, r, p1], s.copy()):
            ins.append((s2, any_.eng.deep(s2, ret)))
    okn = 0
    for s2, ret in ins:
        w = any_.fork()
        w.sts = [s2]
        # found under its height and round; everything else unchanged
        if is_ok(s2.facts, ret):
            okn += 1
            for s3, a in ask(w, s2, "get", (h, r)):
                n += 1
                good = not negative(s3.facts, a) and any(s3.facts.same(
                    ctx.eng0().field(okval(ctx, a), None, 0, nm_, 2, None), p1) for nm_ in ("0", None))
                ctx.ob("an accepted proposal is the one kept for its round", "proposal collector: insert then get", good,
                       f"kept: {show(a)[:300]}\n path: {pathdesc(s3.facts)}", W)
        else:
            bad = unchanged(w, S, "get", h, r)
            n += 1
            ctx.ob("a refused proposal changes nothing", "proposal collector: refused", bad is None, str(bad), W)
        for nm, ww, q in (("another height", w.assume((EQ(h, h2), False)), (h2, r)),
                          ("another round", w.assume((EQ(r, r2), False)), (h, r2))):
            n += 1
            bad = unchanged(ww, S, "get", *q)
            ctx.ob("a proposal is kept for its own height and round only", f"proposal collector, {nm}", bad is None,
                   str(bad), W)
        # a second, different proposal of the round is refused and the first stays
        if is_ok(s2.facts, ret):
            for mid in [w] + [w.assume(*lits).do("insert", c2, h2, r2, mk("sym", "sp3")) for lits in (
                    ((EQ(h, h2), True), (EQ(r, r2), True)), ((EQ(h, h2), True), (EQ(r, r2), False)),
                    ((EQ(h, h2), False),))]:
                for sm in mid.assume((EQ(p1, p2), False)).sts:
                    before = sm.env[("H", "self")]
                    for s4, ret2 in any_.eng.root(ctx.fn("ProposalCollector::insert"), [SELF, c2, h, r, p2], sm.copy()):
                        n += 1
                        ctx.ob("a second, different proposal of a round is refused", "proposal collector: conflict",
                               is_err(s4.facts, any_.eng.deep(s4, ret2)), f"accepted on {pathdesc(s4.facts)}", W)
                        w4 = any_.fork()
                        w4.sts = [s4]
                        bad = unchanged(w4, before, "get", h, r)
                        ctx.ob("the first proposal of a round stays", "proposal collector: conflict", bad is None,
                               str(bad), W)
    e = World(ctx, "ProposalCollector", empty=True)
    for s2, a in e.ask("get", h, r):
        ctx.ob("an empty collector has no proposal", "proposal collector", negative(s2.facts, a), show(a)[:200], W)
    for s in e.sts:
        for s2, ret in e.eng.root(ctx.fn("ProposalCollector::insert"), [SELF, c1, h, r, p1], s.copy()):
            ctx.ob("the first proposal of a round is accepted", "proposal collector", is_ok(s2.facts, ret), show(ret)[:200], W)
    ctx.floor("accepted proposal", okn, 1)
    collector_done(ctx, any_)
    # at the node: a proposal of the current round acts only after it was accepted as the first of its round
    N = Node(ctx)
    k = 0
    sp = mk("sym", "sp")
    for lab, p, A in paths_of(ctx, "message SignedProposal"):
        for a in A:
            if a.k in ("trigger", "spawned", "spawn"):
                k += 1
                acc = [b for b in A if b.k == "col" and b.fn == "ProposalCollector::insert" and b.i < a.i]
                good = any(is_ok(a.facts, b.res) and any(x is sp or a.facts.same(x, sp) for x in b.args) and
                           a.facts.same(b.args[1], N.height) and a.facts.same(b.args[2], N.round) for b in acc)
                ctx.ob("a proposal is voted on and checked only when it is the first of its round", inst2(lab, a.k),
                       good, desc(lab, p, "a second proposal of the round may be processed", A), where(a.e))
    ctx.floor("proposal processed", k, 2)
    # cached proposals are kept under the position they name
    pr = ctx.get(sp, "SignedProposal", "proposal")
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "col" and a.fn == "ProposalCollector::insert":
                q = ctx.get(a.args[3], "SignedProposal", "proposal")
                good = a.facts.same(a.args[1], ctx.get(q, "Proposal", "height")) and \
                    a.facts.same(a.args[2], ctx.get(q, "Proposal", "round"))
                ctx.ob("a proposal is kept under the height and round it names", inst2(lab, "insert"), good,
                       desc(lab, p, "kept as " + ", ".join(show(x)[:100] for x in a.args[1:3]), A), where(a.e))


# ---------------------------------------------------------------------------------------------- C41
def choke_value(ctx, n="1", r="r", a="a"):
    return ctx.mkagg("SignedChoke", signature=mk("sym", "csig" + n), address=mk("sym", a),
                     choke=ctx.mkagg("Choke", height=mk("sym", "h" + n), round=mk("sym", r), **{"from": mk("sym", "from" + n)}))


def c41(ctx):
    ctx.fn("ChokeCollector::insert")
    r, r2 = mk("sym", "r"), mk("sym", "r2")
    q = ctx.mkagg("AggregatedChoke", height=mk("sym", "qc.height"), round=r, signature=mk("sym", "qc.signature"),
                  voters=mk("sym", "qc.voters"))
    n = 0
    c = choke_value(ctx)
    w = World(ctx, "ChokeCollector").do("insert", r, c)
    ww = w.assume((EQ(r, r2), False))
    bad = unchanged(ww, S, "get_chokes", r2)
    ctx.ob("a choke counts for its own round only", "choke collector", bad is None, str(bad), W)
    bad = unchanged(w, S, "get_qc", r2) or unchanged(w, S, "get_qc", r)
    ctx.ob("a choke creates no certificate", "choke collector", bad is None, str(bad), W)
    # same sender again, same round: number of chokes does not grow
    e = World(ctx, "ChokeCollector", empty=True)
    e1 = e.do("insert", r, c)
    c2 = choke_value(ctx, "2")
    c3 = choke_value(ctx, "3", a="b")
    ab_ = (EQ(mk("sym", "a"), mk("sym", "b")), False)
    c4 = choke_value(ctx, "4", r="r2", a="b")
    seqs = (("one", e1, {c.a[5] if False else "a": (c,)}),
            ("one sender twice", e1.do("insert", r, c2), {"a": (c, c2)}),
            ("two senders", e1.assume(ab_).do("insert", r, c3), {"a": (c,), "b": (c3,)}),
            ("a sender, another, the first again", e1.assume(ab_).do("insert", r, c3).do("insert", r, c2),
             {"a": (c, c2), "b": (c3,)}),
            ("another round in between", e1.assume(ab_, (EQ(r, r2), False)).do("insert", r2, c4).do("insert", r, c2),
             {"a": (c, c2)}))
    for nm, wv, expect in seqs:
        for s in wv.sts:
            for s2, a in ask(wv, s, "get_chokes", (r,)):
                n += 1
                good = is_some(s2.facts, a) or (a.op == "agg" and a.a[2] == "Some")
                got = None
                if good:
                    src, e, lits = bag(someval(ctx, a))
                    got = entries(src)
                    good = not lits and e is not None and got is not None and \
                        {show(k) for k in got} == set(expect) and \
                        all(any(v is x for x in expect[show(k)]) for k, v in got.items()) and \
                        e.op in ("mval", "at")
                ctx.ob("the chokes handed out for a round are one of each of its senders", f"choke collector: {nm}", good,
                       f"handed out {show(a)[:500]}, expected those of {sorted(expect)}\n path: {pathdesc(s2.facts)}", W)
    # threshold for every content
    nn = mk("sym", "n")
    any_ = World(ctx, "ChokeCollector")
    chokes = ctx.get(S, "ChokeCollector", "chokes")
    for s2, a in any_.ask("max_round_above_threshold", nn):
        n += 1
        no = negative(s2.facts, a)
        # the rounds tell apart exactly by the threshold: none is passed over, and without any there is no answer
        exact = any(l.op == "any" and l.a[0] is chokes and v != no and len(l.a) == 2 and len(case_lits(l.a[1])) == 1 and
                    choke_above(*case_lits(l.a[1])[0], nn, mk("mkey", chokes, mk("idx", chokes)))
                    for l, v in s2.facts.literals())
        ctx.ob("no round above the threshold is passed over", "choke collector", exact,
               f"{show(a)[:300]} is answered on {pathdesc(s2.facts)}", W)
        if no:
            continue
        rr = someval(ctx, a)
        good = any(choke_above(l, v, nn, rr) for l, v in s2.facts.literals())
        ctx.ob("a round above the threshold has chokes of more than two thirds of the nodes",
               "choke collector: any content", good, f"{show(a)[:300]}\n path: {pathdesc(s2.facts)}", W)
        if good and rr.op == "mkey":
            ctx.ob("the highest such round is preferred", "choke collector", rr.a[1].op == "idx" and
                   rr.a[1].a[0].op == "rev", f"{show(a)[:300]}: the rounds are not examined from the highest down", W)
    # certificates are filed by round
    wq = any_.do("set_qc", r, q)
    for s2, a in wq.ask("get_qc", r):
        ctx.ob("a choke certificate is found by its round", "choke collector", is_some(s2.facts, a) and
               someval(ctx, a) is q, show(a)[:200], W)
    bad = unchanged(wq.assume((EQ(r, r2), False)), S, "get_qc", r2) or unchanged(wq, S, "get_chokes", r2)
    ctx.ob("a choke certificate is filed under its own round only", "choke collector", bad is None, str(bad), W)
    wc = any_.do("clear")
    for op in ("get_qc", "get_chokes"):
        for s2, a in wc.ask(op, r2):
            ctx.ob("clearing forgets all chokes", "choke collector: " + op, negative(s2.facts, a), show(a)[:200], W)
    # what is counted is what is handed out: one entry of the collector
    for s2, a in any_.ask("max_round_above_threshold", nn):
        if negative(s2.facts, a):
            continue
        rr = someval(ctx, a)
        for l, v in s2.facts.literals():
            if choke_above(l, v, nn, rr):
                cnt = len_of(above(l, v)[0])
                q = mk("sym", "q")
                for s3, b in any_.ask("get_chokes", q):
                    if negative(s3.facts, b):
                        continue
                    src = bag(someval(ctx, b))[0]
                    n += 1
                    ctx.ob("the chokes counted are those handed out", "choke collector",
                           entry_shape(cnt) == entry_shape(src), f"counted {show(cnt)[:200]}, handed out {show(src)[:200]}", W)
    collector_done(ctx, w)
    ctx.floor("choke law", n, 8)


def entries(m):
    """known entries of a map built from the empty one, None when it may hold others"""
    out = {}
    while m.op == "mut" and m.a[0] == "insert":
        out.setdefault(m.a[3], m.a[4])
        m = m.a[2]
    return out if m is EMPTYC else None


def entry_shape(t):
    """(collector field, projection below the entry of the round)"""
    proj = []
    while t.op == "fld" and t.a[0].op != "get" and t.a[0].op not in ("mval", "sym"):
        proj.append(t.a[1:4])
        t = t.a[0]
    if t.op == "fld" and t.a[0].op == "get":
        return (t.a[0].a[0], tuple(proj))
    if t.op == "mval":
        return (base_map(t.a[0]), tuple(proj))
    return (t, tuple(proj))


def base_map(m):
    while m.op in ("rev", "sorted"):
        m = m.a[0]
    return m


def all_values(t):
    """t lists all values of a map keyed by sender (bag view: the map itself)"""
    g, e, lits = bag(t)
    return not lits


def choke_above(l, v, nn, rr):
    ab = above(l, v)
    if not ab:
        return False
    acc, total = ab
    return total is nn and len_of(acc) is not None and (rr is None or round_of(len_of(acc), rr))


def len_of(t):
    return t.a[1] if t.op == "call" and t.a[0] == "len" else None


def round_of(setv, rr):
    """the set of chokes and the round are one entry of the collector"""
    if setv.op == "mval" and rr.op == "mkey":
        return setv.a == rr.a
    if setv.op == "fld" and setv.a[0].op == "get":
        return setv.a[0].a[1] is rr
    return setv.op == rr.op and False


# ---------------------------------------------------------------------------------------------- C23 (what a height hands over)
def evaluate(eng, st, t, env, memo=None):
    """t for the chosen entry of every map that is walked"""
    memo = {} if memo is None else memo
    if not isinstance(t, T):
        return t
    if t in memo:
        return memo[t]
    if t.op in ("mval", "mkey") and t.a[1] in env:
        import models as M
        k = env[t.a[1]]
        if t.op == "mkey":
            r = k
        else:
            g = M.mget(eng, st, evaluate(eng, st, t.a[0], env, memo), k)
            r = g[1] if g[0] == "some" else mk("undef", "absent") if g[0] == "none" else mk("fld", g[1], 1, 0, "0")
    else:
        a = [evaluate(eng, st, x, env, memo) for x in t.a]
        if t.op == "fld":
            r = eng.field(*a)
        elif t.op == "discr" and a[0].op == "agg":
            r = INT(a[0].a[1])
        else:
            r = t if all(x is y for x, y in zip(a, t.a)) else rebuild(t.op, tuple(a))
    memo[t] = r
    return r


def lists(eng, st, t, want, keys, env=None):
    """the list t surely has an element for which want() holds"""
    env = env or {}
    if t.op == "fold" and t.a[0] in ("push", "append"):
        if lists(eng, st, t.a[2], want, keys, env):
            return True
        import models as M
        coll = evaluate(eng, st, t.a[1], env)
        for k in keys:
            if M.mget(eng, st, coll, k)[0] != "some":
                continue
            e2 = dict(env)
            e2[mk("idx", t.a[1])] = k
            cs = [(c.a[0], [(evaluate(eng, st, l, e2), w) for l, w in case_lits(c)]) for c in t.a[3:] if c.op == "case"]
            open_ = []
            for _, ls in cs:
                for l, w in ls:
                    if st.facts.query(l) is None and l not in open_:
                        open_.append(l)
            if len(open_) > 6:
                continue
            # whatever the undecided conditions turn out to be, one way through the body adds the element
            good = True
            for bits in range(1 << len(open_)):
                s2 = st.copy()
                for i, l in enumerate(open_):
                    s2.facts = s2.facts and s2.facts.assume(l, bool(bits >> i & 1))
                if s2.facts is None:
                    continue
                if not any(all(s2.facts.query(l) is w for l, w in ls) and (
                        want(evaluate(eng, s2, v, e2)) if t.a[0] == "push" else lists(eng, s2, v, want, keys, e2))
                        for v, ls in cs):
                    good = False
                    break
            if good and cs:
                return True
        return False
    if t.op in ("concat",):
        return any(lists(eng, st, x, want, keys, env) for x in t.a)
    if t.op == "agg" and t.a[0] == "array":
        return any(want(evaluate(eng, st, x, env)) for x in t.a[3:])
    if t.op == "one":
        return want(evaluate(eng, st, t.a[0], env))
    if t.op == "mut" and t.a[0] == "push":
        return want(evaluate(eng, st, t.a[3], env)) or lists(eng, st, t.a[2], want, keys, env)
    if t.op == "mut" and t.a[0] == "append":
        return lists(eng, st, t.a[2], want, keys, env) or lists(eng, st, t.a[3], want, keys, env)
    if t.op == "seq" or t.op == "case":
        return any(lists(eng, st, x, want, keys, env) for x in t.a if isinstance(x, T))
    return False


def found(ctx, s, val):
    return lambda v: v is val or s.facts.same(v, val) or v.op == "agg" and any(
        isinstance(x, T) and (x is val or s.facts.same(x, val)) for x in v.a[3:])


def c23(ctx):
    n = nv = 0
    keys = [mk("sym", x) for x in ("h", "r", "a", "x")]
    # votes
    for k in (PV, PC):
        v = VoteW(ctx, k)
        w = World(ctx, "VoteCollector")
        w1 = w.assume((EQ(v.h, v.h), True)).do("insert_vote", *v.args)
        for s in w1.sts:
            if w1.value(s) is S:
                continue  # not recorded
            for s2, m in ask(w1, s, "get_votes", (*v.pos, v.x)):
                if negative(s2.facts, m):
                    continue
                rec = record_of(ctx, w1.eng, s2, okval(ctx, m), v.a)
                if not any(any(y is v.sv for y in subterms(x)) for x in rec):
                    continue
                nv += 1
                for s3, r in ask(w1, s2, "get_height_votes", (v.h,)):
                    n += 1
                    good = is_some(s3.facts, r) and lists(w1.eng, s3, w1.eng.field(someval(ctx, r), None, 0, "0"),
                                                          found(ctx, s3, v.sv), keys)
                    ctx.ob("every recorded vote of a height is taken out when the height begins", f"{k} vote", good,
                           f"{show(r)[:1200]}\n path: {pathdesc(s3.facts)}", W)
        q = qc_value(ctx, k)
        w2 = w.do("set_qc", q)
        for s in w2.sts:
            for s3, r in ask(w2, s, "get_height_votes", (v.h,)):
                n += 1
                good = is_some(s3.facts, r) and lists(w2.eng, s3, w2.eng.field(someval(ctx, r), None, 1, "1"),
                                                      found(ctx, s3, q), keys)
                ctx.ob("every certificate of a height is taken out when the height begins", f"{k} certificate", good,
                       f"{show(r)[:1200]}\n path: {pathdesc(s3.facts)}", W)
    h, r = mk("sym", "h"), mk("sym", "r")
    w = World(ctx, "ProposalCollector")
    p1 = sp_value(ctx, "1")
    for s in w.do("insert", mk("sym", "c1"), h, r, p1).sts:
        if s.env[("H", "self")] is S:
            continue
        for s2, g in ask(w, s, "get", (h, r)):
            if negative(s2.facts, g):
                continue
            for s3, l in ask(w, s2, "get_height_proposals", (h,)):
                n += 1
                good = is_some(s3.facts, l) and lists(w.eng, s3, someval(ctx, l), found(ctx, s3, p1), keys)
                ctx.ob("every recorded proposal of a height is taken out when the height begins", "proposal", good,
                       f"{show(l)[:1200]}\n path: {pathdesc(s3.facts)}", W)
    # what dropping the messages of past heights leaves and removes
    till, nf = mk("sym", "till"), 0
    for owner, ops in (("VoteCollector", [("insert_vote", VoteW(ctx, k).args, [("get_votes", VoteW(ctx, k).pos + (mk("sym", "x"),)),
                                                                               ("get_height_votes", (h,))]) for k in (PV, PC)] +
                        [("set_qc", (qc_value(ctx, k),), [("get_qc_by_id", (h, r, vt(ctx, k))),
                                                          ("get_qc_by_hash", (h, mk("sym", "x"), vt(ctx, k)))]) for k in (PV, PC)]),
                       ("ProposalCollector", [("insert", (mk("sym", "c1"), h, r, p1), [("get", (h, r)), ("get_height_proposals", (h,))])])):
        for op, args, queries in ops:
            w = World(ctx, owner).do(op, *args)
            kept, gone = w.assume((LT(h, till), False)), w.assume((LT(h, till), True))
            for q, qa in queries:
                bad = None
                for s in kept.sts:
                    for s2, _ in ask(kept, s, "flush", (till,)):
                        for s3, a3 in ask(kept, s2, q, qa):
                            for s4, r0 in ask(kept, s3, q, qa, kept.value(s)):
                                nf += 1
                                if not (negative(s4.facts, a3) and negative(s4.facts, r0) or a3 is r0 or s4.facts.same(a3, r0)):
                                    bad = bad or f"{q}: {show(a3)[:500]} instead of {show(r0)[:500]}\n path: {pathdesc(s4.facts)}"
                ctx.ob("flushing drops no message of the given height or a later one", f"{owner}::{op}, {q}", bad is None,
                       str(bad), W)
                bad = None
                for s in gone.sts:
                    for s2, _ in ask(gone, s, "flush", (till,)):
                        for s3, a3 in ask(gone, s2, q, qa):
                            nf += 1
                            if not (negative(s3.facts, a3) or is_none(s3.facts, a3) or is_err(s3.facts, a3)):
                                bad = bad or f"{q}: {show(a3)[:500]}\n path: {pathdesc(s3.facts)}"
                ctx.ob("flushing drops the messages of every earlier height", f"{owner}::{op}, {q}", bad is None, str(bad), W)
    ctx.floor("flushed", nf, 20)
    ctx.floor("taken out", n, 5)
    ctx.floor("recorded votes taken out", nv, 6)


RULES = {"C23": c23, "C05": c05, "C40": c40, "C41": c41}
