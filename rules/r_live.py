"""What the node has to do with evidence it holds: certificates are handed on, statuses adopted, messages answered."""
from lib import *
import r_node as N
import r_quorum as Q

same, now = N.same, N.now


def qc_fields(ctx, q):
    return tuple(ctx.get(q, "AggregatedVote", x) for x in ("height", "round", "block_hash", "vote_type"))


def handed_on(ctx, p, A, q, kind):
    """a trigger of this kind with the position and block of the certificate"""
    h, r, b, _ = qc_fields(ctx, q)
    h0, b2 = h, b
    c = N.reader_payload(ctx, q, "get_qc_by_id", "ok")
    if c is not None:
        # the collector has it under this height and round
        h, r = c.a[2], c.a[3]
    c = N.reader_payload(ctx, q, "get_qc_by_hash", "some")
    if c is not None:
        h, b2 = c.a[2], c.a[3]
    for a in A:
        if a.k == "trigger" and tname(a.tt) == kind + "QC" and same(a.facts, a.round, r) and \
                (same(a.facts, a.height, h) or same(a.facts, a.height, h0)) and \
                (same(a.facts, a.hash, b) or same(a.facts, a.hash, b2)):
            return True
    return False


def unmarked(ctx, p, h):
    """the path found that the block of hash h is not marked as checked"""
    f = p.facts
    for t, v in f.literals():
        for x in subterms(t):
            if x.op == "get" and same(f, x.a[1], h) and is_marks(ctx, x.a[0]):
                if is_none(f, x) or f.query(someval(ctx, x)) is False:
                    return True
            if x.op == "contains" and not v and same(f, x.a[1], h) and is_marks(ctx, x.a[0]):
                return True
    return False


def is_marks(ctx, m):
    base = ctx.get(S, "State", "is_full_transaction")
    return m is base or m.op == "mut" and any(x is base for x in subterms(m))


def kinds_of(ctx, f, vt):
    k = N.vt_name(ctx, f, vt)
    return {k} if k else {"Prevote", "Precommit"}


def held(ctx, lab, p, A):
    """certificates of this path: received, stored or found  [(certificate, how)]"""
    out = []
    if lab == "message AggregatedVote":
        out.append((mk("sym", "av"), "received"))
    for a in A:
        if a.k == "col" and a.fn == "VoteCollector::set_qc":
            out.append((a.args[0], "stored"))
    # certificates of before that become usable: by the check of their block, by the vote of the node
    seen = set()
    for l, v in p.facts.literals() if lab in ("block check response", "event PrevoteVote", "event PrecommitVote") else ():
        for x in subterms(l, seen):
            n = callname(x)
            if n == "get_qc_by_id" and is_ok(p.facts, x):
                out.append((okval(ctx, x), "found"))
            if n == "get_qc_by_hash" and is_some(p.facts, x):
                out.append((someval(ctx, x), "found"))
    u = {}
    for q, how in out:
        u.setdefault(id(q), (q, how))
    return list(u.values())


def certificates(ctx, rule, may):
    """may(facts, height, round, hash, kind, H, R) -> the voting state machine would act on such a certificate"""
    n = 0
    for lab, p, A in all_paths(ctx):
        if lab in ("event Commit", "start", "event Brake"):
            continue
        f = p.facts
        pw = ctx.get(S, "State", "consensus_power")
        if lab.startswith("message") and f.query(pw) is not True:
            continue
        for q, how in held(ctx, lab, p, A):
            h, r, b, vt = qc_fields(ctx, q)
            c = N.reader_payload(ctx, q, "get_qc_by_id", "ok")
            if c is not None:
                h, r = c.a[2], c.a[3]
                # other rounds are looked up to record them
                if not same(f, r, ctx.get(p.post, "State", "round")):
                    continue
            for kind in kinds_of(ctx, f, vt):
                node = p.post
                H, R = ctx.get(node, "State", "height"), ctx.get(node, "State", "round")
                if how == "found":
                    c = [x for x in subterms(q) if callname(x) in ("get_qc_by_id", "get_qc_by_hash")]
                    if c:
                        kk = N.vt_name(ctx, f, c[0].a[4])
                        if kk and kk != kind:
                            continue
                if not may(f, h, r, b, kind, H, R):
                    continue
                # a prevote certificate of a later round that waited for its block is left alone by design
                if how == "found" and kind == "Prevote" and f.query(EQ(r, R)) is False:
                    continue
                n += 1
                ok = handed_on(ctx, p, A, q, kind)
                stored = how == "found" or any(a.k == "col" and a.fn == "VoteCollector::set_qc" and a.args[0] is q for a in A)
                ok = ok or stored and f.query(EMPTY(b)) is False and unmarked(ctx, p, b)
                ctx.ob(rule, f"{lab}: {kind} certificate {how}", ok, desc(lab, p, show(q)[:300], A), "")
    ctx.floor("certificate of the node", n, 3)


def c11(ctx):
    certificates(ctx, "a precommit certificate of the current height is handed to the voting state machine",
                 lambda f, h, r, b, k, H, R: k == "Precommit" and f.query(EQ(h, H)) is not False and f.query(EMPTY(b)) is not True)


def c15(ctx):
    certificates(ctx, "a certificate that can end the round is handed to the voting state machine",
                 lambda f, h, r, b, k, H, R: f.query(EQ(h, H)) is not False and f.query(LT(r, R)) is not True and
                 (k == "Prevote" or f.query(EMPTY(b)) is not False))


def chokes(ctx):
    """enough chokes, and the certificate a choke carries, are acted on"""
    n = m = k = 0
    for lab, p, A in all_paths(ctx):
        f = p.facts
        ins = [a for a in A if a.k == "col" and a.fn == "ChokeCollector::insert"]
        trg = [a for a in A if a.k == "trigger" and tname(a.tt) == "ContinueRound"]
        if ins:
            n += 1
            enough = N.facts_terms(f, "max_round_above_threshold")
            ctx.ob("a choke is counted when it arrives", lab, bool(enough) or bool(trg) or lab in ("event Brake", "start") and
                   not any(a.k == "broadcast" for a in A), desc(lab, p, "", A), where(ins[0].e))
            for t in enough:
                if is_some(f, t):
                    ctx.ob("enough chokes end the round", lab, bool(trg) or failed(f) or
                           f.query(LT(someval(ctx, t), ctx.get(p.post, "State", "round"))) is True, desc(lab, p, "", A), "")
        if lab != "message SignedChoke" or f.query(ctx.get(S, "State", "consensus_power")) is not True:
            continue
        msg = [x for l, v in f.literals() for x in subterms(l) if x.op == "fld" and x.a[3] == "from" and x.a[0].op == "fld"]
        for t in N.facts_terms(f, "verify_aggregated_signature"):
            if is_ok(f, t):
                m += 1
                below = any(over(l, v) for l, v in f.literals())
                ctx.ob("a verified choke certificate ends the round", lab, bool(trg) or below, desc(lab, p, "", A), "")
        if msg:
            u = msg[0]
            var = variant_of(ctx, f, u, "UpdateFrom")
            if var in ("PrevoteQC", "PrecommitQC"):
                k += 1
                q = ctx.eng0().field(u, ("PrevoteQC", "PrecommitQC", "ChokeQC").index(var), 0, "0", 1, ctx.adt("UpdateFrom"))
                elsewhere = f.query(EQ(ctx.get(q, "AggregatedVote", "height"), ctx.get(S, "State", "height"))) is False
                ctx.ob("the certificate a choke carries is examined", lab, elsewhere or any(a.k == "pverify" for a in A),
                       desc(lab, p, "", A), "")
    ctx.floor("choke counted", n, 3)
    ctx.floor("choke certificate received", m, 1)
    ctx.floor("certificate carried by a choke", k, 2)


def failed(f):
    return any(is_err(f, x) for l, v in f.literals() for x in subterms(l) if callname(x) == "aggregate_signatures")


def over(l, v):
    """a comparison with twice or thrice a number of voters that came out too small"""
    ab = above(l, not v)
    return ab is not None


def c15x(ctx):
    c15(ctx)
    chokes(ctx)


# ---------------------------------------------------------------------------------------------- C43 (node side)
def feasible(f, goods):
    """facts with these terms assumed (pairs term, value), None if the path excludes one of them"""
    for t, v in goods:
        f = f.assume(t, v)
        if f is None:
            return None
    return f


def member(f, au, who):
    """what the path asked about this name being on this list, answered with yes"""
    return [(t, True) for l, v in f.literals() for t in subterms(l)
            if callname(t) == "contains" and t.a[1] is au and same(f, t.a[2], who)]


def proper(ctx, f, sp, H, R, au, hwb):
    """[facts] of this path, with and without lock, if it may be that of a proper proposal of this position and block"""
    q = ctx.get(sp, "SignedProposal", "proposal")
    g = lambda x: ctx.get(q, "Proposal", x)  # noqa
    h, r, bh, lock = g("height"), g("round"), g("block_hash"), g("lock")
    base = [(ctx.get(S, "State", "consensus_power"), True), (EQ(h, H), True), (EQ(r, R), True), (EMPTY(bh), False)]
    f0 = feasible(f, member(f, au, g("proposer")) + base)
    if f0 is None:
        return []
    for t in N.facts_terms(f0, "get_proposer"):
        if is_err(f0, t):
            return []       # no leader can be determined
        f0 = feasible(f0, [(EQ(g("proposer"), okval(ctx, t)), True)])
        if f0 is None:
            return []
    # the block kept for the hash is the proposed one
    for t in N.facts_get(f0):
        if same(f0, t.a[0], hwb) and same(f0, t.a[1], bh):
            if is_some(f0, t):
                f0 = feasible(f0, [(EQ(someval(ctx, t), g("content")), True)])
                if f0 is None:
                    return []
    for t in N.calls_of(f0):
        if callname(t) == "insert" and is_err(f0, t):
            return []       # another proposal of this round is recorded (C40)
    out = []
    d = mk("discr", lock, OPTION)
    f1 = feasible(f0, [(EQ(d, INT(0)), True)])
    if f1 is not None:
        out.append(f1)
    f2 = feasible(f0, [(EQ(d, INT(1)), True)])
    if f2 is not None:
        L = ctx.eng0().field(lock, 1, 0, "0", 1, OPTION)
        qc = ctx.get(L, "PoLC", "lock_votes")
        c = lambda x: ctx.get(qc, "AggregatedVote", x)  # noqa
        lr = ctx.get(L, "PoLC", "lock_round")
        names = [v["n"] for v in ctx.prog.adts[ctx.adt("VoteType")]["v"]]
        f2 = feasible(f2, [(EQ(c("height"), h), True), (EQ(c("round"), lr), True), (LT(lr, r), True),
                           (EMPTY(c("block_hash")), False), (EQ(c("block_hash"), bh), True),
                           (EQ(mk("discr", c("vote_type"), ctx.adt("VoteType")), INT(names.index("Prevote"))), True)])
        if f2 is not None:
            out.append(f2)
    return out


def handed_proposal(ctx, A, sp):
    q = ctx.get(sp, "SignedProposal", "proposal")
    g = lambda x: ctx.get(q, "Proposal", x)  # noqa
    tr = [a for a in A if a.k == "trigger" and tname(a.tt) == "Proposal"]
    if len(tr) != 1:
        return False
    a = tr[0]
    if not (same(a.facts, a.hash, g("block_hash")) and same(a.facts, a.height, g("height")) and
            same(a.facts, a.round, g("round"))):
        return False
    return any(x.k in ("spawned", "spawn") for x in A)


def c43(ctx):
    n = m = k = j = 0
    for lab, p, A in paths_of(ctx, "message SignedProposal", "message AggregatedVote", "event NewRoundInfo"):
        f = p.facts
        g = lambda v, x: ctx.get(v, "State", x)  # noqa
        if lab == "message AggregatedVote":
            # a certificate of the next height, which the node will need there
            av = mk("sym", "av")
            c = lambda x: ctx.get(av, "AggregatedVote", x)  # noqa
            for nr in (INT(0), INT(1)):
                if feasible(f, [(ctx.get(S, "State", "consensus_power"), True), (EQ(c("height"), ADD(g(S, "height"), INT(1))), True),
                                (EQ(c("round"), nr), True)]) is None:
                    continue
                j += 1
                kept = [a for a in A if a.k == "col" and a.fn == "VoteCollector::set_qc" and a.args[0] is av]
                ctx.ob("a certificate of the next height is kept", lab, bool(kept), desc(lab, p, "dropped", A),
                       "process.rs handle_aggregated_vote")
            continue
        if lab == "message SignedProposal":
            sp = mk("sym", "sp")
            fs = proper(ctx, f, sp, g(S, "height"), g(S, "round"), g(S, "authority"), g(S, "hash_with_block"))
            if fs:
                n += 1
                ctx.ob("a proper proposal of the current position reaches the voting state machine and its block is checked",
                       lab, handed_proposal(ctx, A, sp), desc(lab, p, "dropped", A), "process.rs handle_signed_proposal")
            # one of the near future is kept
            q = ctx.get(sp, "SignedProposal", "proposal")
            h, r = ctx.get(q, "Proposal", "height"), ctx.get(q, "Proposal", "round")
            H, R = g(S, "height"), g(S, "round")
            for nh, nr in ((H, ADD(R, INT(1))), (ADD(H, INT(1)), INT(0))):
                x = feasible(f, [(ctx.get(S, "State", "consensus_power"), True), (EQ(h, nh), True), (EQ(r, nr), True)]
                             + member(f, g(S, "authority"), ctx.get(q, "Proposal", "proposer")))
                if x is None:
                    continue
                bad = False
                for t in N.facts_terms(x, "get_proposer"):
                    bad = bad or is_err(x, t) or feasible(x, [(EQ(ctx.get(q, "Proposal", "proposer"), okval(ctx, t)), True)]) is None
                if bad:
                    continue
                m += 1
                kept = [a for a in A if a.k == "col" and a.fn == "ProposalCollector::insert" and same(x, a.args[1], h) and
                        same(x, a.args[2], r)]
                ctx.ob("a proper proposal of the next round or height is kept", lab, bool(kept), desc(lab, p, "dropped", A),
                       "process.rs filter_signed_proposal")
            continue
        # entering a round: a follower examines the proposal it kept
        H, R = g(p.post, "height"), g(p.post, "round")
        if p.post is p.pre or not same(f, R, mk("sym", "ev.round")):
            continue
        if any(a.k == "sign" for a in A) or any(is_err(f, t) for t in N.calls_of(f) if callname(t) in ("get_proposer",)):
            continue
        lead = [t for t in N.facts_terms(f, "get_proposer") if same(f, t.a[2], H) and same(f, t.a[3], R)]
        if not lead:
            lr, lp = (EQ(mk("discr", mk("sym", "ev." + x), OPTION), INT(1)) for x in ("lock_round", "lock_proposal"))
            odd = not any(feasible(f, [(lr, x), (lp, x)]) for x in (True, False))
            ctx.ob("a node finds out who leads the round it enters", lab, odd or any(is_err(f, t) for t in N.calls_of(f)) or
                   any(is_none(f, t) for t in N.facts_get(f) | set(N.facts_terms(f, "get_qc"))),
                   desc(lab, p, "", A), "process.rs handle_new_round")
        if not lead or any(f.query(EQ(okval(ctx, t), g(S, "address"))) is not False for t in lead):
            continue
        k += 1
        got = [t for t in N.facts_terms(f, "get") if len(t.a) == 4 and same(f, t.a[2], H) and same(f, t.a[3], R)]
        ctx.ob("a follower looks for a proposal of the round it enters", lab, bool(got), desc(lab, p, "", A),
               "process.rs handle_new_round")
        for t in got:
            if not is_ok(f, t):
                continue
            sp = N.fld_of(okval(ctx, t), 0)
            if proper(ctx, f, sp, H, R, g(S, "authority"), g(p.post, "hash_with_block")):
                ctx.ob("a proper proposal kept for the round entered reaches the voting state machine", lab,
                       handed_proposal(ctx, A, sp), desc(lab, p, "dropped", A), "process.rs handle_new_round")
    ctx.floor("proper proposal", n, 2)
    ctx.floor("proposal of the near future", m, 2)
    ctx.floor("certificate of the next height", j, 2)
    ctx.floor("follower entering a round", k, 2)


# ---------------------------------------------------------------------------------------------- C44
def near(ctx, f, who, h, r):
    """the path may be that of a member's message of the current position, the next round or the next height"""
    H, R = ctx.get(S, "State", "height"), ctx.get(S, "State", "round")
    base = [(ctx.get(S, "State", "consensus_power"), True)] + member(f, ctx.get(S, "State", "authority"), who)
    return {k for k, (nh, nr) in (("now", (H, R)), ("next round", (H, ADD(R, INT(1)))), ("next height", (ADD(H, INT(1)), INT(0))))
            if feasible(f, base + [(EQ(h, nh), True), (EQ(r, nr), True)]) is not None}


FAILING = ("get_vote_map", "get_vote_weight", "get_votes", "aggregate_signatures")


def count_failed(f):
    for l, v in f.literals():
        if l.op == "any" and v and any(callname(t) in FAILING for t in subterms(l)) and \
                not any(x.op == "lt" for x in subterms(l)):
            return True
        for t in subterms(l):
            if callname(t) in FAILING and is_err(f, t):
                return True
    return False


def not_enough(ctx, f, H, R, V):
    """the path found that no block of the recorded votes of this position has more than two thirds of the weight"""
    AU = ctx.get(S, "State", "authority")
    for l, v in f.literals():
        if l.op != "any" or v:
            continue
        M = l.a[0]
        for c in l.a[1:]:
            g = f.forget(mk("idx", M))
            ok = True
            for t, w in case_lits(c):
                plain = t.op == "any" and not w or above(t, w)
                ok = ok and plain
                g = g.assume(t, w) if g is not None else None
            if ok and g is not None and Q.counted(ctx, g, H, R, V, mk("mkey", M, mk("idx", M)), AU) is None:
                return True
    return False


def c44(ctx):
    n = m = k = 0
    sv = mk("sym", "sv")
    vote = ctx.get(sv, "SignedVote", "vote")
    h, r, vty, who = ctx.get(vote, "Vote", "height"), ctx.get(vote, "Vote", "round"), ctx.get(vote, "Vote", "vote_type"), \
        ctx.get(sv, "SignedVote", "voter")
    for lab, p, A in paths_of(ctx, "message SignedVote", "event PrevoteVote", "event PrecommitVote"):
        f = p.facts
        ins = [a for a in A if a.k == "col" and a.fn == "VoteCollector::insert_vote"]
        if lab == "message SignedVote":
            when = near(ctx, f, who, h, r)
            for w in sorted(when):
                n += 1
                known = any(is_ok(f, t) and same(f, t.a[2], h) and same(f, t.a[3], r) and
                            (same(f, t.a[4], vty) or N.vt_name(ctx, f, t.a[4]) == N.vt_name(ctx, f, vty) is not None) for t in N.facts_terms(f, "get_qc_by_id"))
                ctx.ob("a member's vote for this position, the next round or the next height is recorded", f"{lab}: {w}",
                       known or any(same(a.facts, a.args[2], sv) and same(a.facts, a.args[3], who) for a in ins),
                       desc(lab, p, "not recorded", A), "process.rs handle_signed_vote")
            if "now" not in when or not ins:
                continue
            V = N.vt_name(ctx, f, vty)
            V = vt(ctx, V) if V else vty
        else:
            if not ins:
                continue
            V = vt(ctx, lab[6:-4])
        k += 1
        made = [a.args[0] for a in A if a.k == "col" and a.fn == "VoteCollector::set_qc" and a.i > ins[0].i]
        sent = [a.msg.a[3] for a in A if a.k == "broadcast" and ctx.isv(a.msg, "OverlordMsg", "AggregatedVote")]
        if made:
            m += 1
            good = len(made) == 1 and len(sent) == 1 and same(f, made[0], sent[0])
            ctx.ob("a certificate made is kept and broadcast to all", lab, good, desc(lab, p, "", A), where(ins[0].e))
            continue
        H, R = ctx.get(S, "State", "height"), ctx.get(S, "State", "round")
        ok = count_failed(f) or not_enough(ctx, f, H, R, V)
        ctx.ob("recorded votes are counted, and enough votes for a block make its certificate", lab, ok,
               desc(lab, p, "no certificate although the votes may suffice", A), where(ins[0].e))
    ctx.floor("vote of this position or the next", n, 6)
    ctx.floor("votes counted", k, 6)
    ctx.floor("certificate made", m, 4)


# ---------------------------------------------------------------------------------------------- C45
def errs(f):
    """names of the calls that failed on this path"""
    out = set()
    for l, v in f.literals():
        for t in subterms(l):
            if t.op == "res":
                t2 = t.a[0]
                if is_err(f, t):
                    out.add(callname(t2) or t2.op)
            elif t.op == "call" and is_err(f, t):
                out.add(callname(t))
    return out


def evidence_missing(ctx, f, origin=False):
    """the certificate or the block of the lock (or the certificate that ended the round) is not known to the node"""
    lr = someval(ctx, mk("sym", "ev.lock_round"))
    fw = mk("sym", "ev.from_where")
    for t in N.facts_terms(f, "get_qc_by_id"):
        mine = same(f, t.a[3], lr)
        if is_err(f, t) and (mine or origin and any(x is fw for x in subterms(t.a[3]))):
            return True
        if is_ok(f, t) and mine:
            b = ctx.get(okval(ctx, t), "AggregatedVote", "block_hash")
            if any(same(f, x.a[1], b) and is_none(f, x) for x in N.facts_get(f)):
                return True
    return origin and any(is_none(f, t) and any(x is fw for x in subterms(t)) for t in N.facts_terms(f, "get_qc"))


def c45(ctx):
    n = dict.fromkeys(("PrevoteVote", "PrecommitVote", "Brake", "Commit", "NewRoundInfo", "check"), 0)
    g = lambda v, x: ctx.get(v, "State", x)  # noqa
    H, R = g(S, "height"), g(S, "round")
    ev = lambda x: mk("sym", "ev." + x)  # noqa
    for lab, p, A in all_paths(ctx):
        f, bad = p.facts, errs(p.facts)
        if lab in ("event PrevoteVote", "event PrecommitVote"):
            if feasible(f, [(EQ(ev("height"), H), True), (EQ(ev("round"), R), True)]) is None:
                continue
            n[lab[6:]] += 1
            cast = [a for a in A if a.k == "transmit" and msgof_vote(ctx, a.msg) or
                    a.k == "col" and a.fn == "VoteCollector::insert_vote"]
            ctx.ob("a vote that was ordered is cast", lab, bool(cast) or bool(bad & {"sign", "save"}) or
                   evidence_missing(ctx, f), desc(lab, p, str(bad), A), "process.rs handle_vote_event")
        elif lab == "event Brake":
            if feasible(f, [(EQ(ev("height"), H), True), (EQ(ev("round"), R), True)]) is None:
                continue
            n["Brake"] += 1
            cast = [a for a in A if a.k == "broadcast" and ctx.isv(a.msg, "OverlordMsg", "SignedChoke")]
            ctx.ob("a choke that was ordered is sent to all", lab, bool(cast) or bool(bad & {"sign", "save"}) or
                   evidence_missing(ctx, f), desc(lab, p, str(bad), A), "process.rs handle_brake")
            for a in cast:
                kept = [x for x in A if x.k == "col" and x.fn == "ChokeCollector::insert" and same(f, x.args[0], R) and
                        any(t is ctx.f(a.msg, "0") for t in (x.args[1],))]
                ctx.ob("a choke that was ordered is counted with the others", lab, bool(kept), desc(lab, p, "", A),
                       "process.rs handle_brake")
        elif lab == "event Commit":
            f2 = f
            for t in N.facts_get(f):
                if same(f, t.a[0], g(S, "hash_with_block")) and f2 is not None:
                    f2 = None if is_none(f, t) else f2
            for t in N.facts_terms(f, "get_qc_by_hash"):
                f2 = None if is_none(f, t) else f2
            if f2 is None:
                continue
            n["Commit"] += 1
            com = [a for a in A if a.k == "commit"]
            ctx.ob("a commit that was ordered is executed", lab, bool(com) or bool(bad & {"save"}), desc(lab, p, str(bad), A),
                   "process.rs handle_commit")
            for a in com:
                if not is_ok(f, a.res):
                    continue
                st = okval(ctx, a.res)
                sh = ctx.get(st, "Status", "height")
                if f.query(LT(H, sh)) is False:
                    continue
                ctx.ob("the height after a commit is entered", lab, same(f, g(p.post, "height"), sh) or
                       bool(bad & {"get_proposer"}), desc(lab, p, str(bad), A), "process.rs handle_commit")
        elif lab == "event NewRoundInfo":
            d1 = EQ(mk("discr", ev("lock_round"), OPTION), INT(1))
            d2 = EQ(mk("discr", ev("lock_proposal"), OPTION), INT(1))
            fs = [feasible(f, [(EQ(ev("height"), H), True), (d1, x), (d2, x), y]) for x in (True, False)
                  for y in ((EQ(ev("round"), INT(0)), True), (LT(R, ev("round")), True))]
            if not any(x is not None for x in fs):
                continue
            n["NewRoundInfo"] += 1
            known = evidence_missing(ctx, f, True)
            ctx.ob("a round that was announced is entered", lab, same(f, g(p.post, "round"), ev("round")) and
                   (any(a.k == "wal" for a in A) or known), desc(lab, p, str(bad), A), "process.rs handle_new_round")
        elif lab == "block check response":
            h, b = ctx.get(mk("sym", "resp"), "VerifyResp", "height"), ctx.get(mk("sym", "resp"), "VerifyResp", "block_hash")
            if feasible(f, [(EQ(h, H), True), (ctx.get(mk("sym", "resp"), "VerifyResp", "is_pass"), True)]) is None:
                continue
            n["check"] += 1
            q = {}
            for t in N.facts_terms(f, "get_qc_by_hash"):
                if same(f, t.a[2], H) and same(f, t.a[3], b):
                    q[N.vt_name(ctx, f, t.a[4])] = t
            good = any(is_some(f, t) for t in q.values()) or set(q) >= {"Prevote", "Precommit"}
            ctx.ob("certificates that waited for a block are looked for when it was checked", lab, good, desc(lab, p, "", A),
                   "process.rs handle_resp")
            for k, t in q.items():
                if is_some(f, t) and (k == "Precommit" or feasible(f, [(EQ(ctx.get(someval(ctx, t), "AggregatedVote", "round"), R), True)])):
                    ctx.ob("a certificate that waited for a block is acted on when it was checked", lab,
                           handed_on(ctx, p, A, someval(ctx, t), k), desc(lab, p, "", A), "process.rs handle_resp")
            post = g(p.post, "is_full_transaction")
            ctx.ob("the result of a block check is remembered", lab, post.op == "mut" and post.a[0] in ("insert", "sinsert") and
                   post.a[2] is g(S, "is_full_transaction") and same(f, post.a[3], b), desc(lab, p, show(post), A),
                   "process.rs handle_resp")
    for k, x in n.items():
        ctx.floor("order " + k, x, 1)


def msgof_vote(ctx, m):
    return ctx.isv(m, "OverlordMsg", "SignedVote")


def vt(ctx, name):
    return ctx.mkagg("VoteType", name)


# ---------------------------------------------------------------------------------------------- C47
NOW = mk("call", "Instant::now")


def c47(ctx):
    """the leader of the next height waits for the block interval, nobody else waits"""
    g = lambda p, x: ctx.get(p, "State", x)  # noqa
    H, addr = g(S, "height"), g(S, "address")
    cost = SUB(NOW, g(S, "height_start"))
    lack = LT(cost, mk("call", "Duration::from_millis", g(S, "block_interval")))
    n = m = 0
    for lab, p, A in all_paths(ctx):
        f = p.facts
        sleeps = [(i, e) for i, e in enumerate(p.evs) if e.name == "sleep"]
        heights = [i for i, e in enumerate(p.evs) if e.name == "write" and e.x[:2] == ("self", "height") and
                   any(c.name == "Consensus::commit" for c in p.evs[:i])]
        entered = g(p.post, "height") is not H and f.query(g(p.post, "consensus_power")) is not False
        if entered and lab != "start":
            m += 1
            ctx.ob("entering a height starts its clock", lab, g(p.post, "height_start") is NOW,
                   desc(lab, p, show(g(p.post, "height_start"))[:200], A), "process.rs goto_new_height")
        if not any(e.name == "Consensus::commit" for e in p.evs):
            ctx.ob("nothing but the pace of the heights delays the node", lab, not sleeps, desc(lab, p, "sleeps", A), "process.rs")
            continue
        # who leads the first round of the height the application answered with
        lead = None
        for l, v in f.literals():
            if l.op == "eq" and addr in l.a:
                y = l.a[0] if l.a[1] is addr else l.a[1]
                for t in subterms(y):
                    if callname(t) == "get_proposer" and any(callname(x) == "commit" for x in subterms(t.a[-2])):
                        lead = (t, v)
        if lead is not None:
            n += 1
            t = lead[0]
            h, r = t.a[-2], t.a[-1]
            ctx.ob("the pace is kept by the leader of the first round of the next height", "commit",
                   f.same(r, INT(0)) and fieldname(h) == "height" and any(callname(x) == "commit" for x in subterms(h)) and
                   any(x.op == "mut" and "update" in str(x.a[0]) and any(fieldname(y) == "authority_list" for y in subterms(x))
                       for x in subterms(t)), desc(lab, p, show(t)[:300], A), "process.rs handle_commit")
        late = f.query(lack) is False
        full = [e for i, e in sleeps if f.same(e.args[0], SUB(lack.a[1], cost)) and (not heights or i < heights[0])]
        if lead is not None and lead[1] is False:
            ctx.ob("who does not lead the next height enters it at once", "commit", not sleeps, desc(lab, p, "waits", A),
                   "process.rs handle_commit")
        elif heights:
            ctx.ob("who leads the next height enters it after the block interval", "commit",
                   late and not full or len(full) == len(sleeps) == 1,
                   desc(lab, p, f"sleeps {[show(e.args[0])[:200] for i, e in sleeps]}", A), "process.rs handle_commit")
    ctx.floor("commits that look for the next leader", n, 2)
    ctx.floor("entered heights", m, 2)


# ---------------------------------------------------------------------------------------------- C50
def c50(ctx):
    """a choke carries the certificate of its sender's round, and whoever is behind follows it"""
    g = lambda p, x: ctx.get(p, "State", x)  # noqa
    n = dict.fromkeys(("own", "entered", "PrevoteQC", "PrecommitQC", "ChokeQC"), 0)
    for lab, p, A in all_paths(ctx):
        f = p.facts
        for a in A:
            sc = N.msgof(a.msg, "SignedChoke") if a.k in ("broadcast", "transmit") else None
            if a.k == "col" and a.fn == "ChokeCollector::insert" and N.own_sig(ctx.get(a.args[1], "SignedChoke", "signature")):
                sc = a.args[1]
            if sc is not None:
                n["own"] += 1
                c = ctx.get(sc, "SignedChoke", "choke")
                bad = [x for x, y in (("height", "height"), ("round", "round"), ("from", "update_from_where"))
                       if not same(a.facts, ctx.get(c, "Choke", x), now(ctx, a, y))]
                if not same(a.facts, ctx.get(sc, "SignedChoke", "address"), now(ctx, a, "address")):
                    bad.append("address")
                ctx.ob("a choke names the position of its sender and what led there", lab, not bad,
                       desc(lab, p, f"{bad}: {show(sc)[:600]}", A), where(a.e))
            if a.k == "wal" and lab == "event NewRoundInfo":
                n["entered"] += 1
                why = N.from_fault(ctx, a)
                ctx.ob("a node remembers the certificate that led it to its round", lab, why is None,
                       desc(lab, p, f"{why}: {show(now(ctx, a, 'update_from_where'))[:300]}", A), where(a.e))
        if lab == "message SignedChoke":
            caught_up(ctx, lab, p, A, n)
    for k, v in n.items():
        ctx.floor("choke: " + k, v, 1)


def caught_up(ctx, lab, p, A, n):
    g = lambda x: ctx.get(S, "State", x)  # noqa
    sc = mk("sym", "sc")
    c = ctx.get(sc, "SignedChoke", "choke")
    H, R, au = g("height"), g("round"), g("authority")
    f = p.facts
    f2 = feasible(f, [(g("consensus_power"), True), (EQ(ctx.get(c, "Choke", "height"), H), True),
                      (LT(R, ctx.get(c, "Choke", "round")), True)] + member(f, au, ctx.get(sc, "SignedChoke", "address")))
    if f2 is None or any(is_err(f, t) for t in N.calls_of(f) if callname(t) == "verify_signature"):
        return
    u = ctx.get(c, "Choke", "from")
    var = variant_of(ctx, f, u, "UpdateFrom")
    if var is None:
        ctx.ob("a choke of a later round is read for what led there", lab, False, desc(lab, p, "not looked at", A),
               "process.rs handle_signed_choke")
        return
    q = ctx.eng0().field(u, ("PrevoteQC", "PrecommitQC", "ChokeQC").index(var), 0, "0", 1, ctx.adt("UpdateFrom"))
    n[var] += 1
    if var != "ChokeQC":
        good = f.query(EQ(ctx.get(q, "AggregatedVote", "height"), H)) is False
        for a in A:
            if a.k == "pverify" and N.msgof(a.msg, "AggregatedVote") is q and a.util is g("util") and \
                    same(f, a.auth, au) and a.tx is g("verify_sig_tx"):
                good = True
        ctx.ob("the vote certificate of a later round is verified and then handled", lab, good, desc(lab, p, "", A),
               "process.rs handle_signed_choke")
        return
    h, r, vs = (ctx.get(q, "AggregatedChoke", x) for x in ("height", "round", "voters"))
    kept = [a for a in A if a.k == "col" and a.fn == "ChokeCollector::set_qc"]
    trg = [a for a in A if a.k == "trigger" and tname(a.tt) == "ContinueRound"]
    done = any(same(a.facts, a.args[0], r) and a.args[1] is q for a in kept) and \
        any(same(a.facts, a.round, ADD(r, INT(1))) and same(a.facts, a.height, H) for a in trg)
    sig = [t for t in N.facts_terms(f, "verify_aggregated_signature") if any(x is vs for x in subterms(t))]
    wrong = f.query(EQ(h, H)) is False or any(is_err(f, t) for t in sig)
    for l, v in f.literals():
        if any(x is vs for x in subterms(l)) and not any(x in sig for x in subterms(l)):
            # what the voters were found to be: not on the list, twice, too few
            wrong = wrong or over(l, v) or any((x.op == "contains" or callname(x) == "contains") and isinstance(x.a[-1], T) and
                                               any(y is vs for y in subterms(x.a[-1])) for x in subterms(l)) or \
                any(is_err(f, x) for x in subterms(l)) and not any(x.op == "next" for x in subterms(l))
    ctx.ob("the choke certificate of a later round is verified, kept and followed", lab, done or wrong, desc(lab, p, "", A),
           "process.rs handle_signed_choke")


RULES = {"C50": c50, "C47": c47, "C11": c11, "C15": c15x, "C43": c43, "C44": c44, "C45": c45}
