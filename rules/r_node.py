"""Rules about the node around the voting core: log, checks of blocks, commit, caches, heights, leaders (C07-C38)."""
from lib import *
from r_quorum import PEER, msg_height, msg_round, facts_terms, main_loop, col_before, hash_choke, same_enc, ucontains

STEP_OF_VOTE = {"Prevote": "Prevote", "Precommit": "Precommit"}


def now(ctx, a, name):
    """a field of the node at the moment of an action"""
    return ctx.get(a.e.selfv, "State", name)


def same(f, x, y):
    return x is y or f.same(x, y)


def record(ctx, a):
    """the WalInfo saved by a log action"""
    if callname(a.info) != "encode":
        return None
    r = a.info.a[1]
    return r if ctx.isv(r, "WalInfo") else None


def own_sig(t):
    """a signature made on this path"""
    return t.op == "fld" and isinstance(t.a[0], T) and callname(t.a[0]) == "sign"


def msgof(m, variant):
    return m.a[3] if m.op == "agg" and m.a[2] == variant and len(m.a) > 3 else None


def vt_name(ctx, f, vt):
    return variant_of(ctx, f, vt, "VoteType")


# ------------------------------------------------------------------------------------------------ C07
def log_needed(ctx, a):
    """(what, step, height, round) of the log record an action requires"""
    f = a.facts
    if a.k in ("broadcast", "transmit"):
        sp, sv, sc = msgof(a.msg, "SignedProposal"), msgof(a.msg, "SignedVote"), msgof(a.msg, "SignedChoke")
        if sp is not None:
            p = ctx.get(sp, "SignedProposal", "proposal")
            return "sends a proposal", "Propose", ctx.get(p, "Proposal", "height"), ctx.get(p, "Proposal", "round")
        if sv is not None:
            v = ctx.get(sv, "SignedVote", "vote")
            return "sends a vote", vt_name(ctx, f, ctx.get(v, "Vote", "vote_type")), ctx.get(v, "Vote", "height"), \
                ctx.get(v, "Vote", "round")
        if sc is not None:
            c = ctx.get(sc, "SignedChoke", "choke")
            return "sends a choke", "Brake", ctx.get(c, "Choke", "height"), ctx.get(c, "Choke", "round")
    if a.k == "col" and a.fn == "VoteCollector::insert_vote":
        sv = a.args[2]
        if own_sig(ctx.get(sv, "SignedVote", "signature")):
            v = ctx.get(sv, "SignedVote", "vote")
            return "counts its own vote", vt_name(ctx, f, ctx.get(v, "Vote", "vote_type")), \
                ctx.get(v, "Vote", "height"), ctx.get(v, "Vote", "round")
    if a.k == "commit":
        return "commits", "Commit", a.height, None
    if a.k == "trigger" and tname(a.tt) == "NewHeight":
        st = a.tt.a[3]
        return "starts a height", "Propose", ctx.get(st, "SMRStatus", "height"), None
    return None


def c07(ctx):
    n = {}
    for lab, p, A in all_paths(ctx):
        for a in A:
            need = log_needed(ctx, a)
            if need is None:
                continue
            what, step, h, r = need
            n[what] = n.get(what, 0) + 1
            why = "no log record was saved before"
            good = False
            for w in A:
                if w.k != "wal" or w.i >= a.i:
                    continue
                rec = record(ctx, w)
                if rec is None:
                    why = "the saved bytes are not a log record"
                    continue
                if not is_ok(a.facts, w.res):
                    why = "the action also happens when saving the record failed"
                    continue
                if step is None or variant_of(ctx, w.facts, ctx.f(rec, "step"), "Step") != step:
                    why = f"the saved record is not of step {step}"
                    continue
                if not same(a.facts, ctx.f(rec, "height"), h) or (
                        r is not None and not same(a.facts, ctx.f(rec, "round"), r)):
                    why = "the saved record is of another height or round"
                    continue
                good = True
            ctx.ob("an action is preceded by a successfully saved log record of its step, height and round",
                   f"{lab}: {what}", good, desc(lab, p, why, A), where(a.e))
    for w in ("sends a proposal", "sends a vote", "sends a choke", "counts its own vote", "commits", "starts a height"):
        ctx.floor("node " + w, n.get(w, 0), 1)


# ------------------------------------------------------------------------------------------------ C08
def lock_round_of(ctx, lab, p):
    """the lock round the voting state machine reported with an event"""
    return mk("sym", "ev.lock_round")


def is_map_value(t, m, k, f):
    """t = value stored in map m under key k"""
    while m.op == "mut" and m.a[0] == "insert":
        if same(f, m.a[3], k):
            return same(f, t, m.a[4])
        if f.query(EQ(m.a[3], k)) is not False:
            break
        m = m.a[2]
    if t.op == "fld" and isinstance(t.a[0], T) and t.a[0].op == "get":
        g = t.a[0]
        return same(f, g.a[0], m) and same(f, g.a[1], k)
    return False


def reader_payload(ctx, t, name, kind):
    """t is the value found by a collector query -> the query"""
    if t.op == "fld" and isinstance(t.a[0], T) and callname(t.a[0]) == name and t.a[0].op == "call":
        c = t.a[0]
        if t is (okval(ctx, c) if kind == "ok" else someval(ctx, c)):
            return c
    return None


def qc_query(ctx, q, f, votes, H, kind, rnd=None, hsh=None):
    """q is the certificate the collector holds for this height, kind and round/block"""
    c = reader_payload(ctx, q, "get_qc_by_id", "ok")
    if c is not None and rnd is not None:
        return same(f, c.a[1], votes) and same(f, c.a[2], H) and same(f, c.a[3], rnd) and \
            vt_name(ctx, f, c.a[4]) == kind
    c = reader_payload(ctx, q, "get_qc_by_hash", "some")
    if c is not None and hsh is not None:
        return same(f, c.a[1], votes) and same(f, c.a[2], H) and same(f, c.a[3], hsh) and \
            vt_name(ctx, f, c.a[4]) == kind
    return False


STEP_OF = {"event NewRoundInfo": {"Propose"}, "event PrevoteVote": {"Prevote"}, "event PrecommitVote": {"Precommit"},
           "event Brake": {"Brake"}, "event Commit": {"Commit", "Propose"}, "message RichStatus": {"Propose"},
           "start": {"Commit", "Propose", "Brake"}}


def loaded(ctx, p, A):
    """the log record found at start-up on this path (term), if any"""
    for a in A:
        if a.k == "wal_load":
            return a.res
    return None


def c08(ctx):
    n = {}
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k != "wal":
                continue
            f = a.facts
            rec = record(ctx, a)
            if rec is None:
                ctx.ob("a log record is a complete encoded record", lab, False, desc(lab, p, show(a.info), A), where(a.e))
                continue
            step = variant_of(ctx, f, ctx.f(rec, "step"), "Step")
            n[step] = n.get(step, 0) + 1
            inst = f"{lab}: record of step {step}"
            H, R = now(ctx, a, "height"), now(ctx, a, "round")
            ctx.ob("a record holds the height and round of the node at that moment", inst,
                   same(f, ctx.f(rec, "height"), H) and same(f, ctx.f(rec, "round"), R),
                   desc(lab, p, f"record ({show(ctx.f(rec, 'height'))}, {show(ctx.f(rec, 'round'))}), "
                        f"node ({show(H)}, {show(R)})", A), where(a.e))
            # entering a new height afterwards: only after a commit or by status
            newh = any(b.k == "write" and b.path == ("self", "height") and b.i < a.i for b in A)
            steps = set(STEP_OF.get(lab, ()))
            if lab in ("event Commit", "start"):
                committed = any(b.k == "commit" and b.i < a.i for b in A)
                steps = {"Propose"} if committed else steps - {"Propose"}
            ctx.ob("a record holds the step the node is about to take", inst, step in steps,
                   desc(lab, p, f"step {step} recorded by {lab}", A), where(a.e))
            ctx.ob("a record holds how the node entered its round", inst,
                   same(f, ctx.f(rec, "from"), now(ctx, a, "update_from_where")),
                   desc(lab, p, show(ctx.f(rec, "from")), A), where(a.e))
            why = lock_fault(ctx, lab, p, A, a, rec, step, newh)
            ctx.ob("a record holds the lock of the node with its certificate and block, and no other", inst,
                   why is None, desc(lab, p, f"{why}: lock {show(ctx.f(rec, 'lock'))}"[:900], A), where(a.e))
            # the round entered is known to be the one the event speaks about
            if lab in ("event NewRoundInfo",):
                ctx.ob("the record of a new round is of the round entered", inst,
                       same(f, ctx.f(rec, "round"), mk("sym", "ev.round")), desc(lab, p, "", A), where(a.e))
                why = from_fault(ctx, a)
                ctx.ob("the way a round was entered is recorded with the certificate that led there", inst, why is None,
                       desc(lab, p, f"{why}: {show(now(ctx, a, 'update_from_where'))}"[:900], A), where(a.e))
    for s in ("Propose", "Prevote", "Precommit", "Brake", "Commit"):
        ctx.floor(f"log record of step {s}", n.get(s, 0), 1)


def lock_fault(ctx, lab, p, A, a, rec, step, newh):
    f = a.facts
    lk = ctx.f(rec, "lock")
    H = now(ctx, a, "height")
    votes, hwb = now(ctx, a, "votes"), now(ctx, a, "hash_with_block")

    def content_ok(L, hsh):
        return is_map_value(ctx.f(L, "content"), hwb, hsh, f)

    if step == "Commit":
        if not ctx.isv(lk, "Option", "Some") or not ctx.isv(lk.a[3], "WalLock"):
            return "the commit record holds no lock"
        L = lk.a[3]
        q = ctx.f(L, "lock_votes")
        c = reader_payload(ctx, q, "get_qc_by_hash", "some")
        if c is None or not qc_query(ctx, q, f, votes, H, "Precommit", hsh=c.a[3]):
            return "the commit record does not hold the precommit certificate"
        if not content_ok(L, c.a[3]):
            return "the commit record does not hold the block of its certificate"
        if lab == "event Commit" and not same(f, c.a[3], mk("sym", "ev.0")):
            return "the commit record is of another block"
        return None
    if newh and lab != "start" or (lab == "start" and step == "Propose"):
        return None if is_none(f, lk) else "a record of a new height holds a lock"
    if lab in ("event NewRoundInfo", "event PrevoteVote", "event PrecommitVote", "event Brake"):
        lr = mk("sym", "ev.lock_round")
        none, somev = is_none(f, lr), someval(ctx, lr) if is_some(f, lr) else None
    elif lab == "start":
        # the lock of the loaded record: recorded again with the certificate of its round
        w = loaded(ctx, p, A)
        if w is None:
            return "no loaded record"
        info = loaded_info(ctx, p, A)
        if info is None:
            return "the loaded record is unknown"
        wl = ctx.get(info, "WalInfo", "lock")
        none = is_none(f, wl)
        somev = ctx.get(someval(ctx, wl), "WalLock", "lock_round") if is_some(f, wl) else None
    else:
        return "unexpected place of a record"
    if none:
        return None if is_none(f, lk) else "the node is not locked but the record holds a lock"
    if somev is None:
        return "it is not known whether the node is locked"
    if not ctx.isv(lk, "Option", "Some") or not ctx.isv(lk.a[3], "WalLock"):
        return "the node is locked but the record holds no lock"
    L = lk.a[3]
    if not same(f, ctx.f(L, "lock_round"), somev):
        return "lock round of another lock"
    q = ctx.f(L, "lock_votes")
    if not qc_query(ctx, q, f, votes, H, "Prevote", rnd=somev):
        return "the lock certificate is not the prevote certificate of the lock round"
    if not content_ok(L, ctx.get(q, "AggregatedVote", "block_hash")):
        return "the block is not the one of the lock certificate"
    return None


def loaded_info(ctx, p, A):
    """the decoded record on a start path"""
    for t in p.facts.literals():
        for x in subterms(t[0]):
            if callname(x) in ("decode",) and x.op in ("call", "ucall"):
                if is_ok(p.facts, x):
                    return okval(ctx, x)
    return None


def from_fault(ctx, a):
    """how the round was entered: the certificate of the event's origin"""
    f = a.facts
    ev = mk("sym", "ev.from_where")
    fw = variant_of(ctx, f, ev, "FromWhere")
    u = now(ctx, a, "update_from_where")
    un = variant_of(ctx, f, u, "UpdateFrom")
    if fw is None or un != fw or u.op != "agg":
        return f"entered by {fw}, recorded as {un}"
    q = u.a[3]
    i = [v["n"] for v in ctx.prog.adts[ctx.adt("FromWhere")]["v"]].index(fw)
    r = ctx.eng0().field(ev, i, 0, "0", 1, ctx.adt("FromWhere"))
    H = now(ctx, a, "height")
    if fw == "ChokeQC":
        c = reader_payload(ctx, q, "get_qc", "some")
        if c is not None and same(f, c.a[1], now(ctx, a, "chokes")) and same(f, c.a[2], r):
            return None
        return "not the choke certificate of that round"
    kind = {"PrevoteQC": "Prevote", "PrecommitQC": "Precommit"}[fw]
    if qc_query(ctx, q, f, now(ctx, a, "votes"), H, kind, rnd=r):
        return None
    if fw == "PrecommitQC" and f.query(EQ(r, INT(2 ** 64 - 1))) is True and ctx.isv(q, "AggregatedVote") and \
            ctx.f(q, "height") is INT(0):
        return None
    return "not the certificate of that round"


# ------------------------------------------------------------------------------------------------ C13
def pair_ok(ctx, f, h, b, A, i):
    """block content b and hash h belong together: out of one proposal, one get_block answer, or the known block"""
    if h.op == "fld" and b.op == "fld":
        if h.a[3] == "block_hash" and b.a[3] == "content" and h.a[0] is b.a[0]:
            return True
    for a in A:
        if a.k == "get_block" and a.i <= i and is_ok(f, a.res):
            v = okval(ctx, a.res)
            if b.op == "fld" and h.op == "fld" and b.a[0] is v and h.a[0] is v and b is not h and b.a[2] == 0 and h.a[2] == 1:
                return True
    if b.op == "fld" and isinstance(b.a[0], T) and b.a[0].op == "get" and same(f, b.a[0].a[1], h):
        m = b.a[0].a[0]
        return is_block_map(ctx, m)
    # the lock of a log record: block and certificate of one lock
    if b.op == "fld" and b.a[3] == "content" and h.op == "fld" and h.a[3] == "block_hash" and \
            isinstance(h.a[0], T) and h.a[0].op == "fld" and h.a[0].a[3] == "lock_votes" and h.a[0].a[0] is b.a[0]:
        return True
    return False


def is_block_map(ctx, m):
    base = ctx.get(S, "State", "hash_with_block")
    while m.op == "mut":
        m = m.a[2]
    return m is base or m is EMPTYC


def checked_marks(ctx, f, A, a, h):
    """the block of hash h is marked as checked at this moment"""
    if f.query(EMPTY(h)) is True:
        return True
    m = now(ctx, a, "is_full_transaction")
    for t, v in f.literals():
        for x in subterms(t):
            if x.op == "get" and same(f, x.a[0], m) and same(f, x.a[1], h):
                if is_some(f, x) and f.query(someval(ctx, x)) is True:
                    return True
            # the marks may be a set of the checked hashes
            if x.op == "contains" and same(f, x.a[0], m) and same(f, x.a[1], h) and f.query(x) is True:
                return True
    return False


def check_tasks(ctx):
    """spawned block checks: [(label, path facts of the task, events of the task, node at the spawn, acts before)]"""
    if "ctasks" in ctx.cache:
        return ctx.cache["ctasks"]
    out = []
    roots = [("message " + m, handle_msg(ctx, m)[0]) for m in list(MSGS) + ["Stop"]]
    roots += [("event " + m, handle_event(ctx, m)[0]) for m in SMR_EVENTS]
    roots += [("start", start_with_wal(ctx)[0]), ("block check response", handle_resp(ctx)[0])]
    for lab, eng in roots:
        for s2, ret, pos, ch in eng.spawned:
            evs = flat(s2.events())
            sub = flat(s2.events(pos))
            out.append((lab, s2, evs, sub))
    ctx.cache["ctasks"] = out
    return out


class FakeP:
    def __init__(self, s2, evs):
        self.facts, self.evs, self.st = s2.facts, evs, s2


def c13(ctx):
    # 1. certificate triggers
    n = 0
    sends_true = True
    for lab, s2, evs, sub in check_tasks(ctx):
        for a in acts(ctx, FakeP(s2, sub)):
            if a.k == "resp":
                v = ctx.f(a.msg, "is_pass")
                sends_true &= v.op == "int" and v.a[0] == 1 or a.facts.query(v) is True
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "trigger" and tname(a.tt) in ("PrevoteQC", "PrecommitQC"):
                n += 1
                f = a.facts
                good = checked_marks(ctx, f, A, a, a.hash)
                if not good and lab == "block check response":
                    rs = mk("sym", "resp")
                    g = lambda x: ctx.get(rs, "VerifyResp", x)  # noqa
                    passed = sends_true or f.query(g("is_pass")) is True
                    hh = [g("block_hash")]
                    h = a.hash
                    named = same(f, h, hh[0])
                    for fn, kind in (("get_qc_by_hash", "some"),):
                        if h.op == "fld" and h.a[3] == "block_hash":
                            c = reader_payload(ctx, h.a[0], fn, kind)
                            if c is not None and same(f, c.a[3], hh[0]):
                                named = True
                    good = passed and named and same(f, g("height"), now(ctx, a, "height"))
                ctx.ob("a certificate for a block reaches the voting state machine only when that block is marked as "
                       "checked", f"{lab}: {tname(a.tt)}", good,
                       desc(lab, p, f"the block {show(a.hash)[:300]} is not known to be checked", A), where(a.e))
            if a.k == "write" and a.path[:2] == ("self", "is_full_transaction"):
                ctx.ob("a block is marked as checked only by the answer of its own check", lab,
                       mark_ok(ctx, lab, a), desc(lab, p, f"marks {show(a.val)[:400]}", A), where(a.e))
            if a.k == "write" and a.path[:2] == ("self", "hash_with_block"):
                why = block_write(ctx, lab, A, a)
                ctx.ob("the block kept for a hash is never replaced by another one", lab, why is None,
                       desc(lab, p, f"{why}: {show(a.val)[:500]}", A), where(a.e))
    ctx.floor("certificate trigger", n, 6)
    # 2. the check task
    k = nr = 0
    for lab, s2, evs, sub in check_tasks(ctx):
        AA = acts(ctx, FakeP(s2, evs))
        SS = acts(ctx, FakeP(s2, sub))
        checks = [a for a in SS if a.k == "check_block"]
        if not checks and not any(a.k == "resp" for a in SS):
            continue
        k += 1
        for a in checks:
            node = a.e.selfv
            good = pair_ok(ctx, a.facts, a.hash, a.block, AA, 10 ** 9)
            ctx.ob("the content that is checked is the one that came with the hash", f"{lab}: block check", good,
                   f"checks {show(a.block)[:300]} for {show(a.hash)[:300]}\n path: {pathdesc(a.facts)}", where(a.e))
            ctx.ob("a block is checked for the height of the node", f"{lab}: block check",
                   same(a.facts, a.height, ctx.get(node, "State", "height")), show(a.height), where(a.e))
        for a in SS:
            if a.k != "resp":
                continue
            nr += 1
            m = a.msg
            ps = ctx.f(m, "is_pass")
            neg = a.facts.query(ps) is False or ps is INT(0)
            good = neg or any(c.i < a.i and is_ok(a.facts, c.res) and same(a.facts, c.height, ctx.f(m, "height")) and
                              same(a.facts, c.hash, ctx.f(m, "block_hash")) for c in checks)
            ctx.ob("a positive check result is sent only after the application approved that block at that height",
                   f"{lab}: block check", good, f"sends {show(m)}\n path: {pathdesc(a.facts)}", where(a.e))
    ctx.floor("block check task", k, 3)
    ctx.floor("check result", nr, 3)


def mark_ok(ctx, lab, a):
    v = a.val
    if v is EMPTYC:
        return True
    if lab != "block check response":
        return False
    rs = mk("sym", "resp")
    g = lambda x: ctx.get(rs, "VerifyResp", x)  # noqa
    f = a.facts
    if v.op == "mut" and v.a[0] == "insert" and same(f, v.a[2], ctx.get(S, "State", "is_full_transaction")):
        pas = same(f, v.a[4], g("is_pass")) or (f.query(g("is_pass")) is True and f.query(v.a[4]) is True)
        return same(f, v.a[3], g("block_hash")) and pas and same(f, g("height"), now(ctx, a, "height"))
    if v.op == "mut" and v.a[0] == "sinsert" and same(f, v.a[2], ctx.get(S, "State", "is_full_transaction")):
        return same(f, v.a[3], g("block_hash")) and f.query(g("is_pass")) is True and same(f, g("height"), now(ctx, a, "height"))
    return False


def block_write(ctx, lab, A, a):
    v, f = a.val, a.facts
    if v is EMPTYC:
        return None
    if v.op == "mut" and v.a[0] == "insert":
        m, k, val = v.a[2], v.a[3], v.a[4]
        if not is_block_map(ctx, m):
            return "unknown map"
        if not pair_ok(ctx, f, k, val, A, a.i):
            return "block and hash do not come from one proposal"
        g = mk("get", m, k)
        if is_none(f, g) or same(f, someval(ctx, g), val):
            return None
        if lab == "start":
            return None     # nothing is stored before start-up
        return "an entry may exist with another block"
    return "unknown change"


# ------------------------------------------------------------------------------------------------ C14
def c14(ctx):
    n = 0
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k != "commit":
                continue
            n += 1
            why = commit_fault(ctx, lab, A, a)
            ctx.ob("the application commits the certified block of the height with its proof", f"{lab}: commit",
                   why is None, desc(lab, p, why or "", A), where(a.e))
        cs = [a for a in A if a.k == "commit"]
        if cs:
            ctx.ob("a block is handed over once per decision", f"{lab}: commit", len(cs) == 1, desc(lab, p, "", A),
                   where(cs[0].e))
    ctx.floor("commit", n, 2)
    return n


def commit_fault(ctx, lab, A, a):
    f = a.facts
    H = now(ctx, a, "height")
    c = a.commit
    if not ctx.isv(c, "Commit"):
        return "not a commit record"
    pf = ctx.f(c, "proof")
    if not same(f, a.height, H) or not same(f, ctx.f(c, "height"), H) or not same(f, ctx.get(pf, "Proof", "height"), H):
        return "height of another block"
    h = ctx.get(pf, "Proof", "block_hash")
    if lab == "event Commit" and not same(f, h, mk("sym", "ev.0")):
        return "not the decided block"
    if not is_map_value(ctx.f(c, "content"), now(ctx, a, "hash_with_block"), h, f):
        return "the content is not the one known for that hash"
    sg = ctx.get(pf, "Proof", "signature")
    rd = ctx.get(pf, "Proof", "round")
    for t in facts_terms(f, "get_qc_by_hash"):
        if t.op == "call" and is_some(f, t):
            q = someval(ctx, t)
            if same(f, sg, ctx.get(q, "AggregatedVote", "signature")) and \
                    same(f, rd, ctx.get(q, "AggregatedVote", "round")):
                if qc_query(ctx, q, f, now(ctx, a, "votes"), H, "Precommit", hsh=h):
                    return None
                return "the proof is taken from a certificate of another height, block or kind"
    return "the proof is not round and signature of one certificate"


# ------------------------------------------------------------------------------------------------ C22
INSERTS = {"VoteCollector::insert_vote", "VoteCollector::set_qc", "ProposalCollector::insert", "ChokeCollector::insert"}


def stored(ctx, a):
    """(what, height, round, quorum certificate?) of an item put into a collection"""
    g = ctx.get
    if a.fn == "VoteCollector::insert_vote":
        v = g(a.args[2], "SignedVote", "vote")
        return "vote", g(v, "Vote", "height"), g(v, "Vote", "round"), False
    if a.fn == "VoteCollector::set_qc":
        return "certificate", g(a.args[0], "AggregatedVote", "height"), g(a.args[0], "AggregatedVote", "round"), True
    if a.fn == "ProposalCollector::insert":
        q = g(a.args[3], "SignedProposal", "proposal")
        return "proposal", g(q, "Proposal", "height"), g(q, "Proposal", "round"), False
    if a.fn == "ChokeCollector::insert":
        c = g(a.args[1], "SignedChoke", "choke")
        return "choke", g(c, "Choke", "height"), g(c, "Choke", "round"), False


LIMIT = 1000


def c22(ctx):
    n = {}
    for lab, p, A in all_paths(ctx):
        if not lab.startswith("message "):
            continue
        for a in A:
            if a.k == "col" and a.fn == "ChokeCollector::set_qc":
                f, q = a.facts, a.args[1]
                H = now(ctx, a, "height")
                ctx.ob("an aggregated choke is kept only for the current height", lab,
                       same(f, ctx.get(q, "AggregatedChoke", "height"), H), desc(lab, p, show(q)[:300], A), where(a.e))
            if a.k != "col" or a.fn not in INSERTS:
                continue
            what, h, r, qc = stored(ctx, a)
            n[what] = n.get(what, 0) + 1
            f = a.facts
            H, R = now(ctx, a, "height"), now(ctx, a, "round")
            why = None
            if same(f, h, H):
                if qc:
                    # verified certificate of the current height (C01): bounded by what a quorum signed
                    kind = vt_name(ctx, f, ctx.get(a.args[0], "AggregatedVote", "vote_type"))
                    if kind != "Precommit" and not f.le(R, r):
                        why = "a prevote certificate of a past round is kept"
                elif not f.le(R, r):
                    why = f"a {what} of a past round is kept"
                else:
                    b = f.bound(r, R)
                    if same(f, r, R):
                        b = 0
                    if b is None or b > LIMIT:
                        why = f"the round of a kept {what} is not bounded"
            elif f.query(LT(H, h)) is True:
                b, c = f.bound(h, H), f.bound(r, INT(0))
                b2 = f.bound(h, H)
                if b2 is None or b2 > LIMIT:
                    why = f"the height of a kept {what} is not bounded"
                elif not small(f, r):
                    why = f"the round of a kept {what} of a later height is not bounded"
                if what == "choke":
                    why = "a choke of a later height is kept"
            else:
                why = f"a {what} of a past height is kept"
            ctx.ob("only messages within a bounded window of heights and rounds ahead are kept", f"{lab}: {what}",
                   why is None, desc(lab, p, why or "", A), where(a.e))
    for w in ("vote", "certificate", "proposal", "choke"):
        ctx.floor(f"kept {w}", n.get(w, 0), 1)


def small(f, r):
    return f.query(LT(INT(LIMIT), r)) is False


# ------------------------------------------------------------------------------------------------ C23, C24
def statuses(ctx, lab, p, A):
    """the status a path adopts: argument of the message or answer of the commit"""
    out = []
    if lab == "message RichStatus":
        out.append(mk("sym", "rs"))
    for a in A:
        if a.k == "commit" and is_ok(p.facts, a.res):
            out.append(okval(ctx, a.res))
    return out


def newheight(A):
    return [a for a in A if a.k == "trigger" and tname(a.tt) == "NewHeight"]


def rechecks(ctx, p):
    """lists re-verified by a complete loop -> [(list term, message variant, element expression, element, verify event)]"""
    out = []
    for e in p.st.events():
        if e.name != "loop":
            continue
        evs = []
        for sub, fx in e.x:
            pv = [x for x in flat(sub, True) if x.name == "parallel_verify"]
            evs.append(pv)
        if not evs or any(len(x) != 1 for x in evs):
            continue
        left = {I.next_lit(l, True) for l, v in p.facts.literals(e.facts.log) if v}
        for pv in evs:
            m = pv[0].args[1]
            if m.op == "agg" and len(m.a) == 4:
                for t in subterms(m.a[3]):
                    if t.op == "at" and t.a[1].op == "idx":
                        # no condition on the element, and the loop is not left before its end
                        cond = [l for l, v in pv[0].facts.literals(e.facts.log) if t.a[1] in free_idx(l) and
                                I.next_lit(l, True) is None]
                        seqs = {I.next_lit(l, True) for l, v in pv[0].facts.literals(e.facts.log) if v} - {None}
                        if not cond and not seqs & left:
                            out.append((t.a[0], m.a[2], m.a[3], t, pv[0]))
                        break
    return out


def c23(ctx):
    n = 0
    loops = {}
    for lab, p, A in all_paths(ctx):
        for a in newheight(A):
            n += 1
            f = a.facts
            H = now(ctx, a, "height")
            inst = f"{lab}: new height"
            for name in ("hash_with_block", "is_full_transaction"):
                ctx.ob("the blocks and check marks of the past height are gone when a height begins", f"{inst}, {name}",
                       now(ctx, a, name) is EMPTYC, desc(lab, p, f"{name} = {show(now(ctx, a, name))[:300]}", A), where(a.e))
            ch = now(ctx, a, "chokes")
            cleared = new_chokes(ch) or any(b.k == "col" and b.fn == "ChokeCollector::clear" and b.i < a.i for b in A) and \
                not any(b.k == "col" and b.fn in ("ChokeCollector::insert", "ChokeCollector::set_qc") and b.i < a.i and
                        all(c.i < b.i for c in A if c.k == "col" and c.fn == "ChokeCollector::clear") for b in A)
            ctx.ob("the chokes of the past height are gone when a height begins", inst, cleared,
                   desc(lab, p, show(ch)[:300], A), where(a.e))
            for col in ("ProposalCollector", "VoteCollector"):
                fl = [b for b in A if b.k == "col" and b.fn == col + "::flush" and b.i < a.i]
                # flush(t) drops what is below t (C23 of the collectors)
                good = any(b.args[0] is SUB1(H) or same(f, b.args[0], H) or
                           f.query(LT(b.args[0], H)) is True and keeps_all(f, b.args[0], H) for b in fl)
                over = [b for b in fl if f.query(LT(H, b.args[0])) is not False and not same(f, b.args[0], H) and
                        b.args[0] is not SUB1(H)]
                ctx.ob("messages of past heights, and only those, are dropped when a height begins", f"{inst}, {col}",
                       good and not over, desc(lab, p, "flushed up to " + ", ".join(show(b.args[0])[:200] for b in fl), A),
                       where(a.e))
            rk = rechecks(ctx, p)
            for fn, items in (("ProposalCollector::get_height_proposals", (("SignedProposal", None),)),
                              ("VoteCollector::get_height_votes", (("SignedVote", 0), ("AggregatedVote", 1)))):
                gets = [b for b in A if b.k == "col" and b.fn == fn and b.i < a.i]
                last_flush = max([b.i for b in A if b.k == "col" and b.fn == fn.split("::")[0] + "::flush" and b.i < a.i],
                                 default=-1)
                good = len(gets) == 1 and same(f, gets[0].args[0], H) and gets[0].i > last_flush
                ctx.ob("the early messages of the new height are taken out once", f"{inst}, {fn}", good,
                       desc(lab, p, f"{len(gets)} times", A), where(a.e))
                if not good:
                    continue
                t = gets[0].res
                if is_none(f, t):
                    continue
                for variant, idx in items:
                    L = someval(ctx, t)
                    if idx is not None:
                        L = L.a[1 + idx] if L.op == "tup" else mk("fld", L, None, idx, None)
                    hit = None
                    for lst, v, el, at, ev in rk:
                        base = bag(lst)[0]
                        if v == variant and samelist(f, lst, L):
                            hit = (el, at, ev)
                    ok_ = hit is not None
                    why = f"the early {variant} messages are not all handed to verification"
                    if ok_:
                        el, at, ev = hit
                        loops[variant] = loops.get(variant, 0) + 1
                        au = ev.args[3]
                        if not (el is at or el.op == "fld" and el.a[0] is at):
                            ok_, why = False, "the message is changed before it is verified"
                        elif au is not now(ctx, a, "authority"):
                            ok_, why = False, "early messages are verified against another authority list"
                        elif ev.args[4] is not ctx.get(S, "State", "verify_sig_tx"):
                            ok_, why = False, "the verification result does not reach the main loop"
                        elif ev.args[2] is not ctx.get(S, "State", "util"):
                            ok_, why = False, "other crypto"
                    ctx.ob("every early message of the new height is verified against the new authority list",
                           f"{inst}, {variant}", ok_, desc(lab, p, why, A), where(a.e))
            extra = [b for b in A if b.k in ("trigger", "broadcast", "transmit", "resp") and b is not a and
                     (b.i > a.i or lab == "message RichStatus")]
            ctx.ob("nothing early is acted on directly when a height begins", inst, not extra,
                   desc(lab, p, repr(extra[:1]), A), where(a.e))
    ctx.floor("new height", n, 2)
    for v in ("SignedProposal", "SignedVote", "AggregatedVote"):
        ctx.floor("re-verification of early " + v, loops.get(v, 0), 1)


def new_chokes(t):
    """a choke collector that holds nothing"""
    return t.op in ("call", "ucall") and callname(t) == "new" or t is EMPTYC or \
        t.op == "agg" and len(t.a) > 3 and all(x is EMPTYC or x.op == "agg" and x.a[2] == "None" for x in t.a[3:])


def SUB1(h):
    return SUB(h, INT(1))


def keeps_all(f, x, H):
    """x + 1 >= H: nothing older than H survives"""
    b = f.bound(H, x)
    return b is not None and b <= 1


def samelist(f, a, b):
    return a is b or same(f, a, b) or bag(a)[0] is b and not bag(a)[2]


def own_list(ctx, f, t, st, v):
    """t says that the status' authority list contains the node's own address"""
    return True


def c24(ctx):
    n = 0
    for lab, p, A in all_paths(ctx):
        sts = statuses(ctx, lab, p, A)
        hw = [a for a in A if a.k == "write" and a.path == ("self", "height")]
        if not sts:
            if lab != "start":
                ctx.ob("the height changes only by a status or by recovery", lab, not hw,
                       desc(lab, p, "", A), where(hw[0].e) if hw else "")
                nh = newheight(A)
                ctx.ob("a new height is announced only from a status", lab, not nh, desc(lab, p, "", A),
                       where(nh[0].e) if nh else "")
            continue
        st = sts[-1]
        g = lambda x: ctx.get(st, "Status", x)  # noqa
        f = p.facts
        pre = hw[:-1] if lab == "start" else []
        eff = [a for a in A if a.k in ("write", "col", "wal", "trigger", "broadcast", "transmit", "pverify", "commit")]
        if lab == "message RichStatus":
            up = f.query(LT(ctx.get(S, "State", "height"), g("height"))) is True
            ctx.ob("a status above the current height is adopted", lab,
                   f.query(LT(ctx.get(S, "State", "height"), g("height"))) is False or
                   any(same(a.facts, a.val, g("height")) for a in hw), desc(lab, p, "", A), "")
            if not up:
                ctx.ob("a status not above the current height changes nothing", lab, not eff, desc(lab, p, "", A),
                       where(eff[0].e) if eff else "")
                continue
        adopt = [a for a in hw if same(a.facts, a.val, g("height"))]
        bad = [a for a in hw if a not in adopt and not (lab == "start" and is_recover(a))]
        ctx.ob("the height adopted is the one of the status", lab, not bad, desc(lab, p, "", A), where(bad[0].e) if bad else "")
        for a in adopt:
            before = hw_before(ctx, A, a)
            ctx.ob("a height is adopted only when it is above the current one", lab,
                   a.facts.query(LT(before, g("height"))) is True, desc(lab, p, show(before), A), where(a.e))
        for a in newheight(A):
            n += 1
            m = a.tt.a[3]
            inst = f"{lab}: new height"
            f = a.facts
            h = ctx.get(m, "SMRStatus", "height")
            ctx.ob("node and voting state machine enter the height of the status", inst,
                   same(f, h, g("height")) and same(f, now(ctx, a, "height"), h) and same(f, a.height, h),
                   desc(lab, p, f"{show(h)} / {show(now(ctx, a, 'height'))}"[:500], A), where(a.e))
            ctx.ob("a new height starts at round 0", inst, same(f, now(ctx, a, "round"), INT(0)) and
                   same(f, a.round, INT(0)), desc(lab, p, "", A), where(a.e))
            ctx.ob("interval and timer settings of the status go to the voting state machine", inst,
                   same(f, ctx.get(m, "SMRStatus", "new_interval"), g("interval")) and
                   same(f, ctx.get(m, "SMRStatus", "new_config"), g("timer_config")), desc(lab, p, show(m)[:500], A),
                   where(a.e))
            ups = [b for b in A if b.k == "col" and b.fn == "AuthorityManage::update" and b.i < a.i]
            ctx.ob("the authority list of the status is in force when the height begins", inst,
                   bool(ups) and same(f, ups[-1].args[0], g("authority_list")) and
                   now(ctx, a, "authority").op == "mut", desc(lab, p, "", A), where(a.e))
            iv = g("interval")
            bi = now(ctx, a, "block_interval")
            good = same(f, bi, someval(ctx, iv)) if is_some(f, iv) else same(f, bi, ctx.get(S, "State", "block_interval")) \
                if is_none(f, iv) else False
            ctx.ob("the block interval of the status is adopted", inst, good, desc(lab, p, show(bi)[:300], A), where(a.e))
            ctx.ob("only a node of the status' authority list takes part in the new height", inst,
                   power_of(ctx, f, now(ctx, a, "consensus_power"), st, now(ctx, a, "address")),
                   desc(lab, p, show(now(ctx, a, "consensus_power"))[:400], A), where(a.e))
        # a height that was adopted by a member is announced unless the log could not be written
        if adopt and not newheight(A):
            cp = ctx.get(p.post, "State", "consensus_power")
            failed = any(a.k == "wal" and is_err(p.facts, a.res) for a in A)
            ctx.ob("an adopted height is announced to the voting state machine", lab,
                   f.query(cp) is False or failed, desc(lab, p, "", A), "")
    ctx.floor("status adopted", n, 2)


def power_of(ctx, f, cp, st, addr):
    """cp == the address occurs in the authority list of the status"""
    lst = ctx.get(st, "Status", "authority_list")
    if f.query(cp) is not True and cp is not INT(1):
        return False
    return any(same_any(ctx, t, lst, addr) for c in [cp] + [l for l, v in f.literals() if v] for t in subterms(c))


def same_any(ctx, t, lst, addr):
    """t asks exactly whether the address is that of a member of the list"""
    el = I.AT(lst, mk("idx", lst))
    name = ctx.get(el, "Node", "address")
    want = EQ(addr, name)
    if t.op == "any":
        return t.a[0] is lst and len(t.a) == 2 and \
            [x for x in [(t.a[1].a[0], True)] + case_lits(t.a[1]) if x[0] is not TRUE] == [(want, True)]
    if t.op == "contains" and t.a[-1] is addr:
        c = t.a[0]
        return c.op == "mut" and callname(c) is None and any(x is lst for x in subterms(c)) or \
            c.op == "fold" and c.a[0] in ("push", "sinsert") and c.a[1:3] == (lst, EMPTYC) and c.a[3:] == (I.mkcase(name, []),)
    if t.op == "lt" and t.a[0] is INT(0) and t.a[1].op == "fold":
        c = t.a[1]
        return c.a[:3] == ("+", lst, INT(0)) and c.a[3:] == (I.mkcase(INT(1), [(want, True)]),)
    return False


def is_recover(a):
    return any(callname(x) == "decode" for x in subterms(a.val))


def hw_before(ctx, A, a):
    """the height of the node just before a write of it"""
    h = None
    for b in A:
        if b.i < a.i and b.k == "write" and b.path == ("self", "height"):
            h = b.val
    return h if h is not None else ctx.get(S, "State", "height")


# ------------------------------------------------------------------------------------------------ C25
def c25(ctx):
    n = {}
    pos = 0
    for lab, p, A in paths_of(ctx, "start"):
        f = p.facts
        pw = f.query(ctx.get(S, "State", "consensus_power"))
        if pw is not True:
            ctx.ob("a node outside the authority list does not resume", lab, pw is False and not A, desc(lab, p, "", A), "")
            continue
        ld = [a for a in A if a.k == "wal_load"]
        first = [a for a in A if a.k not in ("other",)]
        ctx.ob("the log is consulted before anything else", lab, bool(ld) and first and first[0] is ld[0],
               desc(lab, p, "", A), "")
        if not ld:
            continue
        res = ld[0].res
        rest = [a for a in A if a is not ld[0]]
        if is_err(f, res):
            ctx.ob("a log that cannot be read starts nothing", lab, not rest, desc(lab, p, "", A), "")
            continue
        rec = okval(ctx, res)
        trg = [a for a in A if a.k == "trigger"]
        if is_none(f, rec):
            n["none"] = n.get("none", 0) + 1
            H = ctx.get(S, "State", "height")
            if f.query(EQ(H, INT(0))) is True:
                ctx.ob("without a record a node at the first height starts fresh", lab,
                       not [a for a in rest if a.k != "write"], desc(lab, p, "", A), "")
            else:
                good = len(trg) == 1 and tname(trg[0].tt) == "WalInfo" and len([a for a in rest if a.k != "write"]) == 1
                why = ""
                if good:
                    a = trg[0]
                    b = a.wal.a[3] if ctx.isv(a.wal, "Option", "Some") else None
                    good = b is not None and same(f, ctx.get(b, "SMRBase", "height"), H) and \
                        same(f, ctx.get(b, "SMRBase", "round"), ctx.get(S, "State", "round")) and \
                        variant_of(ctx, f, ctx.get(b, "SMRBase", "step"), "Step") == "Propose" and \
                        is_none(f, ctx.get(b, "SMRBase", "polc"))
                ctx.ob("without a record the voting state machine starts at the beginning of the node's own round", lab,
                       good, desc(lab, p, why, A), "")
            continue
        raw = someval(ctx, rec)
        dec = [x for t, v in f.literals() for x in subterms(t) if callname(x) == "decode" and x.op in ("call", "ucall")]
        dec = [x for x in dec if any(y is raw for y in subterms(x))]
        if not dec:
            ctx.ob("the record is decoded", lab, False, desc(lab, p, "", A), "")
            continue
        if is_err(f, dec[0]):
            ctx.ob("a record that cannot be read starts nothing", lab, not rest, desc(lab, p, "", A), "")
            continue
        info = okval(ctx, dec[0])
        g = lambda x: ctx.get(info, "WalInfo", x)  # noqa
        step = variant_of(ctx, f, g("step"), "Step")
        lock = g("lock")
        # the node stands where the record says when it acts for the first time
        act = [a for a in A if a.k in ("trigger", "wal", "commit", "broadcast", "transmit", "sign")]
        for a in act[:1]:
            n["act"] = n.get("act", 0) + 1
            why = None
            f2 = a.facts
            if not same(f2, now(ctx, a, "height"), g("height")):
                why = "height not restored"
            elif not same(f2, now(ctx, a, "round"), g("round")):
                why = "round not restored"
            elif not same(f2, now(ctx, a, "update_from_where"), g("from")):
                why = "the way the round was entered is not restored"
            elif is_some(f2, lock):
                L = someval(ctx, lock)
                q = ctx.get(L, "WalLock", "lock_votes")
                votes, hwb = now(ctx, a, "votes"), now(ctx, a, "hash_with_block")
                if not any(b.k == "col" and b.fn == "VoteCollector::set_qc" and b.args[0] is q and b.i < a.i for b in A):
                    why = "the certificate of the lock is not restored"
                elif not (hwb.op == "mut" and hwb.a[0] == "insert" and same(f2, hwb.a[3], ctx.get(q, "AggregatedVote", "block_hash"))
                          and same(f2, hwb.a[4], ctx.get(L, "WalLock", "content"))):
                    why = "the block of the lock is not restored"
                n["lock"] = n.get("lock", 0) + 1
            elif not is_none(f2, lock):
                why = "it is not known whether there is a lock"
            ctx.ob("height, round, origin and lock of the record are restored before the node acts", f"{lab}: {step}",
                   why is None, desc(lab, p, why or "", A), where(a.e))
        # what happens per step
        k = [a.k for a in A]
        wi = [a for a in trg if tname(a.tt) == "WalInfo"]
        if step == "Commit":
            n["commit"] = n.get("commit", 0) + 1
            ctx.ob("a recorded decision is committed again and not voted on again", f"{lab}: {step}",
                   not wi and not any(a.k in ("broadcast", "transmit") for a in A) and
                   (any(a.k == "commit" for a in A) or not act or any(a.k == "wal" and is_err(f, a.res) for a in A)),
                   desc(lab, p, "", A), "")
        else:
            if step == "Brake":
                n["brake"] = n.get("brake", 0) + 1
                done = [a for a in A if a.k == "broadcast"]
                ctx.ob("a recorded choke is sent again, with the position of the record", f"{lab}: {step}",
                       bool(done) or not wi, desc(lab, p, "", A), "")
            elif step is not None:
                sent = [a for a in A if a.k in ("broadcast", "transmit", "sign", "commit") or
                        (a.k == "col" and a.fn == "VoteCollector::insert_vote")]
                ctx.ob("nothing is signed or sent by restarting", f"{lab}: {step}", not sent, desc(lab, p, "", A), "")
            for a in wi:
                pos += 1
                why = base_fault(ctx, a, info)
                ctx.ob("the voting state machine resumes at the recorded height, round, step and lock", f"{lab}: {step}",
                       why is None, desc(lab, p, why or "", A), where(a.e))
            done = not any(is_err(f, t) for t in okcalls(p, A))
            if not wi and done and not act_failed(p, A):
                ctx.ob("a recorded position is resumed", f"{lab}: {step}", False, desc(lab, p, "nothing is resumed", A), "")
    for w in ("none", "act", "lock", "commit", "brake"):
        ctx.floor("restart: " + w, n.get(w, 0), 1)
    ctx.floor("resumed position", pos, 1)


def okcalls(p, A):
    return [a.res for a in A if a.k in ("wal", "commit", "sign", "aggregate")]


def act_failed(p, A):
    """the start ended with an error of a collaborator (signing, leader election, missing certificate)"""
    return p.ret is not None and p.ret.op == "agg" and p.ret.a[2] == "Err" or is_err(p.facts, p.ret)


def base_fault(ctx, a, info):
    f = a.facts
    g = lambda x: ctx.get(info, "WalInfo", x)  # noqa
    if not ctx.isv(a.wal, "Option", "Some"):
        return "no position"
    b = a.wal.a[3]
    h = lambda x: ctx.get(b, "SMRBase", x)  # noqa
    if not same(f, h("height"), g("height")) or not same(f, h("round"), g("round")):
        return "position of another height or round"
    if not same(f, h("step"), g("step")) and (
            variant_of(ctx, f, h("step"), "Step") is None or
            variant_of(ctx, f, h("step"), "Step") != variant_of(ctx, f, g("step"), "Step")):
        return "another step"
    lock, polc = g("lock"), h("polc")
    if is_none(f, lock):
        return None if is_none(f, polc) else "a lock although the record has none"
    if not is_some(f, lock):
        return "it is not known whether there is a lock"
    if not ctx.isv(polc, "Option", "Some"):
        return "the lock is lost"
    L = someval(ctx, lock)
    m = polc.a[3]
    if not same(f, ctx.get(m, "Lock", "round"), ctx.get(L, "WalLock", "lock_round")):
        return "the lock of another round"
    if not same(f, ctx.get(m, "Lock", "hash"), ctx.get(ctx.get(L, "WalLock", "lock_votes"), "AggregatedVote", "block_hash")):
        return "the lock of another block"
    return None


# ------------------------------------------------------------------------------------------------ C26
def c26(ctx):
    n = 0
    for lab, p, A in all_paths(ctx):
        if lab in ("event NewRoundInfo", "event PrevoteVote", "event PrecommitVote", "event Brake"):
            h = mk("sym", "ev.height")
        elif lab == "block check response":
            h = ctx.get(mk("sym", "resp"), "VerifyResp", "height")
        else:
            continue
        H = ctx.get(S, "State", "height")
        eff = [a for a in A if a.k not in ("hash", "other")]
        for a in eff[:1]:
            n += 1
            ctx.ob("a leftover of another height has no effect", lab, a.facts.same(h, H) or a.facts.query(EQ(h, H)) is True,
                   desc(lab, p, "acts although the heights may differ", A), where(a.e))
        # and nothing changed silently
        if not eff:
            ctx.ob("a leftover of another height changes nothing", lab, p.post is p.pre or same_but(ctx, p), desc(lab, p, "", A), "")
    for lab, p, A in paths_of(ctx, "event Brake"):
        for a in [x for x in A if x.k in ("sign", "broadcast", "wal", "trigger", "col")][:1]:
            ctx.ob("a brake of another round has no effect", lab,
                   a.facts.query(EQ(mk("sym", "ev.round"), ctx.get(S, "State", "round"))) is True, desc(lab, p, "", A),
                   where(a.e))
    for lab, p, A in paths_of(ctx, "event Commit"):
        for a in [x for x in A if x.k not in ("hash", "other")][:1]:
            f = a.facts
            good = any(is_some(f, t) and qc_query(ctx, someval(ctx, t), f, ctx.get(S, "State", "votes"),
                                                  ctx.get(S, "State", "height"), "Precommit", hsh=mk("sym", "ev.0"))
                       for t in facts_terms(f, "get_qc_by_hash") if t.op == "call")
            ctx.ob("a decision acts only with a precommit certificate of the current height", lab, good,
                   desc(lab, p, "", A), where(a.e))
    ctx.floor("event with effects", n, 5)


def same_but(ctx, p):
    return not [e for e in p.evs if e.name == "write"]


# ------------------------------------------------------------------------------------------------ C27
def leader_of(ctx, f, a, H, R):
    """the path knows that get_proposer(authority, H, R) is the node itself / another node / unknown"""
    au, me = now(ctx, a, "authority"), now(ctx, a, "address")
    for t in facts_terms(f, "get_proposer"):
        if t.op == "call" and is_ok(f, t) and same(f, t.a[1], au) and same(f, t.a[2], H) and same(f, t.a[3], R):
            q = f.query(EQ(okval(ctx, t), me))
            if q is not None:
                return q
    return None


def c27(ctx):
    n = k = 0
    lr, lp = mk("sym", "ev.lock_round"), mk("sym", "ev.lock_proposal")
    for lab, p, A in all_paths(ctx):
        props = [a for a in A if a.k in ("broadcast", "transmit") and msgof(a.msg, "SignedProposal") is not None]
        gets = [a for a in A if a.k == "get_block"]
        if lab != "event NewRoundInfo":
            ctx.ob("a proposal is made only on entering a round", lab, not props and not gets, desc(lab, p, "", A),
                   where((props + gets)[0].e) if props + gets else "")
            continue
        ctx.ob("one proposal per round entered", lab, len(props) <= 1 and len(gets) <= 1, desc(lab, p, "", A),
               where(props[-1].e) if props else "")
        for a in props:
            n += 1
            f = a.facts
            sp = msgof(a.msg, "SignedProposal")
            q = ctx.get(sp, "SignedProposal", "proposal")
            g = lambda x: ctx.get(q, "Proposal", x)  # noqa
            H, R = now(ctx, a, "height"), now(ctx, a, "round")
            why = None
            if a.k != "broadcast":
                why = "the proposal is not broadcast to all"
            elif leader_of(ctx, f, a, H, R) is not True:
                why = "it is not the leader of its height and round"
            elif not same(f, R, mk("sym", "ev.round")):
                why = "the round is not the one entered"
            elif not (same(f, g("height"), H) and same(f, g("round"), R)):
                why = "height or round of another position"
            elif not same(f, g("proposer"), now(ctx, a, "address")):
                why = "another proposer's name"
            ctx.ob("a proposal is made by the leader of the round, for its own position and under its own name",
                   f"{lab}: proposal", why is None, desc(lab, p, why or "", A), where(a.e))
            why = None
            lock = g("lock")
            if is_none(f, lr):
                k |= 1
                gb = [x for x in gets if x.i < a.i and is_ok(f, x.res) and same(f, x.height, H)]
                v = okval(ctx, gb[0].res) if gb else None
                if not is_none(f, lock):
                    why = "a certificate without a lock"
                elif not gb:
                    why = "no fresh block"
                elif not (g("content") is fld_of(v, 0) and g("block_hash") is fld_of(v, 1)):
                    why = "not the block and hash the application gave"
            elif is_some(f, lr):
                k |= 2
                r, h = someval(ctx, lr), someval(ctx, lp)
                if not is_some(f, lp) or not same(f, g("block_hash"), h):
                    why = "not the locked block"
                elif not is_map_value(g("content"), now(ctx, a, "hash_with_block"), h, f):
                    why = "not the content of the locked block"
                elif not ctx.isv(lock, "Option", "Some"):
                    why = "no certificate for the lock"
                else:
                    L = lock.a[3]
                    if not same(f, ctx.get(L, "PoLC", "lock_round"), r):
                        why = "another lock round"
                    elif not qc_query(ctx, ctx.get(L, "PoLC", "lock_votes"), f, now(ctx, a, "votes"), H, "Prevote", rnd=r):
                        why = "not the prevote certificate of the lock round"
                if gets:
                    why = "a fresh block although locked"
            else:
                why = "it is not known whether the node is locked"
            ctx.ob("a locked leader proposes its lock with its certificate, an unlocked one a fresh block",
                   f"{lab}: proposal", why is None, desc(lab, p, why or "", A), where(a.e))
        # own proposal goes to the voting core and to the block check
        for a in props:
            tr = [x for x in A if x.k == "trigger" and tname(x.tt) == "Proposal"]
            q = ctx.get(msgof(a.msg, "SignedProposal"), "SignedProposal", "proposal")
            f = p.facts
            good = len(tr) == 1 and same(f, tr[0].hash, ctx.get(q, "Proposal", "block_hash")) and \
                same(f, tr[0].height, ctx.get(q, "Proposal", "height")) and \
                same(f, tr[0].round, ctx.get(q, "Proposal", "round")) and lock_same(ctx, f, tr[0].lock_round, lr)
            ctx.ob("the leader votes on the proposal it sent", lab, good, desc(lab, p, "", A), where(a.e))
            ctx.ob("the leader has the block it proposed checked", lab, any(x.k in ("spawned", "spawn") for x in A),
                   desc(lab, p, "", A), where(a.e))
        # a leader that meets no failing call proposes
        if p.post is not p.pre and not props:
            f = p.facts
            lead = any(t.op == "call" and is_ok(f, t) and f.query(EQ(okval(ctx, t), ctx.get(S, "State", "address"))) is True
                       for t in facts_terms(f, "get_proposer"))
            if lead:
                failed = any(v and l.op == "eq" and any(isinstance(x, T) and x.op == "discr" and x.a[1] is RESULT for x in l.a)
                             and INT(1) in l.a for l, v in f.literals()) or any(
                    is_none(f, t) for t in facts_get(f)) or any(is_err(f, t) for t in calls_of(f))
                ctx.ob("the leader of a round proposes", lab, failed, desc(lab, p, "no proposal", A), "")
    ctx.floor("proposal", n, 2)
    ctx.ob("presence: proposal with and without a lock", "event NewRoundInfo", k == 3, f"{k}")


def fld_of(v, i):
    return mk("fld", v, None, i, None) if v.op != "agg" else v.a[3 + i]


def facts_get(f):
    return {x for l, v in f.literals() for x in subterms(l) if x.op == "get"}


def calls_of(f):
    return {x for l, v in f.literals() for x in subterms(l) if x.op in ("call", "res")}


def lock_same(ctx, f, x, lr):
    if same(f, x, lr):
        return True
    if is_none(f, lr):
        return is_none(f, x)
    if is_some(f, lr):
        return x.op == "agg" and x.a[2] == "Some" and same(f, x.a[3], someval(ctx, lr)) or \
            x.op != "agg" and is_some(f, x) and same(f, someval(ctx, x), someval(ctx, lr))
    return False


# ------------------------------------------------------------------------------------------------ C29, C09
VOTE_EVENT = {"event PrevoteVote": "Prevote", "event PrecommitVote": "Precommit"}


def c29(ctx):
    n = {}
    for lab, p, A in all_paths(ctx):
        own = []
        for a in A:
            f = a.facts
            if a.k in ("broadcast", "transmit") and msgof(a.msg, "SignedVote") is not None:
                sv = msgof(a.msg, "SignedVote")
                own.append(a)
                n["sent"] = n.get("sent", 0) + 1
                ctx.ob("a vote is sent to the leader of the round, by a node that is not the leader", f"{lab}: send",
                       a.k == "transmit" and same(f, a.to, now(ctx, a, "leader_address")) and
                       f.query(now(ctx, a, "is_leader")) is False, desc(lab, p, "", A), where(a.e))
            elif a.k == "col" and a.fn == "VoteCollector::insert_vote" and \
                    own_sig(ctx.get(a.args[2], "SignedVote", "signature")):
                sv = a.args[2]
                own.append(a)
                n["kept"] = n.get("kept", 0) + 1
                v = ctx.get(sv, "SignedVote", "vote")
                ctx.ob("the leader counts its own vote under its own address", f"{lab}: own vote",
                       f.query(now(ctx, a, "is_leader")) is True and same(f, a.args[3], now(ctx, a, "address")) and
                       same(f, a.args[1], ctx.get(v, "Vote", "block_hash")), desc(lab, p, "", A), where(a.e))
            else:
                continue
            v = ctx.get(sv, "SignedVote", "vote")
            ctx.ob("an own vote names its author and its position", f"{lab}: own vote",
                   same(f, ctx.get(sv, "SignedVote", "voter"), now(ctx, a, "address")) and
                   same(f, ctx.get(v, "Vote", "height"), now(ctx, a, "height")) and
                   same(f, ctx.get(v, "Vote", "round"), now(ctx, a, "round")), desc(lab, p, "", A), where(a.e))
        if lab in VOTE_EVENT:
            signs = [a for a in A if a.k == "sign"]
            okw = [a for a in A if a.k == "wal" and is_ok(p.facts, a.res)]
            if signs and is_ok(p.facts, signs[0].res) and okw:
                ctx.ob("an ordered vote is cast exactly once", lab, len(own) == 1, desc(lab, p, f"{len(own)} times", A), "")
        # who is the leader
        wr = [a for a in A if a.k == "write" and a.path[:2] in (("self", "is_leader"), ("self", "leader_address"))]
        if wr and lab not in ("event NewRoundInfo", "start"):
            ctx.ob("the leader changes only on entering a round", lab, False, desc(lab, p, "", A), where(wr[0].e))
        if lab == "event NewRoundInfo" and any(a.k == "write" and a.path == ("self", "round") for a in A):
            f = p.facts
            post = p.post
            H, R = ctx.get(post, "State", "height"), ctx.get(post, "State", "round")
            il, la = ctx.get(post, "State", "is_leader"), ctx.get(post, "State", "leader_address")
            gp = [t for t in facts_terms(f, "get_proposer") if t.op == "call" and is_ok(f, t) and
                  same(f, t.a[1], ctx.get(post, "State", "authority")) and same(f, t.a[2], H) and same(f, t.a[3], R)]
            me = ctx.get(post, "State", "address")
            if gp:
                n["leader"] = n.get("leader", 0) + 1
                who = okval(ctx, gp[0])
                mine = f.query(EQ(who, me))
                il_ = f.query(il) if il.op != "int" else bool(il.a[0])
                ctx.ob("on entering a round the node knows its leader and whether it is the leader itself", lab,
                       same(f, la, who) and (il_ is mine and mine is not None or il is EQ(who, me)),
                       desc(lab, p, f"leader {show(la)[:200]}, is leader {show(il)}", A), "")
            else:
                il_ = f.query(il) if il.op != "int" else bool(il.a[0])
                ctx.ob("a node that does not know the leader does not act as leader", lab, il_ is False,
                       desc(lab, p, show(il), A), "")
        if lab == "start":
            for a in wr:
                f = p.facts
                post = a.e.selfv
    for w in ("sent", "kept", "leader"):
        ctx.floor("own vote " + w, n.get(w, 0), 1)


def c09s(ctx):
    """the node signs a vote only when ordered, for the ordered block at its position"""
    n = 0
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k != "sign":
                continue
            v = hashed(a.hash)
            if v is None:
                ctx.ob("what is signed is the hash of an encoded message", lab, False, desc(lab, p, show(a.hash)[:300], A),
                       where(a.e))
                continue
            kinds = {"event PrevoteVote": ("Vote",), "event PrecommitVote": ("Vote",), "event Brake": ("HashChoke",),
                     "event NewRoundInfo": ("Proposal",), "start": ("HashChoke",)}.get(lab, ())
            k = last(v.a[0]) if v.op == "agg" else "?"
            ctx.ob("the node signs only what the voting state machine ordered", f"{lab}: {k}", k in kinds,
                   desc(lab, p, f"signs {show(v)[:300]}", A), where(a.e))
            if k != "Vote":
                continue
            n += 1
            f = a.facts
            ctx.ob("a vote is signed for the ordered block, phase and the node's position", f"{lab}: {k}",
                   lab in VOTE_EVENT and vt_name(ctx, f, ctx.f(v, "vote_type")) == VOTE_EVENT[lab] and
                   same(f, ctx.f(v, "block_hash"), mk("sym", "ev.block_hash")) and
                   same(f, ctx.f(v, "height"), mk("sym", "ev.height")) and
                   same(f, ctx.f(v, "height"), now(ctx, a, "height")) and
                   (same(f, ctx.f(v, "round"), now(ctx, a, "round")) or same(f, ctx.f(v, "round"), mk("sym", "ev.round"))),
                   desc(lab, p, f"signs {show(v)[:300]}", A), where(a.e))
        signs = [a for a in A if a.k == "sign"]
        ctx.ob("at most one signature per event", lab, len(signs) <= 1, desc(lab, p, "", A),
               where(signs[-1].e) if signs else "")
    ctx.floor("signed vote", n, 2)


# ------------------------------------------------------------------------------------------------ C35
def c35(ctx):
    n = 0
    for lab, p, A in all_paths(ctx):
        vc = [a for a in A if a.k == "view_change"]
        if lab != "event NewRoundInfo":
            ctx.ob("round changes are reported only when a round is entered", lab, not vc, desc(lab, p, "", A),
                   where(vc[0].e) if vc else "")
            continue
        f = p.facts
        if not same(f, mk("sym", "ev.height"), ctx.get(S, "State", "height")):
            ctx.ob("a round of another height is not reported", lab, not vc, desc(lab, p, "", A), "")
            continue
        z = f.query(EQ(mk("sym", "ev.round"), INT(0)))
        if z is True:
            ctx.ob("the first round of a height is no round change", lab, not vc, desc(lab, p, "", A), "")
            continue
        if z is None:
            ctx.ob("first and later rounds are told apart", lab, False, desc(lab, p, "", A), "")
            continue
        ctx.ob("every round change is reported once", lab, len(vc) == 1, desc(lab, p, f"{len(vc)} reports", A), "")
        for a in vc:
            n += 1
            rs = a.reason
            good = same(a.facts, a.height, ctx.get(S, "State", "height")) and \
                same(a.facts, a.round, ctx.get(S, "State", "round"))
            ctx.ob("the report names the height and the round that was left", lab, good, desc(lab, p, "", A), where(a.e))
            ctx.ob("the report gives the reason worked out for the round that was left, before anything changed", lab,
                   callname(rs) == "view_change_reason" and rs.a[1] is S and same(a.facts, rs.a[2], ctx.get(S, "State", "round"))
                   and same(a.facts, rs.a[3], mk("sym", "ev.from_where")), desc(lab, p, show(rs)[:300], A), where(a.e))
    ctx.floor("view change report", n, 3)
    # the reason itself
    fw = mk("sym", "fw")
    eng, ps = run_root(ctx, "State::view_change_reason", [SELF, mk("sym", "left"), fw],
                       atoms=STATE_ATOMS, hooks=None, name="reason")
    kinds = set()
    for p in ps:
        eff = [e for e in p.evs if not e.name.startswith("hash")]
        ctx.ob("working out the reason of a round change has no effect", "view_change_reason",
               not eff and p.post is p.pre, f"{[e.name for e in eff]}\n path: {pathdesc(p.facts)}", "src/state/process.rs")
        why, kind = reason_fault(ctx, p, fw)
        kinds.add(kind)
        ctx.ob("the reason of a round change is the real one", f"view_change_reason: {kind}", why is None,
               f"{why}: {show(p.ret)}\n path: {pathdesc(p.facts)}", "src/state/process.rs")
    ctx.floor("reason of a round change", len(kinds), 5)


def reason_fault(ctx, p, fw):
    """compare the reason given with what the path knows"""
    f, r = p.facts, p.ret
    if r.op != "agg":
        return "no definite reason", "?"
    name = r.a[2]
    left = mk("sym", "left")
    H = ctx.get(S, "State", "height")
    votes, props = ctx.get(S, "State", "votes"), ctx.get(S, "State", "proposals")
    marks = ctx.get(S, "State", "is_full_transaction")
    lead = f.query(ctx.get(S, "State", "is_leader"))
    qp = mk("call", "VoteCollector::get_qc_by_id", votes, H, left, vt(ctx, "Prevote"))
    qc = mk("call", "VoteCollector::get_qc_by_id", votes, H, left, vt(ctx, "Precommit"))
    pr = mk("call", "ProposalCollector::get", props, H, left)
    fk = variant_of(ctx, f, fw, "FromWhere")
    fr = None
    if fk:
        i = [v["n"] for v in ctx.prog.adts[ctx.adt("FromWhere")]["v"]].index(fk)
        fr = ctx.eng0().field(fw, i, 0, "0", 1, ctx.adt("FromWhere"))
    away = f.query(EQ(left, fr)) if fr is not None else None
    if name in ("UpdateFromHigherPrevoteQC", "UpdateFromHigherPrecommitQC", "UpdateFromHigherChokeQC"):
        want = {"UpdateFromHigherPrevoteQC": "PrevoteQC", "UpdateFromHigherPrecommitQC": "PrecommitQC",
                "UpdateFromHigherChokeQC": "ChokeQC"}[name]
        if fk != want:
            return f"the round was entered by {fk}", name
        if away is not False:
            return "the certificate is of the round that was left", name
        args = r.a[3:]
        if not any(same(f, x, left) for x in args) or not any(same(f, x, fr) for x in args):
            return "rounds of another change", name
        return None, name
    if away is not True and fk is not None:
        return "a certificate of a later round led here", name
    if name == "LeaderReceivedVoteBelowThreshold":
        k = variant_of(ctx, f, r.a[3], "VoteType")
        if lead is not True:
            return "the node was not the leader", name
        if k == "Precommit" and not (is_ok(f, qp) and f.query(EMPTY(ctx.get(okval(ctx, qp), "AggregatedVote", "block_hash"))) is False):
            return "no prevote certificate for a block is known", name + k
        if k == "Prevote" and is_ok(f, qp) and f.query(EMPTY(ctx.get(okval(ctx, qp), "AggregatedVote", "block_hash"))) is not True:
            return "there is a prevote certificate for a block", name + k
        return None, name + str(k)
    if lead is not False:
        return "the node may have been the leader", name
    if name == "NoProposalFromNetwork":
        return (None if is_err(f, pr) else "a proposal is known"), name
    if name == "CheckBlockNotPass":
        h = ctx.get(ctx.get(fld_of(okval(ctx, pr), 0), "SignedProposal", "proposal"), "Proposal", "block_hash")
        return (None if is_ok(f, pr) and (is_none(f, mk("get", marks, h)) or
                        f.query(mk("contains", marks, h)) is False) else "the block was checked"), name
    if name == "NoPrevoteQCFromNetwork":
        return (None if is_ok(f, pr) and is_err(f, qp) else "there is a prevote certificate"), name
    if name == "NoPrecommitQCFromNetwork":
        return (None if is_ok(f, pr) and is_ok(f, qp) and is_err(f, qc) else "not the missing precommit certificate"), name
    if name == "Others":
        return (None if is_ok(f, pr) and is_ok(f, qp) and is_ok(f, qc) else "the reason is known"), name
    return "unknown reason", name


def vt(ctx, k):
    return ctx.mkagg("VoteType", k)


# ------------------------------------------------------------------------------------------------ C38
def c38(ctx):
    pw = ctx.get(S, "State", "consensus_power")
    n = 0
    OUT = ("broadcast", "transmit", "trigger", "wal", "commit", "sign", "col", "get_block", "view_change", "spawned", "spawn",
           "smrevent", "resp", "pverify", "write", "check_block", "aggregate")
    for lab, p, A in all_paths(ctx):
        if not lab.startswith("message ") and lab != "start":
            continue
        q = p.facts.query(pw)
        if q is False:
            n += 1
            if lab == "message RichStatus":
                continue
            if lab == "message Stop":
                continue
            ctx.ob("a node outside the authority list does not act on messages", lab,
                   not [a for a in A if a.k in OUT], desc(lab, p, "", A), "")
        elif lab not in ("message RichStatus", "message Stop"):
            acting = [a for a in A if a.k in OUT]
            ctx.ob("a message is handled only by a member of the authority list", lab, q is True or not acting,
                   desc(lab, p, "", A), where(acting[0].e) if acting else "")
    for lab, p, A in all_paths(ctx):
        # after adopting a status without power the node is silent
        for a in A:
            if a.k in ("broadcast", "transmit", "wal", "sign", "trigger") and \
                    any(b.k == "write" and b.path == ("self", "consensus_power") and b.i < a.i for b in A) and \
                    not (a.k == "trigger" and tname(a.tt) == "Stop"):
                ctx.ob("a node that left the authority list stays silent", f"{lab}: {a.k}",
                       a.facts.query(now(ctx, a, "consensus_power")) is True, desc(lab, p, "", A), where(a.e))
        for a in A:
            if a.k == "write" and a.path == ("self", "consensus_power"):
                n += 1
                sts = statuses(ctx, lab, p, A)
                good = bool(sts) and power_term(ctx, a, sts[-1])
                ctx.ob("membership is decided by the authority list of the adopted status", lab, good,
                       desc(lab, p, show(a.val)[:300], A), where(a.e))
    # a status still brings it back, and a stop request is obeyed
    back = [1 for lab, p, A in paths_of(ctx, "message RichStatus") if p.facts.query(pw) is not True and newheight(A)]
    stop = [1 for lab, p, A in paths_of(ctx, "message Stop") if p.facts.query(pw) is not True and
            any(a.k == "trigger" and tname(a.tt) == "Stop" for a in A)]
    ctx.floor("status handled without power", len(back), 1)
    ctx.floor("stop handled without power", len(stop), 1)
    # main loop: events and check results
    eng, ps, bodies = main_loop(ctx)
    m = 0
    for arm, v, item, evs, bf in bodies:
        if arm not in ("event", "resp"):
            continue
        for e in evs:
            if e.name in ("State::handle_event", "State::handle_resp"):
                m += 1
                node = e.args[0]
                ctx.ob("events and check results are handled only by a member of the authority list",
                       f"main loop: {arm}", e.facts.query(ctx.get(node, "State", "consensus_power")) is True,
                       pathdesc(e.facts), where(e))
    ctx.floor("main loop arm", m, 2)
    ctx.floor("path of a non-member", n, 5)
    # initial membership
    eng, ps = state_new(ctx)
    for p in ps:
        st = p.ret.a[3] if p.ret.op == "agg" and p.ret.a[0] == "tuple" else p.ret
        au = ctx.get(st, "State", "authority")
        cp = ctx.get(st, "State", "consensus_power")
        want = mk("call", "AuthorityManage::contains", au, ctx.get(st, "State", "address"))
        q = p.facts.query(want)
        good = cp is want or (cp.op == "int" and q is bool(cp.a[0]))
        ctx.ob("a new node is a member exactly when its address is in the authority list", "State::new",
               good and au.op == "mut" and any(x is mk("sym", "new.authority_list") for x in subterms(au)),
               f"{show(cp)} of {show(au)}"[:500], "src/state/process.rs")


def power_term(ctx, a, st):
    lst = ctx.get(st, "Status", "authority_list")
    v = a.val
    if v.op == "int":
        c = [l for l, b in a.facts.literals() if b == bool(v.a[0])]
    else:
        c = [v]
    # the answer itself, not a combination with something else
    c = [t for t in c if t.op not in ("or", "and", "not", "xor", "bin")]
    return any(same_any(ctx, t, lst, ctx.get(S, "State", "address")) for t in c)


def state_new(ctx):
    k = ctx.fn("State::new")
    b = ctx.prog.bodies[k]
    args = []
    seen = set()
    for i in range(b.argc):
        t = b.locals[i + 1][0]
        if "Vec<" in t and "Node" in t:
            args.append(mk("sym", "new.authority_list"))
        else:
            args.append(mk("sym", f"new.{i}"))
    return run_root(ctx, "State::new", args, name="State::new", pre=mk("sym", "nothing"))


# ------------------------------------------------------------------------------------------------ C42
def c42(ctx):
    n = {"own": 0, "net": 0}
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k != "trigger" or tname(a.tt) != "ContinueRound":
                continue
            why, kind = skip_fault(ctx, lab, p, A, a)
            if kind:
                n[kind] += 1
            ctx.ob("a round is skipped only on the chokes of more than two thirds of the nodes", f"{lab}: {kind}",
                   why is None, desc(lab, p, why or "", A), where(a.e))
            ctx.ob("the certificate that led to the new round is kept", f"{lab}: {kind}",
                   any(b.k == "col" and b.fn == "ChokeCollector::set_qc" and b.i < a.i and
                       same(a.facts, ADD(b.args[0], INT(1)), a.round) for b in A), desc(lab, p, "", A), where(a.e))
            ctx.ob("skipping stays on the height of the node", f"{lab}: {kind}", same(a.facts, a.height, now(ctx, a, "height")),
                   desc(lab, p, "", A), where(a.e))
    ctx.floor("round skipped by own chokes", n["own"], 2)
    ctx.floor("round skipped by a received certificate", n["net"], 1)


def skip_fault(ctx, lab, p, A, a):
    f = a.facts
    H, R, au = now(ctx, a, "height"), now(ctx, a, "round"), now(ctx, a, "authority")
    qs = [b for b in A if b.k == "col" and b.fn == "ChokeCollector::set_qc" and b.i < a.i]
    if not qs:
        return "no choke certificate is made or received", None
    b = qs[-1]
    q = b.args[1]
    g = lambda x: ctx.get(q, "AggregatedChoke", x)  # noqa
    N = mk("call", "AuthorityManage::len", au)
    if not same(f, b.args[0], g("round")):
        return "the certificate is filed under another round", None
    if not same(f, g("height"), H):
        return "chokes of another height", None
    if not same(f, a.round, ADD(g("round"), INT(1))):
        return "the round entered is not the one after the choked round", None
    sig, vs = g("signature"), g("voters")
    if own_agg(sig):
        c = sig.a[0]
        # own certificate
        ch = None
        for t in facts_terms(f, "max_round_above_threshold"):
            if is_some(f, t) and same(f, someval(ctx, t), g("round")):
                ch = t
        if ch is None:
            return "the round is not known to have enough chokes", "own"
        if not same(f, ch.a[2], N):
            return "the threshold is not the number of nodes", "own"
        lst = None
        sbag, vbag = bag(c.a[2]), bag(c.a[3])
        src = vbag[0]
        rq = [t for t in facts_terms(f, "get_chokes") if is_some(f, t) and same(f, someval(ctx, t), src)]
        if not rq and src.op == "fld" and callname(src.a[0]) == "get_chokes":
            rq = [src.a[0]]
        if not rq or rq[0].a[1] is not ch.a[1] or not same(f, rq[0].a[2], g("round")):
            return "not the chokes of that round", "own"
        if sbag[0] is not src or sbag[2] or vbag[2]:
            return "not all chokes of the round are aggregated", "own"
        el = I.AT(src, mk("idx", src))
        if sbag[1] is not ctx.get(el, "SignedChoke", "signature") or vbag[1] is not ctx.get(el, "SignedChoke", "address"):
            return "signatures and addresses are not those of the chokes", "own"
        if not same_list(f, c.a[2], c.a[3]):
            return "signatures and addresses do not correspond", "own"
        if vs is not c.a[3] and bag(vs) != vbag:
            return "the certificate names other voters", "own"
        return None, "own"
    # received
    for t in facts_terms(f, "verify_aggregated_signature"):
        if not is_ok(f, t) or t.a[1] is not now(ctx, a, "util"):
            continue
        if not same(f, t.a[2], sig) or not same(f, t.a[4], vs):
            continue
        if not same_enc(ctx, f, hashed(t.a[3]), ctx.mkagg("HashChoke", height=g("height"), round=g("round"))):
            return "the signature is checked over another height or round", "net"
        if not any(above_nodes(l, v, N, vs) for l, v in f.literals()):
            return "two thirds of the nodes are not required", "net"
        why = voters_fault(ctx, p, f, vs, au)
        return why, "net"
    return "the aggregated signature is not verified", "net"


def own_agg(sig):
    return sig.op == "fld" and isinstance(sig.a[0], T) and callname(sig.a[0]) == "aggregate_signatures"


def above_nodes(l, v, N, vs):
    ab = above(l, v)
    return ab is not None and ab[1] is N and callname(ab[0]) == "len" and ab[0].a[-1] is vs


def voters_fault(ctx, p, f, vs, au):
    """every voter is a member and none occurs twice, on every way through the loop over the voters"""
    member = distinct = False
    for e in p.st.events():
        if e.name != "loop":
            continue
        mem = dis = bool(e.x)
        for sub, fx in e.x:
            m = d = False
            for l, v in fx.literals():
                for t in subterms(l):
                    if callname(t) == "contains" and t.op == "call" and t.a[1] is au and t.a[2].op == "at" and \
                            all_of(t.a[2].a[0], vs) and fx.query(t) is True:
                        m = True
                    if t.op == "contains" and t.a[1].op == "at" and t.a[1].a[0] is vs and fx.query(t) is False:
                        d = True
            mem &= m
            dis &= d
        member |= mem
        distinct |= dis
    for l, v in f.literals():
        for t in subterms(l):
            if t.op == "all" and t.a[0] is vs and f.query(t) is True:
                el = I.AT(vs, mk("idx", vs))
                if any(callname(x) == "contains" and x.op == "call" and x.a[1] is au and x.a[2] is el for x in subterms(t)):
                    member = True
            # no element is there that is no member
            if t.op == "any" and all_of(t.a[0], vs) and f.query(t) is False:
                el = I.AT(t.a[0], mk("idx", t.a[0]))
                for c in t.a[1:]:
                    ls = case_lits(c)
                    if len(ls) == 1 and not ls[0][1] and ls[0][0].op == "call" and callname(ls[0][0]) == "contains" and \
                            ls[0][0].a[1] is au and ls[0][0].a[2] is el:
                        member = True
    if not distinct:
        distinct = set_size(f, vs)
    if not member:
        return "a voter may not be a member"
    if not distinct:
        return "a voter may be counted twice"
    return None


def all_of(c, vs):
    """every element of vs is an element of c"""
    return c is vs or c.op == "fold" and c.a[0] in ("sinsert", "push") and bag(c) == (vs, I.AT(vs, mk("idx", vs)), [])


def set_size(f, vs):
    """|set of voters| == |voters| (the set is never larger)"""
    for l, v in f.literals():
        if (l.op == "eq" and v or l.op == "lt" and not v) and all(isinstance(x, T) and callname(x) == "len" for x in l.a):
            ls = [x.a[-1] for x in l.a]
            for x, y in (ls, ls[::-1]) if l.op == "eq" else (ls[::-1],):
                # (of those voters which satisfy some condition, if any: then all of them do)
                if x is vs and y.op == "fold" and y.a[0] == "sinsert" and bag(y)[0] is vs and \
                        bag(y)[1] is I.AT(vs, mk("idx", vs)):
                    return True
                # in order, each once
                if x is vs and y.op == "mut" and str(y.a[0]).split("::")[-1] == "dedup" and y.a[2].op == "sorted" and y.a[2].a[0] is vs:
                    return True
    return False


RULES = {"C07": c07, "C08": c08, "C09": c09s, "C13": c13, "C14": c14, "C22": c22, "C23": c23, "C24": c24, "C25": c25, "C26": c26,
         "C27": c27, "C29": c29, "C35": c35, "C38": c38, "C42": c42}
