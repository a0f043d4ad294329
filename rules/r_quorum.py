"""Rules about signatures, quorums, membership and vote counting (C01-C06, C31, C42)."""
from lib import *

PEER = ("SignedProposal", "SignedVote", "AggregatedVote", "SignedChoke")
CTXSYM = mk("sym", "ctx")


# ---------------------------------------------------------------------------------------------- main loop
def main_loop(ctx):
    """body paths of the node's main loop: [(arm, variant, [events])]; the raw and verified channels deliver every
    kind of message"""
    if "mainloop" in ctx.cache:
        return ctx.cache["mainloop"]
    syms = {"raw": mk("sym", "raw_rx"), "event": mk("sym", "event_rx"), "resp": mk("sym", "resp_rx"),
            "verified": mk("sym", "verified_rx")}
    kinds = list(MSGS) + ["Stop"]

    def h(eng, ref, sv, st, site):
        for n, t in syms.items():
            if sv is t:
                vals = [mk("sym", "item." + n)] if n in ("event", "resp") else \
                    [tup(mk("sym", "ctx." + n), msg_value(ctx, k)) for k in kinds]
                out = []
                for v in vals:
                    s = st.copy()
                    v = some(v) if n in ("raw", "verified") else v
                    s.emit(Ev("arm", (v,), None, s.facts, site, None, n, s.chain))
                    out.append((s, ready(v)))
                return out
        return None

    atoms = STATE_ATOMS | {"State::handle_msg", "State::handle_event", "State::handle_resp", "State::start_with_wal"}
    k = ctx.fn("State::run")
    eng, ps = run_root(ctx, "State::run", [SELF] + arm_args(ctx, k, syms), atoms=atoms, hooks={"recv": h}, name="run")
    bodies = []
    seen = set()
    for p in ps:
        for e in p.st.events():
            if e.name == "loop":
                for sub, f in e.x:
                    key = tuple(id(x) for x in sub)
                    if key in seen:
                        continue
                    seen.add(key)
                    bodies.append((flat(sub, True), f))
    out = []
    for evs, f in bodies:
        arms = [e for e in evs if e.name == "arm"]
        if len(arms) != 1:
            continue
        v = arms[0].args[0]
        m = None
        if v.op == "agg" and v.a[2] == "Some":
            m = v.a[3].a[4].a[2]
        out.append((arms[0].x, m, v, [e for e in evs if e.name != "arm"], f))
    ctx.cache["mainloop"] = (eng, ps, out)
    return ctx.cache["mainloop"]


def arm_args(ctx, key, syms):
    """the channels of the main loop in its parameter order (two have the same type: the first is the network's)"""
    b = ctx.prog.bodies[key]
    out, seen = [], 0
    for i in range(1, b.argc):
        t = b.locals[i + 1][0]
        if "VerifyResp" in t:
            out.append(syms["resp"])
        elif "Event" in t and "Overlord" not in t:
            out.append(syms["event"])
        else:
            out.append(syms["raw" if seen == 0 else "verified"])
            seen += 1
    return out


def msg_height(ctx, variant):
    m = mk("sym", MSGS[variant])
    if variant == "SignedProposal":
        return ctx.get(ctx.get(m, "SignedProposal", "proposal"), "Proposal", "height")
    if variant == "SignedVote":
        return ctx.get(ctx.get(m, "SignedVote", "vote"), "Vote", "height")
    if variant == "AggregatedVote":
        return ctx.get(m, "AggregatedVote", "height")
    return ctx.get(ctx.get(m, "SignedChoke", "choke"), "Choke", "height")


def msg_round(ctx, variant):
    m = mk("sym", MSGS[variant])
    if variant == "SignedProposal":
        return ctx.get(ctx.get(m, "SignedProposal", "proposal"), "Proposal", "round")
    if variant == "SignedVote":
        return ctx.get(ctx.get(m, "SignedVote", "vote"), "Vote", "round")
    if variant == "AggregatedVote":
        return ctx.get(m, "AggregatedVote", "round")
    return ctx.get(ctx.get(m, "SignedChoke", "choke"), "Choke", "round")


def self_of(e):
    """the node value an opaque method call was made on"""
    return e.args[0]


CACHE_ONLY = {"ProposalCollector::insert", "VoteCollector::insert_vote", "VoteCollector::set_qc"}


def c02(ctx):
    nver = nh = 0
    eng, ps, bodies = main_loop(ctx)
    arms = set()
    for arm, v, item, evs, bf in bodies:
        arms.add((arm, v))
        lab = f"main loop: {arm} {v or ''}".strip()
        eff = [e for e in evs if not e.name.startswith("&mut ") and e.name not in ("Consensus::report_error", "write")]
        for e in eff:
            n = e.name
            raw = item.a[3].a[4] if v else None
            if arm == "raw" and n == "parallel_verify":
                w = e.args
                node = w[2].a[0] if w[2].op == "fld" else None
                good = v in PEER and w[1] is raw and node is not None and all(
                    w[i] is ctx.get(node, "State", f)
                    for i, f in ((2, "util"), (3, "authority"), (4, "verify_sig_tx")))
                nver += 1
                ctx.ob("a peer message is handed to verification unchanged, with the node's own crypto and "
                       "authority list", lab, good,
                       f"{v} is verified as {[show(x) for x in w]}\n path: {pathdesc(e.facts)}", where(e))
            elif arm == "raw" and n == "UnboundedSender::unbounded_send":
                ctx.ob("only local commands enter the channel of verified messages unverified", lab,
                       v in ("RichStatus", "Stop") and e.args[1] is item.a[3],
                       f"a raw {v} is put into a channel unverified\n path: {pathdesc(e.facts)}", where(e))
            elif arm == "raw" and n == "State::handle_msg":
                nh += 1
                ok_ = v in ("RichStatus", "Stop")
                if v in PEER:
                    H = ctx.get(e.args[0], "State", "height")
                    ok_ = e.facts.query(LT(H, msg_height(ctx, v))) is True and e.args[2] is raw
                ctx.ob("an unverified peer message is handled directly only for a future height", lab, ok_,
                       f"{v} reaches the handlers without verification\n path: {pathdesc(e.facts)}", where(e))
            elif arm == "verified" and n == "State::handle_msg":
                ctx.ob("a verified message is handled as it is", lab, e.args[2] is raw, show(e.args[2]), where(e))
            elif arm == "event" and n == "State::handle_event" or arm == "resp" and n == "State::handle_resp":
                ctx.ob("internal events are handled as they are", lab, e.args[1] is item, show(e.args[1]), where(e))
            else:
                ctx.ob("the main loop has no other effect", f"{lab}: {n}", False,
                       f"{n}({', '.join(show(a)[:200] for a in e.args)})\n path: {pathdesc(e.facts)}", where(e))
    ctx.floor("kinds of items handled", len(arms), 14)
    ctx.floor("hand-over to verification", nver, 4)
    # a future-height message only fills caches, which are verified when the height is reached (C23)
    for v in PEER:
        h = msg_height(ctx, v)
        N = Node(ctx)
        nf = 0
        for lab, p, A in paths_of(ctx, "message " + v):
            f = p.facts.assume(LT(N.height, h))
            if f is None:
                continue
            nf += 1
            bad = [a for a in A if a.k in ("trigger", "resp", "broadcast", "transmit", "commit", "wal", "sign", "pverify",
                                           "aggregate", "spawn", "spawned", "get_block", "check_block", "view_change",
                                           "send", "smrevent") or a.k == "col" and a.fn not in CACHE_ONLY
                   or a.k == "write" and a.path and not cachepath(a.path)]
            ctx.ob("a message of a future height only fills caches", inst2(lab, "future height"), not bad,
                   desc(lab, p, "an unverified message has effects: " + repr(bad[:3]), A))
        ctx.floor(f"future-height paths of {v}", nf, 1)
    verification_tasks(ctx)


def cachepath(path):
    """fields a cached future message may touch: the timing mark of the last proposal and nothing else"""
    return len(path) >= 2 and path[1] in ("height_start",)


def inst2(lab, x):
    return f"{lab}: {x}"


def tasks(ctx, variant, main=False):
    """paths of the verification of a message: spawned tasks, and the caller (main: only where it spawns nothing)"""
    ck = ("pv", variant, main)
    if ck not in ctx.cache:
        eng, ps = run_root(ctx, "parallel_verify",
                           [CTXSYM, msg_value(ctx, variant), mk("sym", "crypto"), mk("sym", "auth"), mk("sym", "tx")],
                           atoms=STATE_ATOMS - {"parallel_verify"}, name="pv/" + variant)
        outs = []
        for s2, r, pos, ch in eng.spawned:
            outs.append((s2.facts, flat(s2.events(pos))))
        for p in ps:
            if not main or not any(e.name in ("spawned", "spawn") for e in p.evs):
                outs.append((p.facts, [e for e in p.evs if e.name not in ("spawned", "spawn")]))
        ctx.cache[ck] = outs
    return ctx.cache[ck]


def verified_sig(ctx, facts, crypto, sig, payload, who):
    """the path has checked sig by who over the hash of the encoded payload"""
    for t in facts_terms(facts, "verify_signature"):
        if is_ok(facts, t):
            a = t.a[1:]
            if len(a) == 4 and a[0] is crypto and facts.same(a[1], sig) and facts.same(a[3], who) and \
                    same_enc(ctx, facts, hashed(a[2]), payload):
                return True
    return False


def facts_terms(facts, name):
    """calls of `name` mentioned in the path condition"""
    out = []
    seen = set()
    for t, _v in facts.literals():
        for s in subterms(t, seen):
            if s.op == "call" and callname(s) == name and s not in out:
                out.append(s)
    return out


def same_enc(ctx, facts, a, b):
    return a is not None and (a is b or facts.same(a, b))


def qc_vote(ctx, qc):
    """the vote a certificate stands for"""
    g = lambda n: ctx.get(qc, "AggregatedVote", n)  # noqa
    return ctx.mkagg("Vote", height=g("height"), round=g("round"), vote_type=g("vote_type"), block_hash=g("block_hash"))


def qc_verified(ctx, facts, crypto, auth, qc):
    """weight above threshold and aggregated signature of exactly those members checked; -> reason or None"""
    sg = ctx.get(qc, "AggregatedVote", "signature")
    bm = ctx.get(sg, "AggregatedSignature", "address_bitmap")
    sig = ctx.get(sg, "AggregatedSignature", "signature")
    thr = any(is_ok(facts, t) and t.a[1] is auth and facts.same(t.a[2], bm) and
              facts.query(okval(ctx, t)) is True for t in facts_terms(facts, "is_above_threshold"))
    if not thr:
        return "the weight of the signers is not shown to be above the threshold"
    for t in facts_terms(facts, "verify_aggregated_signature"):
        if not is_ok(facts, t):
            continue
        a = t.a[1:]
        voters = a[3]
        if a[0] is crypto and facts.same(a[1], sig) and same_enc(ctx, facts, hashed(a[2]), qc_vote(ctx, qc)):
            vs = [t2 for t2 in subterms(voters) if callname(t2) == "get_voters" and t2.op == "call"]
            if any(voters is okval(ctx, t2) and t2.a[1] is auth and facts.same(t2.a[2], bm) for t2 in vs):
                return None
    return "the aggregated signature of the members in the bitmap over the certified vote is not checked"


def verification_tasks(ctx):
    tx, crypto, auth = mk("sym", "tx"), mk("sym", "crypto"), mk("sym", "auth")
    for v in PEER:
        m = mk("sym", MSGS[v])
        val = tup(CTXSYM, msg_value(ctx, v))
        nsend = 0
        for facts, evs in tasks(ctx, v):
            sends = [e for e in evs if e.name == "UnboundedSender::unbounded_send"]
            for e in evs:
                if e.name not in ("UnboundedSender::unbounded_send", "Crypto::hash", "Crypto::verify_signature",
                                  "Crypto::verify_aggregated_signature", "spawn", "spawned", "write"):
                    ctx.ob("verification has no side effect", f"verify {v}: {e.name}", False, pathdesc(facts), where(e))
            for e in sends:
                nsend += 1
                f = e.facts
                ctx.ob("the message passed on is the message verified", f"verify {v}",
                       e.args[0] is tx and e.args[1] is val, f"passes on {show(e.args[1])} to {show(e.args[0])}", where(e))
                why = None
                if v == "SignedProposal":
                    pr = ctx.get(m, v, "proposal")
                    if not verified_sig(ctx, f, crypto, ctx.get(m, v, "signature"), pr, ctx.get(pr, "Proposal", "proposer")):
                        why = "the proposer's signature over the proposal is not checked"
                elif v == "SignedVote":
                    vt = ctx.get(m, v, "vote")
                    if not verified_sig(ctx, f, crypto, ctx.get(m, v, "signature"), vt, ctx.get(m, v, "voter")):
                        why = "the voter's signature over the vote is not checked"
                elif v == "SignedChoke":
                    ck = ctx.get(m, v, "choke")
                    body = hash_choke(ctx, ck)
                    if not verified_sig(ctx, f, crypto, ctx.get(m, v, "signature"), body, ctx.get(m, v, "address")):
                        why = "the signature over the choke is not checked"
                elif v == "AggregatedVote":
                    why = qc_verified(ctx, f, crypto, auth, m)
                ctx.ob("a message is passed on only with a valid signature of its claimed author", f"verify {v}",
                       why is None, f"{why}\n path: {pathdesc(f)}", where(e))
            ctx.ob("a message is passed on at most once", f"verify {v}", len(sends) <= 1, pathdesc(facts))
        ctx.floor(f"verified hand-over of {v}", nsend, 1)


def hash_choke(ctx, ck):
    return ctx.mkagg("HashChoke", height=ctx.get(ck, "Choke", "height"), round=ctx.get(ck, "Choke", "round"))


# ---------------------------------------------------------------------------------------------- C01
def weight_fold(ctx, t, addrs, bits_of=None, wmap=None, auth=None):
    """t = sum of the weights of the members whose bit is set"""
    if t.op != "fold" or t.a[0] != "+" or t.a[2] is not INT(0) or len(t.a) != 4:
        return False
    bc = bit_case(ctx, t.a[3], bits_of, addrs)
    if bc is None:
        return False
    addr, elem, rest = bc
    if rest:
        return False
    for w in (someval(ctx, mk("get", wmap, addr)), mk("get", wmap, addr)):
        if elem is w:
            return True
    return False


def auth_view(ctx):
    g = lambda n: ctx.get(S, "AuthorityManage", n)  # noqa
    return g("address"), g("vote_weight_map"), g("vote_weight_sum")


def threshold_rule(ctx):
    bm = mk("sym", "bm")
    addrs, wmap, wsum = auth_view(ctx)
    eng, ps = run_root(ctx, "AuthorityManage::is_above_threshold", [SELF, bm], atoms=(), name="thr")
    n = 0
    for p in ps:
        if is_err(p.facts, p.ret):
            continue
        x = okval(ctx, p.ret)
        good = False
        if x.op == "int":
            lits = [above(l, v) for l, v in p.facts.literals()]
            lits = [l for l in lits if l]
            neg = [above(NOT(l), not v) for l, v in p.facts.literals()]
            good = not x.a[0] or any(weight_fold(ctx, a, addrs, bm, wmap) and s is wsum for a, s in lits)
            n += bool(x.a[0])
        else:
            ab = above(x, True)
            good = ab is not None and ab[1] is wsum and weight_fold(ctx, ab[0], addrs, bm, wmap)
            n += 1
        ctx.ob("a bitmap is above the threshold only when 3 times the weight of its members exceeds twice the total "
               "weight", "AuthorityManage::is_above_threshold", good, f"returns {show(p.ret)}\n path: {pathdesc(p.facts)}",
               "utils/auth_manage.rs")
    ctx.floor("threshold test", n, 1)
    eng, ps = run_root(ctx, "AuthorityManage::get_voters", [SELF, bm], atoms=(), name="voters")
    for p in ps:
        if is_err(p.facts, p.ret):
            continue
        x = okval(ctx, p.ret)
        ctx.ob("the members of a bitmap are those whose bit is set, each once", "AuthorityManage::get_voters",
               members_fold(ctx, x, addrs, bm), f"returns {show(p.ret)}", "utils/auth_manage.rs")


def members_fold(ctx, x, addrs, bits_of, proj=None):
    if x.op != "fold" or x.a[0] not in ("push", "Vec::push") or x.a[2] is not EMPTYC or len(x.a) != 4:
        return False
    bc = bit_case(ctx, x.a[3], bits_of, addrs)
    if bc is None:
        return False
    addr, elem, rest = bc
    return not rest and (elem is addr if proj is None else elem is proj(addr))


def weight_setters(ctx):
    """the public constructor and setters of a list entry"""
    fields = ("address", "propose_weight", "vote_weight")
    for short, want in (("Node::new", {"address": "x", "propose_weight": 1, "vote_weight": 1}),
                        ("Node::set_propose_weight", {"propose_weight": "x"}), ("Node::set_vote_weight", {"vote_weight": "x"})):
        if not ctx.prog.by_short.get(short):
            continue
        x = mk("sym", "x")
        eng, ps = run_root(ctx, short, [x] if short == "Node::new" else [SELF, x], atoms=(), name=short)
        for p in ps:
            node = p.ret if short == "Node::new" else p.post
            got = {n: ctx.get(node, "Node", n) for n in fields}
            exp = {n: (x if want[n] == "x" else INT(want[n])) if n in want else ctx.get(S, "Node", n) for n in fields}
            ctx.ob("a member has the weight it was given, one if none was", short, got == exp and len(ps) == 1,
                   str({n: show(v)[:80] for n, v in got.items()}), "types.rs")


def update_rule(ctx):
    """the total weight is the sum of the members' weights; the map gives each member's own weight"""
    weight_setters(ctx)
    lst = mk("sym", "list")
    i, n, pth = ctx.field("AuthorityManage", "address")
    eng, ps = run_root(ctx, "AuthorityManage::update", [SELF, mk("ref", ("D", lst), (), "mut")], atoms=(), name="upd")
    k = 0
    for p in ps:
        g = lambda nme: ctx.get(p.post, "AuthorityManage", nme)  # noqa
        src = mk("sorted", lst)
        el = I.AT(src, mk("idx", src))
        nd = lambda f: ctx.get(el, "Node", f)  # noqa
        a, w, s, pw, ps_ = g("address"), g("vote_weight_map"), g("vote_weight_sum"), g("propose_weights"), g("propose_weight_sum")
        k += 1
        is_fold = lambda t, op, e, init: (t.op == "fold" and t.a[0] == op and t.a[1] is src and t.a[2] is init and  # noqa
                                          len(t.a) == 4 and t.a[3].a[0] is e and len(t.a[3].a) == 1)
        good = is_fold(a, "push", nd("address"), EMPTYC)
        ctx.ob("the authority list is the sorted list of the given members, replacing the old one",
               "AuthorityManage::update address", good, f"address = {show(a)}", "utils/auth_manage.rs")
        good = is_fold(s, "+", nd("vote_weight"), INT(0))
        ctx.ob("the total vote weight is the sum over the members", "AuthorityManage::update vote_weight_sum", good,
               f"vote_weight_sum = {show(s)}", "utils/auth_manage.rs")
        ctx.ob("each member has its own vote weight", "AuthorityManage::update vote_weight_map",
               map_fold(w, src, nd("address"), nd("vote_weight")), f"vote_weight_map = {show(w)}", "utils/auth_manage.rs")
        ctx.ob("propose weights follow the order of the members", "AuthorityManage::update propose_weights",
               is_fold(pw, "push", nd("propose_weight"), EMPTYC) and is_fold(ps_, "+", nd("propose_weight"), INT(0)),
               f"propose_weights = {show(pw)}; sum = {show(ps_)}", "utils/auth_manage.rs")
    ctx.floor("authority update", k, 1)


def map_fold(w, src, key, val):
    if w.op == "fold" and w.a[1] is src and w.a[2] is EMPTYC and len(w.a) == 4:
        c = w.a[3].a[0]
        return c.op == "agg" and len(c.a) >= 5 and c.a[3] is key and c.a[4] is val and len(w.a[3].a) == 1
    return False


def c01(ctx):
    threshold_rule(ctx)
    update_rule(ctx)
    tx, crypto, auth = mk("sym", "tx"), mk("sym", "crypto"), mk("sym", "auth")
    # certificates from the network: in their own message or inside a proposal
    nq = 0
    for v in ("AggregatedVote", "SignedProposal"):
        m = mk("sym", MSGS[v])
        for facts, evs in tasks(ctx, v):
            for e in evs:
                if e.name != "UnboundedSender::unbounded_send":
                    continue
                f = e.facts
                if v == "AggregatedVote":
                    why = qc_verified(ctx, f, crypto, auth, m)
                else:
                    lk = ctx.get(ctx.get(m, v, "proposal"), "Proposal", "lock")
                    if is_none(f, lk):
                        continue
                    polc = someval(ctx, lk)
                    why = qc_verified(ctx, f, crypto, auth, ctx.get(polc, "PoLC", "lock_votes"))
                nq += 1
                ctx.ob("a certificate from a peer is accepted only with a valid aggregate signature of more than two "
                       "thirds of the vote weight", f"verify {v}", why is None, f"{why}\n path: {pathdesc(f)}", where(e))
    ctx.floor("certificate from the network", nq, 2)
    # a lock presented by a proposal is a prevote certificate for that very proposal
    nl = 0
    m = mk("sym", "sp")
    pr = ctx.get(m, "SignedProposal", "proposal")
    g = lambda n: ctx.get(pr, "Proposal", n)  # noqa
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "trigger" and tname(a.tt) == "Proposal" and lab == "message SignedProposal":
                lr = a.lock_round
                f = a.facts
                if is_none(f, lr):
                    ctx.ob("a proposal without a lock claims none", inst2(lab, "no lock"), is_none(f, g("lock")),
                           desc(lab, p, "a lock of the proposal is ignored or forged", A), where(a.e))
                    continue
                nl += 1
                polc = someval(ctx, g("lock"))
                qc = ctx.get(polc, "PoLC", "lock_votes")
                q = lambda n: ctx.get(qc, "AggregatedVote", n)  # noqa
                r = someval(ctx, lr)
                why = None
                if not is_some(f, g("lock")):
                    why = "lock round without a lock"
                elif not f.same(r, q("round")):
                    why = "the lock round is not the round of the certificate"
                elif variant_of(ctx, f, q("vote_type"), "VoteType") != "Prevote":
                    why = "the certificate is not a prevote certificate"
                elif not f.same(q("height"), g("height")):
                    why = "the certificate is of another height"
                elif not f.same(q("block_hash"), g("block_hash")):
                    why = "the certificate is for another block"
                elif f.query(EMPTY(q("block_hash"))) is not False:
                    why = "the certificate may be for no block"
                elif f.query(LT(r, g("round"))) is not True:
                    why = "the lock round is not an earlier round"
                ctx.ob("a lock shown by a proposal is an earlier prevote certificate of this height for this block",
                       inst2(lab, "lock"), why is None, desc(lab, p, str(why), A), where(a.e))
    ctx.floor("proposal with lock", nl, 1)
    # where certificates used by the node come from
    ns = 0
    av = mk("sym", "av")
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "col" and a.fn == "VoteCollector::set_qc":
                ns += 1
                q = a.args[0]
                src = None
                if lab == "message AggregatedVote" and q is av:
                    src = "network"
                elif q.op == "agg" and local_qc(ctx, p, a, q) is None:
                    src = "own counting"
                elif lab == "start" and from_wal(q):
                    src = "log"
                ctx.ob("a certificate is stored only when verified, built from counted votes, or read from the own log",
                       inst2(lab, "stored certificate"), src is not None,
                       desc(lab, p, "certificate of unknown origin: " + show(q)[:600], A), where(a.e))
            if a.k == "trigger" and tname(a.tt) in ("PrevoteQC", "PrecommitQC"):
                why = qc_trigger(ctx, lab, p, A, a)
                ns += 1
                ctx.ob("a quorum is reported to the voting rules only for a stored certificate of that kind, round and "
                       "block", inst2(lab, tname(a.tt)), why is None, desc(lab, p, str(why), A), where(a.e))
    ctx.floor("use of a certificate", ns, 10)


def from_wal(t):
    return any(x.op == "res" and callname(x) == "load" for x in subterms(t)) or \
        any(callname(x) == "load" for x in subterms(t) if x.op in ("call", "ucall", "res"))


def col_before(a, A, fn):
    return [b for b in A if b.k == "col" and b.fn == fn and b.i < a.i]


def qc_trigger(ctx, lab, p, A, a):
    """a QC trigger speaks about a certificate known to the collector"""
    f = a.facts
    kind = {"PrevoteQC": "Prevote", "PrecommitQC": "Precommit"}[tname(a.tt)]
    cands = [b.args[0] for b in col_before(a, A, "VoteCollector::set_qc")]
    for t in facts_terms(f, "get_qc_by_id"):
        if is_ok(f, t):
            cands.append(okval(ctx, t))
    for t in facts_terms(f, "get_qc_by_hash"):
        if is_some(f, t):
            cands.append(someval(ctx, t))
    why = "no certificate is known on this path"
    for q in cands:
        g = lambda n: ctx.get(q, "AggregatedVote", n)  # noqa
        vt = g("vote_type")
        call = next((t for t in subterms(q) if t.op == "call" and callname(t) in ("get_qc_by_id", "get_qc_by_hash")), None)
        kinds = {variant_of(ctx, f, vt, "VoteType")}
        hh, rr, bb = [g("height")], [g("round")], [g("block_hash")]
        if call is not None and q in (okval(ctx, call), someval(ctx, call)):
            # the collector files a certificate under its own height, round, kind and block (C05)
            if callname(call) == "get_qc_by_id":
                hh.append(call.a[2]), rr.append(call.a[3])
                kinds.add(variant_of(ctx, f, call.a[4], "VoteType"))
            else:
                hh.append(call.a[2]), bb.append(call.a[3])
                kinds.add(variant_of(ctx, f, call.a[4], "VoteType"))
        if kind not in kinds and not (kinds == {None} and trig_kind_follows(ctx, f, a, vt, call)):
            why = f"the certificate is not shown to be a {kind} certificate"
        elif not any(f.same(a.height, x) for x in hh):
            why = "height of another certificate"
        elif not any(f.same(a.round, x) for x in rr):
            why = "round of another certificate"
        elif not any(f.same(a.hash, x) for x in bb):
            why = "block of another certificate"
        else:
            return None
    return why


def trig_kind_follows(ctx, f, a, vt, call):
    return False


# ---------------------------------------------------------------------------------------------- C04
def is_votes_of(ctx, t, H, R, V, X, facts):
    """t = the stored votes (get_votes) of height, round, kind and block"""
    for s in subterms(t):
        if s.op == "call" and callname(s) == "get_votes" and t is okval(ctx, s):
            if facts.same(s.a[2], H) and facts.same(s.a[3], R) and facts.same(s.a[4], V) and facts.same(s.a[5], X):
                return s
    return None


def local_qc(ctx, p, a, q):
    """q is a certificate built from counted votes of the current position; reason why not"""
    f = a.facts
    N = Node(ctx, p.pre)
    g = lambda n: ctx.get(q, "AggregatedVote", n)  # noqa
    H, R, V, X = g("height"), g("round"), g("vote_type"), g("block_hash")
    sg = g("signature")
    if sg.op != "agg":
        return "signature of unknown origin"
    # the node's height and round at this moment
    sv = a.e.selfv
    NH, NR = ctx.get(sv, "State", "height") if sv is not None else N.height, \
        ctx.get(sv, "State", "round") if sv is not None else N.round
    AU = ctx.get(sv, "State", "authority") if sv is not None else N.authority
    if not (f.same(H, NH) and f.same(R, NR)):
        return "certificate for another position than the node's"
    # 1. threshold: the chosen block has more than two thirds of the weight among the votes of H, R, V
    why = counted(ctx, f, H, R, V, X, AU)
    if why:
        return why
    # 2. signature: aggregation of exactly the signatures of the stored votes for X with their voters
    sig = ctx.f(sg, "signature")
    bmp = ctx.f(sg, "address_bitmap")
    call = sig.a[0] if sig.op == "fld" else sig
    call = next((t for t in subterms(sig) if callname(t) == "aggregate_signatures" and t.op == "call"), None)
    if call is None or sig is not okval(ctx, call) or not is_ok(f, call):
        return "the signature is not the result of an aggregation"
    sigs, voters = call.a[2], call.a[3]
    src1, e1, l1 = bag(sigs)
    src2, e2, l2 = bag(voters)
    if src1 is not src2 or l1 or l2 or not same_list(f, sigs, voters):
        return "signatures and voters do not correspond"
    gv = is_votes_of(ctx, src1, H, R, V, X, f)
    if gv is None:
        return "the aggregated votes are not the stored votes for this block"
    el = I.AT(src1, mk("idx", src1))
    sv_ = ctx.eng0().field(el, None, 0, "0", 2, None)
    ok1 = e1 in proj(ctx, el, "signature")
    ok2 = e2 in proj(ctx, el, "voter")
    if not (ok1 and ok2):
        return f"aggregates {show(e1)} of {show(e2)}"
    # 3. bitmap: bit i set exactly for members among the voters
    if not bitmap_of(ctx, bmp, AU, voters):
        return "the bitmap is not the set of aggregated voters: " + show(bmp)[:400]
    if not f.same(g("leader"), N.address):
        return "the certificate does not name this node as its maker"
    return None


def proj(ctx, el, name):
    """signature/voter of a stored vote, which may be stored as (vote, context)"""
    out = [ctx.get(el, "SignedVote", name)]
    for nm in ("0", None):
        first = ctx.eng0().field(el, None, 0, nm, 2, None)
        out.append(ctx.get(first, "SignedVote", name))
    return out


def counted(ctx, f, H, R, V, X, AU):
    for l, v in f.literals():
        ab = above(l, v)
        if not ab:
            continue
        acc, total = ab
        if not (callname(total) == "get_vote_weight_sum" and f.same(total.a[1], AU)):
            continue
        if acc.op != "fold" or acc.a[0] != "+" or acc.a[2] is not INT(0) or len(acc.a) != 4:
            continue
        src = acc.a[1]
        c = acc.a[3]
        at = I.AT(src, mk("idx", src))
        # every addend is the weight of a distinct voter (the voters of a block form a set, C05)
        ws = [t for t in subterms(c.a[0]) if t.op == "call" and callname(t) == "get_vote_weight"]
        if not (len(ws) == 1 and c.a[0] is okval(ctx, ws[0]) and f.same(ws[0].a[1], AU) and ws[0].a[2] is at):
            continue
        # the set and the block are one entry of the map of the votes of H, R, V
        if src.op in ("mval", "get") or True:
            M = entry_of(ctx, src, X)
            if M is None:
                continue
            gm = next((t for t in subterms(M) if t.op == "call" and callname(t) == "get_vote_map"), None)
            if gm is None or M is not okval(ctx, gm):
                continue
            if f.same(gm.a[2], H) and f.same(gm.a[3], R) and f.same(gm.a[4], V):
                return None
    return "no block is shown to have more than two thirds of the weight among the votes of this position"


def entry_of(ctx, val, key):
    """val is the value stored under key in a map: -> the map"""
    if val.op == "mval" and key.op == "mkey" and val.a == key.a:
        return val.a[0]
    if val.op == "fld" and val.a[0].op == "get" and val.a[0].a[1] is key:
        return val.a[0].a[0]
    return None


def bitmap_of(ctx, t, AU, voters):
    """BitVec::to_bytes(bitset fold over the members: bit i iff member i among voters)"""
    if callname(t) != "to_bytes":
        return False
    b = t.a[1]
    if b.op != "fold" or b.a[0] not in ("bitset", "push"):
        return False
    src, init = b.a[1], b.a[2]
    if not (callname(src) == "get_address_ref" and src.a[1] is AU):
        return False
    idx = mk("idx", src)
    want = []  # (value the bit gets, condition)
    for c in b.a[3:]:
        el = c.a[0]
        if b.a[0] == "bitset":
            if not (callname(init) == "from_elem" and init.a[2] in (INT(0), mk("int", 0)) and callname(init.a[1]) == "len" or
                    init.op == "call" and INT(0) in init.a):
                return False
            if not (el.op == "agg" and el.a[3] is idx):
                return False
            want.append((el.a[4], case_lits(c)))
        else:
            if init is not EMPTYC:
                return False
            want.append((el, case_lits(c)))

    def among(l):
        if not (l.op == "contains" and l.a[1] is I.AT(src, idx)):
            return False
        s1, e1, c1 = bag(l.a[0])
        s2, e2, c2 = bag(voters)
        return s1 is s2 and e1 is e2 and not c1 and not c2

    def value_when(member):
        """the value of bit i when member i is (not) among the voters"""
        vals = set()
        for v, ls in want:
            if not all(among(l) for l, _ in ls):
                return None
            if any(w != member for _, w in ls):
                continue
            vals.add((1 if member else 0) if among(v) else v.a[0] if v.op == "int" else None)
        if not vals and b.a[0] == "bitset":
            return 0
        return vals.pop() if len(vals) == 1 else None
    return value_when(True) == 1 and value_when(False) == 0


def c04(ctx):
    threshold_support(ctx)
    n = 0
    for lab, p, A in all_paths(ctx):
        for a in A:
            q = None
            if a.k == "col" and a.fn == "VoteCollector::set_qc" and not (lab == "message AggregatedVote") and \
                    not (lab == "start" and from_wal(a.args[0])):
                q = a.args[0]
            if a.k == "broadcast" and ctx.isv(a.msg, "OverlordMsg", "AggregatedVote"):
                q = a.msg.a[3]
            if q is None:
                continue
            n += 1
            why = local_qc(ctx, p, a, q) if q.op == "agg" else "certificate of unknown origin"
            ctx.ob("a certificate made by this node combines exactly the stored votes of one position and block that "
                   "exceed two thirds of the weight", inst2(lab, a.k), why is None, desc(lab, p, str(why), A), where(a.e))
    ctx.floor("own certificate", n, 8)


def threshold_support(ctx):
    """the weights used when counting"""
    addrs, wmap, wsum = auth_view(ctx)
    a = mk("sym", "addr")
    eng, ps = run_root(ctx, "AuthorityManage::get_vote_weight", [SELF, a], atoms=(), name="gw")
    for p in ps:
        good = is_err(p.facts, p.ret) or okval(ctx, p.ret) in (someval(ctx, mk("get", wmap, a)), mk("get", wmap, a))
        ctx.ob("the weight of a voter is its own", "AuthorityManage::get_vote_weight", good, show(p.ret))
    eng, ps = run_query(ctx, "AuthorityManage::get_vote_weight_sum", [SELF], "gws")
    for p in ps:
        ctx.ob("the total weight is that of the list", "AuthorityManage::get_vote_weight_sum", p.ret is wsum, show(p.ret))
    update_rule(ctx)


# ---------------------------------------------------------------------------------------------- C03
EFFECTS = {"trigger", "resp", "smrevent", "send", "broadcast", "transmit", "commit", "get_block", "check_block", "wal",
           "sign", "pverify", "col", "spawn", "spawned"}


def c03(ctx):
    N = Node(ctx)
    # membership test
    who = mk("sym", "who")
    addrs, wmap, _ = auth_view(ctx)
    eng, ps = run_query(ctx, "AuthorityManage::contains", [SELF, who], "contains")
    for p in ps:
        # the keys of the weight map are the addresses of the list (both are filled by update, C01)
        ways = (mk("contains", addrs, who), EQ(mk("discr", mk("get", wmap, who), OPTION), INT(1)))
        good = p.ret in ways or p.ret.op == "int" and any(p.facts.query(w) is bool(p.ret.a[0]) for w in ways)
        ctx.ob("a member is an address of the authority list", "AuthorityManage::contains", good,
               f"returns {show(p.ret)} on {pathdesc(p.facts)}", "utils/auth_manage.rs")
    n = 0
    for v in ("SignedVote", "SignedChoke", "SignedProposal"):
        m = mk("sym", MSGS[v])
        lab0 = "message " + v
        addr = {"SignedVote": lambda: ctx.get(m, "SignedVote", "voter"),
                "SignedChoke": lambda: ctx.get(m, "SignedChoke", "address"),
                "SignedProposal": lambda: ctx.get(ctx.get(m, "SignedProposal", "proposal"), "Proposal", "proposer")}[v]()
        k = 0
        for lab, p, A in paths_of(ctx, lab0):
            for a in A:
                if a.k not in EFFECTS:
                    continue
                k += 1
                f = a.facts
                mem = any(t.a[1] is N.authority and f.same(t.a[2], addr) and f.query(t) is True
                          for t in facts_terms(f, "contains") + ucontains(f)) or \
                    any(t.a[1] is N.authority and is_ok(f, t) and f.same(okval(ctx, t), addr)
                        for t in facts_terms(f, "get_proposer"))  # the proposer of any round is a member (C18)
                ctx.ob("a signed message has effects only when its author is in the authority list",
                       inst2(lab, a.k), mem, desc(lab, p, "the author may be no member", A), where(a.e))
                if v == "SignedProposal":
                    h, r = msg_height(ctx, v), msg_round(ctx, v)
                    pro = any(t.a[1] is N.authority and f.same(t.a[2], h) and f.same(t.a[3], r) and is_ok(f, t) and
                              f.same(okval(ctx, t), addr) for t in facts_terms(f, "get_proposer"))
                    ctx.ob("a proposal has effects only from the proposer of its height and round", inst2(lab, a.k), pro,
                           desc(lab, p, "the author may not be the proposer", A), where(a.e))
                if v == "SignedVote" and a.k == "col" and a.fn == "VoteCollector::insert_vote":
                    ctx.ob("a vote is counted for its own signer", inst2(lab, "voter"),
                           any(x is addr for x in a.args) and sum(1 for x in a.args if x is m or
                                                                 f.same(x, m)) == 1,
                           desc(lab, p, "the vote is filed under another voter: " + repr(a), A), where(a.e))
                n += 1
        ctx.floor("effects of " + v, k, 2)


def ucontains(f):
    out = []
    for t, _ in f.literals():
        for s in subterms(t):
            if s.op == "call" and str(s.a[0]).endswith("AuthorityManage::contains") and s not in out:
                out.append(s)
    return out


# ---------------------------------------------------------------------------------------------- C51
def unverified(ctx, f, sig, name):
    """the check of this signature failed"""
    return any(is_err(f, t) and f.same(t.a[2], sig) for t in facts_terms(f, name))


def qc_wanting(ctx, f, auth, qc):
    """the path found the certificate too light, unreadable or wrongly signed"""
    sg = ctx.get(qc, "AggregatedVote", "signature")
    bm, sig = ctx.get(sg, "AggregatedSignature", "address_bitmap"), ctx.get(sg, "AggregatedSignature", "signature")
    for name in ("is_above_threshold", "get_voters"):
        for t in facts_terms(f, name):
            if t.a[1] is auth and f.same(t.a[2], bm) and \
                    (is_err(f, t) or name == "is_above_threshold" and f.query(okval(ctx, t)) is False):
                return True
    return unverified(ctx, f, sig, "verify_aggregated_signature")


def c51(ctx):
    """what is validly signed passes the verification"""
    n = dict.fromkeys(PEER, 0)
    auth = mk("sym", "auth")
    for v in PEER:
        m = mk("sym", MSGS[v])
        for facts, evs in tasks(ctx, v, True):
            n[v] += 1
            sent = [e for e in evs if e.name == "UnboundedSender::unbounded_send" and e.args[0] is mk("sym", "tx") and
                    e.args[1] is tup(CTXSYM, msg_value(ctx, v))]
            why = v == "AggregatedVote" and qc_wanting(ctx, facts, auth, m)
            if v != "AggregatedVote":
                why = unverified(ctx, facts, ctx.get(m, v, "signature"), "verify_signature")
            if v == "SignedProposal" and not why:
                lock = ctx.get(ctx.get(m, v, "proposal"), "Proposal", "lock")
                if is_some(facts, lock):
                    why = qc_wanting(ctx, facts, auth, ctx.get(someval(ctx, lock), "PoLC", "lock_votes"))
            ctx.ob("a message is left out only because a signature or the weight of a certificate is wanting", f"verify {v}",
                   len(sent) == 1 or not sent and why, pathdesc(facts), "state/parallel.rs")
    for v, k in n.items():
        ctx.floor("verification of " + v, k, 1)
    # what the verification asks the authority list about certificates: it says no only when the weight is too small
    bm = mk("sym", "bm")
    addrs, wmap, wsum = auth_view(ctx)
    for short in ("AuthorityManage::is_above_threshold", "AuthorityManage::get_voters"):
        eng, ps = run_root(ctx, short, [SELF, bm], atoms=(), name={"i": "thr", "g": "voters"}[short.split("::")[1][0]])
        for p in ps:
            f = p.facts
            if is_err(f, p.ret):
                ok = any(t.op == "get" and t.a[0] is wmap and is_none(f, t) for l, w in f.literals() for t in subterms(l))
            else:
                x = okval(ctx, p.ret)
                ok = True
                if short.endswith("get_voters"):
                    ok = members_fold(ctx, x, addrs, bm)
                elif x.op == "int":
                    low = [above(l, not w) for l, w in f.literals()]
                    ok = bool(x.a[0]) or any(ab and ab[1] is wsum and weight_fold(ctx, ab[0], addrs, bm, wmap) for ab in low)
                else:
                    ab = above(x, True)
                    ok = ab is not None and ab[1] is wsum and weight_fold(ctx, ab[0], addrs, bm, wmap)
            ctx.ob("a bitmap is refused only when its members have too little weight", short, ok,
                   f"returns {show(p.ret)[:300]}\n path: {pathdesc(f)}", "utils/auth_manage.rs")
        ctx.floor(short, len(ps), 1)


RULES = {"C51": c51, "C01": c01, "C02": c02, "C03": c03, "C04": c04}
