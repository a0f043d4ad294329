"""Leader election and the order of the members (C18 C31)."""
from lib import *
import r_quorum as Q
import r_node as N_

DENY = ("time::", "thread::", "env::", "rand::", "thread_rng", "from_entropy", "getrandom", "OsRng", "RandomState", "process::id",
        "fs::", "net::", "io::stdin")
HASHITER = ("HashMap::iter", "HashMap::keys", "HashMap::values", "HashMap::into_iter", "HashSet::iter", "HashMap::iter_mut",
            "HashMap::drain", "HashSet::into_iter")


def leaves(t):
    """what a term depends on"""
    seen, out, work = set(), set(), [t]
    while work:
        x = work.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "sym":
            out.add(x.a[0])
        elif x.op == "fld" and isinstance(x.a[0], T) and x.a[0].op == "sym":
            out.add(f"{x.a[0].a[0]}.{x.a[3]}")
            continue
        elif x.op in ("recv", "noise", "poll"):
            out.add(x.op)
        work.extend(y for y in x.a if isinstance(y, T))
    return out


def c18(ctx):
    h, r, lst = mk("sym", "h"), mk("sym", "r"), mk("sym", "list")
    names = ("address", "propose_weights", "propose_weight_sum", "vote_weight_map", "vote_weight_sum")
    allowed = {"h", "r", "self.address", "self.propose_weights", "self.propose_weight_sum"}
    draw = [k for k in ctx.prog.by_short if k.endswith("get_random_proposer_index")]

    def drawn(eng, f, args, st, site, rty):
        return [(st, mk("call", "draw", *[eng.deep(st, a) for a in args]))]

    # (1) what the election depends on
    eng, ps = run_root(ctx, "AuthorityManage::get_proposer", [SELF, h, r], atoms=(), name="elect")
    n = 0
    for p in ps:
        dep = leaves(p.ret)
        for l, v in p.facts.literals():
            dep |= leaves(l)
        dep -= {"noise"} if is_err(p.facts, p.ret) else set()
        ctx.ob("the leader depends on the height, the round and the ordered list only", "AuthorityManage::get_proposer",
               dep <= allowed, f"depends on {sorted(dep)}: {show(p.ret)[:400]}\n path: {pathdesc(p.facts)}", "utils/auth_manage.rs")
        ev = [e for e in p.evs if e.name not in ("loop",)]
        ctx.ob("electing a leader has no effect", "AuthorityManage::get_proposer", not ev, str([e.name for e in ev]), "utils/auth_manage.rs")
        if is_err(p.facts, p.ret):
            continue
        n += 1
        x = okval(ctx, p.ret)
        ctx.ob("the leader is a member of the list", "AuthorityManage::get_proposer", member_of(x, ctx.get(S, "AuthorityManage", "address")),
               show(x)[:400], "utils/auth_manage.rs")
    ctx.floor("election", n, 1)
    deterministic(ctx, eng, "AuthorityManage::get_proposer")
    # every height and round takes part
    both = set()
    for p in ps:
        for t in [p.ret] + [l for l, v in p.facts.literals()]:
            both |= leaves(t)
    if not draw or not random_on(ctx):
        ctx.ob("the leader changes with the height and the round", "AuthorityManage::get_proposer", {"h", "r"} <= both, str(sorted(both)),
               "utils/auth_manage.rs")
    # (2) the node's election and the public one are the same rule
    hooks = {d: drawn for d in draw}
    eng = ctx.engine((), hooks)
    st = St()
    st.env[("H", "self")] = S
    ups = eng.root(ctx.fn("AuthorityManage::update"), [SELF, mk("ref", ("D", lst), (), "mut")], st)
    ctx.done(eng, ups)
    m = 0
    pub = {}
    eng = ctx.engine((), hooks)
    outs = eng.root(ctx.fn("get_leader"), [h, r, lst], St())
    ctx.done(eng, outs)
    deterministic(ctx, eng, "get_leader")
    src = mk("sorted", lst)
    el = I.AT(src, mk("idx", src))
    weight = ctx.get(el, "Node", "propose_weight")
    for s, x in outs:
        k = index_of(ctx, x, src)
        pub.setdefault(canon(k, {}), []).append((s, x))
        ctx.ob("the public leader is a member of the sorted list", "get_leader", k is not None and
               x is ctx.get(I.AT(src, k), "Node", "address"), show(x)[:400], "utils/auth_manage.rs")
    mine = {}
    au = ctx.get(S, "AuthorityManage", "address")
    for s0, _ in ups:
        post = s0.env[("H", "self")]
        sub = {}
        for nm in names:
            sub[ctx.get(S, "AuthorityManage", nm)] = ctx.get(post, "AuthorityManage", nm)
        eng = ctx.engine((), hooks)
        st = St()
        st.env[("H", "self")] = S
        os_ = eng.root(ctx.fn("AuthorityManage::get_proposer"), [SELF, h, r], st)
        ctx.done(eng, os_)
        for s, x in os_:
            if is_err(s.facts, x):
                continue
            k = index_of(ctx, okval(ctx, x), au)
            m += 1
            mine.setdefault(canon(k, sub, lst), []).append((s, x))
        a = ctx.get(post, "AuthorityManage", "address")
        w = ctx.get(post, "AuthorityManage", "propose_weights")
        ctx.ob("the list the node elects from is the sorted list of members", "AuthorityManage::update",
               fold_of(a, src, ctx.get(el, "Node", "address")) and fold_of(w, src, weight), f"{show(a)[:300]} {show(w)[:300]}",
               "utils/auth_manage.rs")
    ctx.ob("the node's leader is the one the public function names", "get_leader / get_proposer",
           bool(mine) and set(mine) == set(pub) and None not in mine,
           f"node: {[show(k)[:300] if k else None for k in mine]}\n public: {[show(k)[:300] if k else None for k in pub]}", "utils/auth_manage.rs")
    ctx.floor("election compared", m, 1)
    # (3) the leader the node expects, and the author of the proposals it takes, are elected by this rule
    q = 0
    N = Node(ctx)
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "write" and a.path == ("self", "leader_address"):
                q += 1
                nd = a.e.selfv
                H, R, AU = (ctx.get(nd, "State", z) for z in ("height", "round", "authority"))
                good = any(t.a[1] is AU and a.facts.same(t.a[2], H) and a.facts.same(t.a[3], R) and is_ok(a.facts, t) and
                           a.facts.same(okval(ctx, t), a.val) for t in Q.facts_terms(a.facts, "get_proposer"))
                ctx.ob("the leader a node expects is the elected one of its height and round", lab, good,
                       desc(lab, p, f"leader := {show(a.val)}", A), where(a.e))
            if a.k == "col" and a.fn == "ProposalCollector::insert" and lab == "message SignedProposal":
                pr = ctx.get(a.args[-1], "SignedProposal", "proposal")
                H, R, who = (ctx.get(pr, "Proposal", z) for z in ("height", "round", "proposer"))
                q += 1
                # proposals of a height to come are verified when it begins (C23)
                later = a.facts.query(LT(N.height, H)) is True
                good = later or any(a.facts.same(t.a[2], H) and a.facts.same(t.a[3], R) and is_ok(a.facts, t) and
                                    t.a[1] is ctx.get(a.e.selfv, "State", "authority") and
                                    a.facts.same(okval(ctx, t), who) for t in Q.facts_terms(a.facts, "get_proposer"))
                ctx.ob("a proposal of the current height is kept only from its elected leader", lab, good, desc(lab, p, "", A), where(a.e))
    ctx.floor("elected leader used", q, 2)


def random_on(ctx):
    return "random" in (ctx.features or "") if hasattr(ctx, "features") else "random" in ctx.path


def fold_of(t, src, e):
    return t.op == "fold" and t.a[0] in ("push", "Vec::push") and t.a[1] is src and t.a[2] is EMPTYC and len(t.a) == 4 and \
        t.a[3].a[0] is e and len(t.a[3].a) == 1


def member_of(x, lst):
    return any((t.op in ("at", "vget", "get") and t.a[0] is lst) for t in peel(x))


def peel(x):
    out = [x]
    while x.op == "fld" and isinstance(x.a[0], T):
        x = x.a[0]
        out.append(x)
    return out


def index_of(ctx, x, lst):
    for t in peel(x):
        if t.op in ("at", "vget") and t.a[0] is lst:
            return t.a[1]
    return None


def canon(k, sub, lst=None):
    """an index with the fields of the authority replaced by what they were made of"""
    if k is None:
        return None
    if sub:
        m = dict(sub)
        for a, b in list(sub.items()):
            if b.op == "fold" and b.a[1].op == "sorted":
                m[mk("call", "len", a)] = mk("call", "len", b.a[1].a[0])
        k = subst(k, m)
    return k


def deterministic(ctx, eng, what):
    """nothing the election calls depends on time, chance or the order of a hash table"""
    bad = []
    n = 0
    for key in eng.fn_seen:
        b = ctx.prog.bodies[key]
        for c in callees(b):
            n += 1
            p, self_ = c.split(" ", 1)
            if any(d in p for d in DENY) or any(z in p.replace("<K, V, S>", "").replace("<T, S>", "").replace("::::", "::") for z in HASHITER) or \
                    p.split("::")[-1] in ("into_iter", "iter", "keys", "values") and ("HashMap" in self_ or "HashSet" in self_) or \
                    p.split("::")[-1] in ("from_rng", "from_entropy", "gen", "gen_range", "random"):
                bad.append(f"{last(b.path)} calls {c}")
    ctx.ob("the election does not depend on time, chance or the order of a hash table", what, not bad, "; ".join(bad)[:1500],
           "utils/auth_manage.rs")
    ctx.floor("call examined of " + what, n, 3)


def callees(b):
    out = []

    def walk(x):
        if isinstance(x, dict):
            f = x.get("fn")
            if isinstance(f, dict) and "p" in f:
                out.append(str(f["p"]) + " " + str(f.get("self") or ""))
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(b.j)
    return out


# ------------------------------------------------------------------------------------------------ C31
def c31(ctx):
    Q.update_rule(ctx)
    # the order of the members is that of their addresses alone
    a, b = mk("sym", "a"), mk("sym", "b")
    n = 0
    want = mk("cmp", ctx.get(a, "Node", "address"), ctx.get(b, "Node", "address"))
    for fn in ("Node as Ord::cmp", "Node as PartialOrd::partial_cmp"):
        eng = ctx.engine(())
        outs = eng.root(ctx.fn(fn), [a, b], St())
        ctx.done(eng, outs)
        for s, x in outs:
            n += 1
            if fn.endswith("partial_cmp"):
                x = someval(ctx, x) if x.op == "agg" and x.a[2] == "Some" else x
            ctx.ob("members are ordered by their address alone", fn, x is want, show(x), "types.rs")
    ctx.floor("order of members", n, 2)
    # readers: bit i stands for address i
    bm = mk("sym", "bm")
    addrs, wmap, wsum = Q.auth_view(ctx)
    Q.threshold_rule(ctx)
    lst = mk("sym", "list")
    eng = ctx.engine(())
    outs = eng.root(ctx.fn("extract_voters"), [mk("ref", ("D", lst), (), "mut"), bm], St())
    ctx.done(eng, outs)
    k = 0
    src = mk("sorted", lst)
    for s, x in outs:
        if is_err(s.facts, x):
            continue
        k += 1
        ctx.ob("the voters read out of a bitmap are the members of the sorted list whose bit is set", "extract_voters",
               Q.members_fold(ctx, okval(ctx, x), src, bm, lambda t: ctx.get(t, "Node", "address")), show(x), "utils/auth_manage.rs")
    ctx.floor("extract_voters", k, 1)
    eng, ps = run_query(ctx, "AuthorityManage::get_address_ref", [SELF], "addrs")
    for p in ps:
        r = p.ret
        good = r is addrs or r.op == "ref" and eng.deep(p.st, r) is addrs
        ctx.ob("the author writes bits over the same list", "get_address_ref", good, show(r), "utils/auth_manage.rs")
    # author: the certificate's bitmap
    m = 0
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k not in ("broadcast", "transmit") or not ctx.isv(a.msg, "OverlordMsg", "AggregatedVote"):
                continue
            q = ctx.f(a.msg, "0")
            if not ctx.isv(q, "AggregatedVote"):
                continue
            sig = ctx.f(q, "signature")
            bmap = ctx.get(sig, "AggregatedSignature", "address_bitmap")
            agg_ = [x for x in A if x.k == "aggregate"]
            m += 1
            AU = ctx.get(a.e.selfv, "State", "authority")
            good = any(Q.bitmap_of(ctx, bmap, AU, x.voters) for x in agg_)
            ctx.ob("bit i of a certificate's bitmap is set for member i exactly if it is among the signers", lab, good,
                   desc(lab, p, show(bmap)[:600], A), where(a.e))
    ctx.floor("certificate built", m, 1)


# ---------------------------------------------------------------------------------------------- C48
def summands(t, n):
    """t modulo n as a list of products (lists of factors); reductions modulo n inside are dropped"""
    while t.op in ("trunc", "cast", "zext") or t.op == "bin" and t.a[0] == "Rem" and bare(t.a[2]) is n:
        t = t.a[1] if t.op == "bin" else t.a[0]
    if t.op == "add":
        return [p for x in t.a for p in summands(x, n)]
    if t.op == "mul":
        out = [[]]
        for x in t.a:
            out = [p + q for p in out for q in summands(x, n)]
        return out
    if t.op == "int":
        return [[]] * (t.a[0] if t.a[0] < 8 else 0) if t.a[0] != 1 else [[]]
    return [[t]]


def bare(t):
    while t.op in ("trunc", "cast", "zext"):
        t = t.a[0]
    return t


def without(t, x):
    return subst(t, {x: mk("sym", "x0")})


def c48(ctx):
    h, r = mk("sym", "h"), mk("sym", "r")
    au = ctx.get(S, "AuthorityManage", "address")
    ws = ctx.get(S, "AuthorityManage", "propose_weights")
    total = ctx.get(S, "AuthorityManage", "propose_weight_sum")
    eng, ps = run_root(ctx, "AuthorityManage::get_proposer", [SELF, h, r], atoms=(), name="turn")
    where_ = "utils/auth_manage.rs"
    n = 0
    for p in ps:
        if is_err(p.facts, p.ret):
            continue
        k = index_of(ctx, okval(ctx, p.ret), au)
        if k is None:
            ctx.ob("the leader is found in the list by its place", "AuthorityManage::get_proposer", False, show(p.ret)[:300], where_)
            continue
        n += 1
        lits = p.facts.literals()
        if random_on(ctx):
            drawn_turn(ctx, eng, p, k, lits, ws, total)
            continue
        N = mk("call", "len", au)
        ok = k.op == "bin" and k.a[0] == "Rem" and bare(k.a[2]) is N
        prods = summands(k, N) if ok else []
        mine = [q for q in prods if r in q]
        ctx.ob("any n consecutive rounds of a height are led by n different members", "AuthorityManage::get_proposer",
               ok and mine == [[r]] and not any("r" in leaves(t) for q in prods if r not in q for t in q) and
               len([q for q in prods if r in q]) == 1,
               f"the place of the leader is {show(k)[:400]}\n path: {pathdesc(p.facts)}", where_)
        # the largest prime below n, or 1, has no factor in common with n
        hs = [[t for t in q if t is not h] for q in prods if h in q and q.count(h) == 1]
        rest = [q for q in prods if r not in q and h not in q]
        good = len(hs) == 1 and len([q for q in prods if h in q]) == 1 and (
            not hs[0] or len(hs[0]) == 1 and greatest_prime(ctx, hs[0][0], N))
        ctx.ob("the first rounds of any n consecutive heights are led by n different members", "AuthorityManage::get_proposer",
               good and not any({"h", "r"} & leaves(t) for q in rest for t in q),
               f"the place of the leader is {show(k)[:400]}\n path: {pathdesc(p.facts)}", where_)
        cond = [show(l) for l, v in lits if {"h", "r"} & leaves(without(l, k))]
        ctx.ob("no height and no round is treated differently", "AuthorityManage::get_proposer", not cond, f"{cond}", where_)
    ctx.floor("leaders", n, 1)
    if random_on(ctx):
        Q.update_rule(ctx)


def greatest_prime(ctx, t, N):
    c = bare(t)
    if c.op == "fld":
        c = c.a[0]
    while c.op in ("call", "fld") and callname(c) in ("cloned", "copied", "unwrap"):
        c = c.a[1]
    if callname(c) == "last":
        c = c.a[1]
        return callname(c) == "get_primes_less_than_x" and bare(c.a[1]) is N
    return False


def drawn_turn(ctx, eng, p, k, lits, ws, total):
    """the member at place i is drawn when the digit lies in [sum of the weights before i, that sum + weight i) * unit"""
    where_ = "utils/rand_proposer.rs"
    unit = mk("bin", "Div", INT(2**64 - 1), total)
    bound = MUL(total, unit)
    ds = [l.a[0] for l, v in lits if v and l.op == "lt" and l.a[1] is bound]
    D = ds[0] if ds else None
    is_draw = lambda t: callname(t) == "next_u64" and t.op == "call"  # noqa
    def fair(t):
        if is_draw(t):
            return True
        if t.op != "phi" or t not in eng.recur:
            return False
        i, back = eng.recur[t]
        return is_draw(i) and all(is_draw(v) and [(l, w) for l, w in ls if contains(l, lambda x: x is t)] == [(LT(t, bound), False)]
                                  for v, ls in back)
    ctx.ob("the digit is drawn anew until it lies below the largest multiple of the total", "get_random_proposer_index",
           D is not None and all(d is D for d in ds) and fair(D), f"path: {pathdesc(p.facts)}", where_)
    if D is None:
        return
    if k.op == "int":
        # no member's share holds the digit: the shares fill everything below the bound, so this cannot be
        ok = any(I.next_lit(l, False) is not None and not v for l, v in lits) or not any(contains(l, lambda x: x is D) for l, v in lits if
                                                                                         l is not LT(D, bound))
        ctx.ob("a member is drawn only from its share", "get_random_proposer_index: none", ok and exhausted(ctx, eng, lits, ws, D, unit),
               f"path: {pathdesc(p.facts)}", where_)
        return
    w = I.AT(ws, k)
    mine = [(l, v) for l, v in lits if contains(l, lambda x: x is D) and l is not LT(D, bound) and
            l.op not in ("any", "find")]
    first = k in eng.recur and eng.recur[k][0] is INT(0) and all(v is ADD(k, INT(1)) for v, _ in eng.recur[k][1])
    good = (k is mk("idx", ws) or first) and len(mine) == 1 and mine[0][1] and share(eng, mine[0][0], D, unit, w)
    if first and not good and len(mine) == 1:
        # a counter beside an iterator over all the weights
        ix = mk("idx", ws)
        good = mine[0][1] and share(eng, mine[0][0], D, unit, I.AT(ws, ix), k.a[0]) and \
            any(s is not None and v and s.a[0] is ws and len(s.a) == 2 and len(s.a[1].a) == 1
                for l, v in lits for s in [I.next_lit(l, v)])
    ctx.ob("a member is drawn exactly for its share of the digits", "get_random_proposer_index", good,
           f"place {show(k)}; {[show(l)[:300] for l, v in mine]}", where_)


def share(eng, lit, D, unit, w, loop=None):
    """lit: D < unit * (acc + w), where acc sums the weights of the places before, none of which took the digit"""
    if lit.op != "lt" or lit.a[0] is not D:
        return False
    for acc in {x for x in subterms(lit.a[1]) if x.op == "phi" and x in eng.recur}:
        i, back = eng.recur[acc]
        if loop is not None and acc.a[0] != loop:
            continue
        if lit is LT(D, MUL(unit, ADD(acc, w))) and i is INT(0) and back and all(
                v is ADD(acc, w) and [(l, b) for l, b in ls if contains(l, lambda x: x is D)] == [(lit, False)] for v, ls in back):
            return True
    return False


def exhausted(ctx, eng, lits, ws, D, unit):
    return not [l for l, v in lits if contains(l, lambda x: x is D) and l is not LT(D, MUL(unit, ctx.get(
        S, "AuthorityManage", "propose_weight_sum")))]


RULES = {"C18": c18, "C31": c31, "C48": c48}
