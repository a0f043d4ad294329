"""No message of a peer can crash the node (C21)."""
from lib import *
import r_quorum as Q
import r_run as R
import r_node as N

# state of the node that peers cannot set: its position, configuration and identity
OWN = {"height", "round", "authority", "address", "propose_weight_map", "vote_weight_map", "propose_weight_sum",
       "vote_weight_sum", "consensus_power", "is_leader", "stopped", "config"}
# values that only a quorum or the configuration determines
SHIELD = {"max_round_above_threshold", "get_vote_weight", "get_vote_weight_sum", "get_proposer", "get_qc_by_id",
          "get_qc_by_hash", "vote_count", "load"}
APP = {"rs", "status", "ctx"}


def trusted(ctx, t, kind, allowed=()):
    """every input of t is the node's own, the application's or a quorum's"""
    if not isinstance(t, T) or t.op in ("int", "emptybytes", "emptycoll", "phi", "noise", "idx"):
        return True
    if t in allowed:
        return True
    sub = kind.endswith("Sub")
    n = callname(t)
    if n == "commit" or (n == "load" and not sub):
        return True
    if t.op == "len" or n == "len":
        return not sub or all(trusted(ctx, x, kind, allowed) for x in t.a if isinstance(x, T))
    if n in SHIELD:
        return not sub
    if t.op == "sym":
        s = str(t.a[0])
        if s.split(".")[0] in APP or s == "self":
            return True
        return s.split(".")[0] in ("ev", "t", "m", "lock", "base") and not sub
    if t.op == "fld" and t.a[0] is S:
        return t.a[3] in OWN and not (sub and t.a[3] in ("height", "round"))
    if t.op == "fold":
        return all(trusted(ctx, x.a[0] if x.op == "case" else x, kind, allowed)
                   for x in t.a if isinstance(x, T) and x.op in ("case", "int"))
    return all(trusted(ctx, x, kind, allowed) for x in t.a if isinstance(x, T))


def certified(ctx, f, t):
    """fields of a certificate whose signature and weight this path has verified"""
    out = set()
    for l, v in f.literals():
        for c in subterms(l):
            if callname(c) == "verify_aggregated_signature" and is_ok(f, c):
                votes = c.a[-1]
                # the voters of the certificate have been compared with the threshold
                if any(w and m.op == "lt" and any((x.op == "len" or callname(x) == "len") and x.a[-1] is votes for x in subterms(m))
                       for m, w in f.literals()):
                    out |= {x for x in subterms(c.a[3]) if x.op == "fld"}
    return out


def assertion(ctx, lab, a, params=()):
    kind, cond, site, chain, f, st = a
    if kind.startswith("overflow"):
        ops = [x for x in cond.a if isinstance(x, T)]
        ok = all(trusted(ctx, x, kind, certified(ctx, f, x) | set(params)) for x in ops) or \
            kind.endswith("Sub") and len(ops) == 2 and f.query(LT(*ops)) is False
    else:
        ok = trusted(ctx, cond, kind, params)
    ctx.ob("arithmetic and indexing on what a peer controls cannot fail", f"{lab}: {kind}", ok,
           f"{kind} at {site}: {show(cond)[:400]}\n path: {pathdesc(f)[:1500]}", str(site))


def partial_calls(ctx, lab, eng, params=()):
    """indexing and library functions that panic on some arguments get none from a peer"""
    for name, args, site, chain, f in eng.indexes:
        ok = all(trusted(ctx, x, "capacity" if name == "with_capacity" else "indexSub", params) for x in args if isinstance(x, T))
        if not ok and name == "index" and len(args) == 2:
            m, i = args
            ok = any(w and (l.op == "contains" and l.a == (m, i)) or is_some(f, l) for l, w in f.literals()
                     if l.op == "contains") or is_some(f, mk("get", m, i))
            ok = ok or within(ctx, f, m, i)
        ctx.ob("arithmetic and indexing on what a peer controls cannot fail", f"{lab}: {name}", ok,
               f"{name} at {site}: {' , '.join(show(x)[:200] for x in args if isinstance(x, T))}\n path: {pathdesc(f)[:1500]}", str(site))


def within(ctx, f, m, i):
    """the part i of the list m lies inside it: up to, or from, the place of one of its elements"""
    if i.op != "agg" or str(i.a[0]).split("::")[-1] not in ("RangeTo", "RangeFrom"):
        return False
    x = i.a[3]
    return isinstance(x, T) and (x.op == "idx" and x.a[0] is m or x.op == "int" and x.a[0] == 0 or
                                 f.query(LT(mk("call", "len", m), x)) is False or f.query(LT(x, mk("call", "len", m))) is True)


def absent_choke(ctx, f):
    """the path looks up the chokes of the round above the threshold and finds none"""
    for l, v in f.literals():
        for c in subterms(l):
            if callname(c) == "get_chokes" and is_none(f, c):
                r = c.a[2]
                m = [x for x in subterms(r) if callname(x) == "max_round_above_threshold"]
                if m and r is someval(ctx, m[0]) and m[0].a[1] is c.a[1] and is_some(f, m[0]):
                    return True
    return False


def choke_lemma(ctx):
    """the round above the threshold is one whose chokes the collector has"""
    eng, ps = run_root(ctx, "ChokeCollector::max_round_above_threshold", [SELF, mk("sym", "n")], atoms=(), name="c21max")
    chokes = ctx.get(S, "ChokeCollector", "chokes")
    n = 0
    for p in ps:
        if is_none(p.facts, p.ret):
            continue
        r = someval(ctx, p.ret)
        keys = [x for x in subterms(r) if x.op == "mkey" and x.a[0] is chokes]
        bad = [x for x in subterms(r) if x.op in ("add", "sub", "mul", "int", "call")]
        n += 1
        ctx.ob("the round above the threshold is one of the collector", "max_round_above_threshold", bool(keys) and not bad,
               show(p.ret)[:400], "collection.rs")
    ctx.floor("round above the threshold", n, 1)
    eng, ps = run_root(ctx, "ChokeCollector::get_chokes", [SELF, mk("sym", "r")], atoms=(), name="c21get")
    n = 0
    for p in ps:
        if is_some(p.facts, p.ret):
            n += 1
            continue
        gone = any(is_none(p.facts, x) for l, v in p.facts.literals() for x in subterms(l)
                   if x.op == "get" and x.a[0] is chokes and x.a[1] is mk("sym", "r")) or \
            any(not v and l.op == "contains" and l.a[0] is chokes and l.a[1] is mk("sym", "r") for l, v in p.facts.literals())
        ctx.ob("chokes are found for every round of the collector", "get_chokes", gone, pathdesc(p.facts), "collection.rs")
    ctx.floor("chokes of a round", n, 1)


def c21(ctx):
    roots = []
    for m in list(MSGS) + ["Stop"]:
        roots.append(("message " + m, handle_msg(ctx, m)[0]))
    for m in SMR_EVENTS:
        roots.append(("event " + m, handle_event(ctx, m)[0]))
    roots.append(("verified block", handle_resp(ctx)[0]))
    for v in Q.PEER:
        Q.tasks(ctx, v)
        k = [k for k in ctx.cache if k[0] == "root" and k[1] == "pv/" + v]
        roots.append(("verification of " + v, ctx.cache[k[0]][0]))
    # handlers, verification tasks
    lock_pairs = choke = False
    for lab, eng in roots:
        ctx.ob("every message is handled", lab, True)
        partial_calls(ctx, lab, eng)
        for a in eng.asserts:
            assertion(ctx, lab, a)
        for what, site, chain, f, s in eng.panics:
            fns = [last(p) for p, _ in chain]
            if absent_choke(ctx, f):
                choke = True
                continue
            if lab == "event NewRoundInfo" and unpaired_lock(ctx, f):
                lock_pairs = True
                continue
            ctx.ob("handling a message does not panic", f"{lab}: {what}", False,
                   f"{what} via {' > '.join(fns[-5:])}\n path: {pathdesc(f)[:2500]}", str(site))
    if choke:
        choke_lemma(ctx)
    # the voting state machine
    k = 0
    for lock in (True, False):
        for v in TRIGGERS:
            if v == "WalInfo":
                continue
            source = "Timer" if v == "BrakeTimeout" else "State"
            for src in ("State", "Timer") if v not in ("BrakeTimeout", "ContinueRound") else (source,):
                eng, ps, t, pre = smr(ctx, v, src, lock)
                allowed = ()
                if v == "ContinueRound":
                    r = ctx.get(t, "SMRTrigger", "round")
                    allowed = (r, SUB(r, INT(1)))
                k += 1
                partial_calls(ctx, f"trigger {v}", eng, allowed)
                for a in eng.asserts:
                    assertion(ctx, f"trigger {v}", a, allowed)
                for what, site, chain, f, s in eng.panics:
                    ctx.ob("a trigger does not make the state machine panic", f"trigger {v}: {what}", False,
                           f"{what} at {site}\n path: {pathdesc(f)[:1500]}", str(site))
                if lock_pairs:
                    for p in ps:
                        for a in acts(ctx, p):
                            if a.k == "smrevent" and tname(a.msg) == "NewRoundInfo":
                                lr, lp = ctx.f(a.msg, "lock_round"), ctx.f(a.msg, "lock_proposal")
                                ctx.ob("the state machine names the round and the block of a lock together", f"trigger {v}",
                                       is_some(p.facts, lr) and is_some(p.facts, lp) or is_none(p.facts, lr) and is_none(p.facts, lp),
                                       desc("SMR " + v, p, show(a.msg)[:300], []), where(a.e))
    ctx.floor("trigger", k, 20)
    n = 0
    for lab, p, A in all_paths(ctx):
        for a in A:
            if a.k == "trigger":
                n += 1
                v = tname(a.tt)
                src = variant_of(ctx, p.facts, a.source, "TriggerSource")
                ctx.ob("the node triggers the state machine in its own name", lab, src == "State" and v != "BrakeTimeout",
                       desc(lab, p, show(a.source), A), where(a.e))
                if v == "ContinueRound":
                    ctx.ob("a round to continue with is a successor", lab, a.round.op == "add" and a.round.a[1] is not INT(0) and
                           is_int(a.round.a[1]) or is_int(a.round) and a.round.a[0] > 0 or p.facts.query(LT(INT(0), a.round)) is True,
                           desc(lab, p, show(a.round), A), where(a.e))
    ctx.floor("trigger of the node", n, 10)
    # main loop: a missing item means that the application has dropped its handler
    eng, paths = R.mainloop(ctx)
    ctx.ob("every message is handled", "main loop", True)
    partial_calls(ctx, "main loop", eng)
    for a in eng.asserts:
        assertion(ctx, "main loop", a)
    for what, site, chain, f, s in eng.panics:
        got = [e for e in flat(s.events()) if e.name == "polled"]
        ctx.ob("handling a message does not panic", f"main loop: {what}", not got or got[-1].x != "item",
               f"{what}\n path: {pathdesc(f)[:1500]}", str(site))
    eng, ps = run_root(ctx, "State::view_change_reason", [SELF, mk("sym", "ev.left"), mk("sym", "ev.from_where")], name="c21reason")
    ctx.ob("every message is handled", "view_change_reason", True)
    partial_calls(ctx, "view_change_reason", eng)
    for a in eng.asserts:
        assertion(ctx, "view_change_reason", a)
    for what, site, chain, f, s in eng.panics:
        ctx.ob("handling a message does not panic", f"view_change_reason: {what}", False,
               f"{what} via {' > '.join(last(p) for p, _ in chain[-4:])}\n path: {pathdesc(f)[:1500]}", str(site))
    # what the handlers call: collectors and the authority list
    for short in sorted(READERS | WRITERS):
        if short in OPTIONAL and not ctx.prog.by_short.get(short):
            continue  # its caller reads the field itself
        b = ctx.prog.bodies[ctx.fn(short)]
        args = [SELF] + [mk("sym", f"a{i}") for i in range(1, b.argc)]
        eng, ps = run_root(ctx, short, args, atoms=(), name="c21" + short)
        ctx.ob("every message is handled", short, True)
        ok = own_params(ctx, short, args)
        partial_calls(ctx, short, eng, ok)
        for a in eng.asserts:
            assertion(ctx, short, a, ok)
        for what, site, chain, f, s in eng.panics:
            ctx.ob("handling a message does not panic", f"{short}: {what}", False,
                   f"{what} via {' > '.join(last(p) for p, _ in chain[-4:])}\n path: {pathdesc(f)[:1500]}", str(site))


def own_params(ctx, short, args):
    """parameters that every caller fills with a value of its own"""
    if "calls" not in ctx.cache:
        d = {}
        seen = set()
        for lab, p, A in all_paths(ctx):
            for l, v in p.facts.literals():
                for t in subterms(l, seen):
                    n = callname(t)
                    if n and t.op == "call":
                        d.setdefault(n, []).append(t.a[1:])
        ctx.cache["calls"] = d
    calls = ctx.cache["calls"].get(short.split("::")[-1], [])
    out = []
    for i, a in enumerate(args[1:], 1):
        if calls and all(len(c) > i and isinstance(c[i], T) and trusted(ctx, c[i], "overflow:Mul") for c in calls):
            out.append(a)
    # what is known about a list of the configuration is known about its entries
    return out + ([args[1]] if short == "AuthorityManage::update" else [])


def unpaired_lock(ctx, f):
    """a lock round without a locked block, or the other way round"""
    lr, lp = mk("sym", "ev.lock_round"), mk("sym", "ev.lock_proposal")
    return is_some(f, lr) and is_none(f, lp) or is_none(f, lr) and is_some(f, lp)


RULES = {"C21": c21}
