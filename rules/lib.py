"""Vocabulary over paths of the node: what was verified, sent, saved, triggered."""
from common import *
from roots import *


def callname(t):
    if t.op in ("call", "res", "ucall"):
        c = t.a[0]
        if isinstance(c, T):
            return callname(c)
        return str(c).split("::")[-1]
    return None


def rescall(t):
    """the call behind a result value: res(call(...)) of an awaited/opaque effect, or the call itself"""
    while t.op == "res" and isinstance(t.a[0], T):
        t = t.a[0]
    return t


def is_ok(facts, t):
    if t.op == "agg":
        return t.a[2] == "Ok"
    return facts.query(EQ(mk("discr", t, RESULT), INT(0))) is True


def is_err(facts, t):
    if t.op == "agg":
        return t.a[2] == "Err"
    return facts.query(EQ(mk("discr", t, RESULT), INT(1))) is True


def is_some(facts, t):
    if t.op == "agg":
        return t.a[2] == "Some"
    return facts.query(EQ(mk("discr", t, OPTION), INT(1))) is True


def is_none(facts, t):
    if t.op == "agg":
        return t.a[2] == "None"
    return facts.query(EQ(mk("discr", t, OPTION), INT(0))) is True


def payload(ctx, t, adt, vi=None):
    """the value inside Ok (adt=RESULT) / Some (adt=OPTION)"""
    if t.op == "agg":
        return t.a[3]
    return ctx.eng0().field(t, 0 if adt == RESULT else 1, 0, "0", 1, adt)


def okval(ctx, t):
    return payload(ctx, t, RESULT)


def someval(ctx, t):
    return payload(ctx, t, OPTION)


def variant_of(ctx, facts, t, short):
    """variant name of an enum value when known"""
    if t.op == "agg":
        return t.a[2]
    p = ctx.adt(short)
    names = [v["n"] for v in ctx.prog.adts[p]["v"]]
    d = mk("discr", t, p)
    poss = [n for i, n in enumerate(names) if facts.query(EQ(d, INT(i))) is not False]
    return poss[0] if len(poss) == 1 else None


class Act:
    """an observable action of the node"""
    __slots__ = ("k", "e", "facts", "i", "d")

    def __init__(self, k, e, i, **d):
        self.k, self.e, self.facts, self.i, self.d = k, e, e.facts, i, d

    def __getattr__(self, n):
        try:
            return self.d[n]
        except KeyError:
            raise AttributeError(n)

    def __repr__(self):
        return f"{self.k} " + ", ".join(f"{a}={show(b)}" for a, b in self.d.items() if isinstance(b, T))


def acts(ctx, p):
    """actions of a path in order"""
    out = []
    for i, e in enumerate(p.evs):
        n = e.name
        a = e.args
        if n == "UnboundedSender::unbounded_send" and len(a) == 2:
            m = a[1]
            if ctx.isv(m, "SMRTrigger"):
                out.append(Act("trigger", e, i, tt=ctx.f(m, "trigger_type"), source=ctx.f(m, "source"),
                               hash=ctx.f(m, "hash"), lock_round=ctx.f(m, "lock_round"), round=ctx.f(m, "round"),
                               height=ctx.f(m, "height"), wal=ctx.f(m, "wal_info"), chan=a[0]))
            elif ctx.isv(m, "VerifyResp"):
                out.append(Act("resp", e, i, msg=m, chan=a[0]))
            elif ctx.isv(m, "SMREvent"):
                out.append(Act("smrevent", e, i, msg=m, chan=a[0]))
            else:
                out.append(Act("send", e, i, msg=m, chan=a[0]))
        elif n == "Consensus::broadcast_to_other":
            out.append(Act("broadcast", e, i, msg=a[2]))
        elif n == "Consensus::transmit_to_relayer":
            out.append(Act("transmit", e, i, to=a[2], msg=a[3]))
        elif n == "Consensus::commit":
            out.append(Act("commit", e, i, height=a[2], commit=a[3], res=e.res))
        elif n == "Consensus::get_block":
            out.append(Act("get_block", e, i, height=a[2], res=e.res))
        elif n == "Consensus::check_block":
            out.append(Act("check_block", e, i, height=a[2], hash=a[3], block=a[4], res=e.res))
        elif n == "Consensus::report_view_change":
            out.append(Act("view_change", e, i, height=a[2], round=a[3], reason=a[4]))
        elif n == "Consensus::report_error":
            out.append(Act("report_error", e, i))
        elif n == "Wal::save":
            out.append(Act("wal", e, i, info=a[1], res=e.res))
        elif n == "Wal::load":
            out.append(Act("wal_load", e, i, res=e.res))
        elif n == "Crypto::sign":
            out.append(Act("sign", e, i, hash=a[1], res=e.res))
        elif n == "Crypto::hash":
            out.append(Act("hash", e, i, data=a[1], res=e.res))
        elif n in ("Crypto::verify_signature", "Crypto::verify_aggregated_signature"):
            out.append(Act("verify1" if n.endswith("y_signature") else "verifyn", e, i, sig=a[1], hash=a[2], who=a[3],
                           res=e.res))
        elif n == "Crypto::aggregate_signatures":
            out.append(Act("aggregate", e, i, sigs=a[1], voters=a[2], res=e.res))
        elif n == "parallel_verify":
            out.append(Act("pverify", e, i, ctx=a[0], msg=a[1], util=a[2], auth=a[3], tx=a[4]))
        elif n.startswith("&mut ") and n[5:] in WRITERS:
            out.append(Act("col", e, i, fn=n[5:], col=a[0], res=e.res, args=a[1:]))
        elif n == "write":
            out.append(Act("write", e, i, path=e.x, val=a[0]))
        elif n in ("spawned", "spawn", "sleep", "time::sleep"):
            out.append(Act(n, e, i))
        else:
            out.append(Act("other", e, i))
    return out


def hashed(t):
    """hash(util, encode(x)) -> x"""
    if callname(t) == "hash" and t.op == "call":
        d = t.a[2]
        if callname(d) == "encode":
            return d.a[1]
    return None


def tname(t):
    """trigger type / step / vote type name of an aggregate"""
    return t.a[2] if t.op == "agg" else None


class Node:
    """names for the fields of the node at the start of a path"""

    def __init__(self, ctx, v=S):
        for n in ("height", "round", "state_machine", "address", "proposals", "votes", "chokes", "authority",
                  "hash_with_block", "is_full_transaction", "is_leader", "leader_address", "update_from_where",
                  "block_interval", "consensus_power", "stopped", "resp_tx", "function", "wal", "util",
                  "verify_sig_tx"):
            setattr(self, n, ctx.get(v, "State", n))


ROOTS = {}


def all_paths(ctx):
    """every path of every node entry point, labelled"""
    if "allpaths" in ctx.cache:
        return ctx.cache["allpaths"]
    out = []
    for m in list(MSGS) + ["Stop"]:
        out += [("message " + m, p) for p in handle_msg(ctx, m)[1]]
    for m in SMR_EVENTS:
        out += [("event " + m, p) for p in handle_event(ctx, m)[1]]
    out += [("block check response", p) for p in handle_resp(ctx)[1]]
    out += [("start", p) for p in start_with_wal(ctx)[1]]
    for lab, p in out:
        p.spawned = []
    res = []
    for lab, p in out:
        res.append((lab, p, acts(ctx, p)))
    ctx.cache["allpaths"] = res
    return res


def paths_of(ctx, *labels):
    return [x for x in all_paths(ctx) if x[0] in labels]


def desc(lab, p, why, a=None):
    acts_ = "; ".join(repr(x)[:200] for x in (a or []) if x.k not in ("write", "hash"))
    return f"{why}\n entry: {lab}\n path: {pathdesc(p.facts)}\n actions: {acts_}"


# ---------------------------------------------------------------- collections and quorums
def case_lits(c):
    return [(l.a[0], bool(l.a[1])) for l in c.a[1:]]


def bag(t):
    """a list/set term as (source, element expression, [literals]): order and duplicates forgotten"""
    if t.op in ("sorted", "rev"):
        return bag(t.a[0])
    if t.op == "fold" and t.a[0] in ("push", "sinsert", "Vec::push") and t.a[2] is EMPTYC and len(t.a) == 4:
        src = t.a[1]
        c = t.a[3]
        g, e1, l1 = bag(src)
        m = {I.AT(src, mk("idx", src)): e1}
        if g is not src:
            e = subst(c.a[0], m)
            ls = [(subst(l, m), v) for l, v in case_lits(c)]
        else:
            e, ls = c.a[0], case_lits(c)
        return g, e, l1 + ls
    return t, I.AT(t, mk("idx", t)), []


def same_list(facts, a, b):
    """position i of a corresponds to position i of b: both built in one pass over one sequence"""
    def top(t):
        if t.op == "fold" and t.a[0] in ("push", "Vec::push") and t.a[2] is EMPTYC and len(t.a) == 4:
            return t.a[1], [l for l in case_lits(t.a[3])]
        return t, []
    return top(a) == top(b)


def fieldname(t):
    return t.a[3] if t.op == "fld" else None


def above(lit, val):
    """recognise  acc*3 > sum*2  -> (acc, sum)"""
    if lit.op == "not":
        return above(lit.a[0], not val)
    if lit.op != "lt" or not val:
        return None
    x, y = lit.a
    if y.op == "mul" and y.a[1] is INT(3) and x.op == "mul" and x.a[1] is INT(2):
        return y.a[0], x.a[0]
    if x.op == "bin" and x.a[0] == "Div" and x.a[2] is INT(3) and x.a[1].op == "mul" and x.a[1].a[1] is INT(2):
        return y, x.a[1].a[0]
    return None


def bit_case(ctx, c, bits_of, addrs):
    """a fold case that selects member i of `addrs` exactly when bit i of `bits_of` is set: -> (addr, elem, other lits)"""
    ls = case_lits(c)
    addr = None
    rest = []
    bitidx = None
    B = mk("bits", bits_of)
    for l, v in ls:
        if v and l.op == "at" and l.a[0] is B:
            bitidx = l.a[1]
        elif v and l.op == "fld" and l.a[0].op == "vget" and l.a[0].a[0] is B:
            bitidx = l.a[0].a[1]
        else:
            rest.append((l, v))
    if bitidx is None:
        return None
    for t in subterms(c.a[0]):
        if t.op == "at" and t.a[0] is addrs and t.a[1] is bitidx:
            addr = t
        if t.op == "fld" and t.a[0].op == "vget" and t.a[0].a[0] is addrs and t.a[0].a[1] is bitidx:
            addr = t
    if addr is None:
        return None
    ok_rest = []
    for l, v in rest:
        # presence tests of what is used anyway
        if v and l.op == "eq" and any(x.op == "discr" for x in l.a if isinstance(x, T)):
            continue
        if l.op == "lt" and all(any(y.op in ("idx", "len") for y in subterms(z)) for z in l.a):
            continue
        ok_rest.append((l, v))
    return addr, c.a[0], ok_rest


def stripdiscr(t):
    return t
