"""Rules about encodings: what is signed, round trip, decoding of arbitrary bytes (C06, C19, C20)."""
from lib import *
import models as M
from r_quorum import PEER, tasks, hash_choke, msg_height
from r_node import own_sig, msgof

INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128}


def itemclass(t):
    """what an RLP item of a Rust type looks like: (kind, width/name)"""
    t = t.strip().lstrip("&").replace("'_ ", "")
    while t.startswith("std::vec::Vec<std::vec::Vec<u8>>"):
        return "list", ("bytes", None)
    if t in ("std::vec::Vec<u8>", "bytes::Bytes", "[u8]", "str", "std::string::String") or t.startswith("[u8;"):
        return "bytes", None
    if t in INTW:
        return "int", INTW[t]
    if t == "bool":
        return "int", 1
    for pre in ("std::vec::Vec<", "["):
        if t.startswith(pre):
            return "list", itemclass(t[len(pre):-1])
    if t.startswith("std::option::Option<"):
        return "opt", itemclass(t[len("std::option::Option<"):-1])
    if t.startswith("std::boxed::Box<") or t.startswith("std::sync::Arc<"):
        return itemclass(t[t.index("<") + 1:-1])
    return "type", I.strip_generics(t)


def readable(w, r):
    """an item written as w can be read back as r"""
    if w[0] == "int" and r[0] == "int":
        return r[1] >= w[1]
    if w[0] in ("list", "opt") and r[0] == w[0]:
        return readable(w[1], r[1])
    return w == r


def gen(f, i=0):
    ga = [g for g in f.get("ga") or [] if not g.startswith("'")]
    return ga[i] if len(ga) > i else "?"


def encode_runs(ctx, ty, val):
    """[(facts, n or None, [(class, value)])] written for a value; the stream is a list term that the calls extend"""
    def put(tag, x):
        def h(eng, f, args, st, site, rty):
            m = M.derefv(eng, st, args[0])
            cls = x(f)
            M.store(eng, st, args[0], mk("mut", "push", 0, m, agg("rlp", 0, tag, [eng.deep(st, args[1]), mk("cls", cls)])), site)
            return [(st, args[0])]
        return h

    hooks = {"RlpStream::begin_list": put("begin", lambda f: None),
             "RlpStream::append": put("item", lambda f: itemclass(gen(f))),
             "RlpStream::append_list": put("item", lambda f: ("list", itemclass(gen(f))))}
    eng = ctx.engine((), hooks)
    st = St()
    stream = mk("ref", ("H", "stream"), (), "mut")
    M.store(eng, st, stream, M.EMPTYC, None)
    outs = eng.root(ctx.fn(f"{ty} as Encodable::rlp_append"), [val, stream], st)
    ctx.done(eng, outs)
    res = []
    for s, r in outs:
        n, items = written(s.facts, ops_of(eng.deep(s, M.derefv(eng, s, stream))))
        res.append((s.facts, n, items))
    return eng, res


def ops_of(t):
    """the calls on a stream, in order: ("begin", n) / ("item", class, value) / ("each", source, class, value) / ("?", term)"""
    out = []
    while t is not M.EMPTYC:
        if t.op == "mut" and t.a[0] == "push" and t.a[3].op == "agg" and t.a[3].a[0] == "rlp":
            x = t.a[3]
            out.append(("begin", x.a[3]) if x.a[2] == "begin" else ("item", x.a[4].a[0], x.a[3]))
            t = t.a[2]
        elif t.op == "fold" and t.a[0] == "push" and len(t.a) == 4 and len(t.a[3].a) == 1 and t.a[3].a[0].op == "agg" and \
                t.a[3].a[0].a[0] == "rlp" and t.a[3].a[0].a[2] == "item":
            x = t.a[3].a[0]
            out.append(("each", t.a[1], x.a[4].a[0], x.a[3]))
            t = t.a[2]
        else:
            out.append(("?", t))
            break
    return out[::-1]


def written(f, ops):
    """(number announced, items); a nested list of one item per element of a list is one item"""
    items = []
    if not ops or ops[0][0] != "begin" or ops[0][1].op != "int":
        return None, items
    i = 1
    while i < len(ops):
        o = ops[i]
        if o[0] == "item":
            items.append(o[1:])
        elif o[0] == "begin" and i + 1 < len(ops) and ops[i + 1][0] == "each":
            _, src, cls, v = ops[i + 1]
            if not f.same(o[1], M.LEN(src)):
                return None, items
            items.append((("list", cls), M.coll_of(I.mkseq(src, [I.mkcase(v, [])]))))
            i += 1
        elif o[0] == "begin" and o[1].op == "int" and all(x[0] == "item" for x in ops[i + 1:i + 1 + o[1].a[0]]) and \
                len(ops) >= i + 1 + o[1].a[0]:
            k = o[1].a[0]
            items.append((("tuple", tuple(x[1] for x in ops[i + 1:i + 1 + k])), tuple(x[2] for x in ops[i + 1:i + 1 + k])))
            i += k
        else:
            return None, items
        i += 1
    return ops[0][1].a[0], items


def decode_runs(ctx, ty, facts, n, items):
    """result of decoding a list of n given items (items None: arbitrary bytes)"""
    bad = []
    root = mk("sym", "rlp")

    def read(i, want):
        if i >= len(items):
            bad.append(f"item {i} is read but only {len(items)} are written")
            return err(mk("sym", "short"))
        cls, v = items[i]
        if cls[0] == "tuple" and want[0] == "opt" and len(cls[1]) <= 1 and all(readable(c, want[1]) for c in cls[1]):
            return ok(M.some(v[0]) if v else M.NONE)  # what the library writes for an option
        if not readable(cls, want):
            bad.append(f"item {i} is written as {cls} and read as {want}")
            return err(mk("sym", "kind"))
        return ok(v)

    def getter(single):
        def h(eng, f, args, st, site, rty):
            k = eng.deep(st, args[1])
            if items is None or k.op != "int" or self_of(eng, st, args[0]) is not root:
                return None
            return [(st, read(k.a[0], itemclass(gen(f)) if single else ("list", itemclass(gen(f)))))]
        return h

    def self_of(eng, st, a):
        return eng.deep(st, M.derefv(eng, st, a)) if a.op == "ref" else a

    def at(eng, f, args, st, site, rty):
        k = eng.deep(st, args[1])
        if items is None or k.op != "int" or self_of(eng, st, args[0]) is not root:
            return None
        return [(st, ok(mk("rlpitem", k.a[0])) if k.a[0] < len(items) else err(mk("sym", "short")))]

    def whole(single):
        def h(eng, f, args, st, site, rty):
            r = self_of(eng, st, args[0])
            if items is None or r.op != "rlpitem":
                return None
            return [(st, read(r.a[0], itemclass(gen(f)) if single else ("list", itemclass(gen(f)))))]
        return h

    def islist(eng, f, args, st, site, rty):
        r = self_of(eng, st, args[0])
        if items is None:
            return None
        if r is root:
            return [(st, TRUE)]
        if r.op == "rlpitem":
            return [(st, TRUE if items[r.a[0]][0][0] in ("list", "opt", "type") else FALSE)]
        return None

    def proto(eng, f, args, st, site, rty):
        if items is None or self_of(eng, st, args[0]) is not root:
            return None
        p = next((x for x in ctx.prog.adts if last(x) == "Prototype"), None)
        if p is None:
            return None
        vi = [v["n"] for v in ctx.prog.adts[p]["v"]].index("List")
        return [(st, ok(agg(p, vi, "List", [INT(n)])))]

    def count(eng, f, args, st, site, rty):
        return [(st, ok(INT(n)))] if items is not None and self_of(eng, st, args[0]) is root else None

    def data(eng, f, args, st, site, rty):
        r = self_of(eng, st, args[0])
        return [(st, read(r.a[0], ("bytes", None)))] if items is not None and r.op == "rlpitem" else None

    hooks = {"Rlp::data": data, "Rlp::val_at": getter(True), "Rlp::list_at": getter(False), "Rlp::prototype": proto, "Rlp::item_count": count,
             "Rlp::at": at, "Rlp::as_val": whole(True), "Rlp::as_list": whole(False), "Rlp::is_list": islist}
    eng = ctx.engine((), hooks)
    st = St()
    if facts is not None:
        st.facts = facts.copy()
    outs = eng.root(ctx.fn(f"{ty} as Decodable::decode"), [root], st)
    ctx.done(eng, outs)
    return eng, outs, bad


def codec_types(ctx, kind):
    return sorted({s.split(" as ")[0] for s in ctx.prog.by_short if s.endswith(kind) and " as " in s})


def values_of(ctx, ty):
    """one value per variant of the type, a symbol per field"""
    p = ctx.adt(ty)
    a = ctx.prog.adts[p]
    return [agg(p, i, v["n"], [mk("sym", f"{ty}.{v['n'] + '.' if a['k'] == 'enum' else ''}{n}") for n in v["f"]])
            for i, v in enumerate(a["v"])]


def norm(t):
    """bytes conversions keep the bytes; the application's decoding undoes its encoding"""
    return t


def same_value(ctx, f, got, want):
    if got is want or f.same(got, want):
        return True
    if got.op == "agg" and want.op == "agg":
        return got.a[0] == want.a[0] and got.a[1] == want.a[1] and len(got.a) == len(want.a) and \
            all(same_value(ctx, f, x, y) for x, y in zip(got.a[3:], want.a[3:]))
    if callname(got) == "decode" or got.op == "fld" and callname(got.a[0]) == "decode":
        c = got if got.op != "fld" else got.a[0]
        if c.op in ("call", "ucall"):
            x = c.a[1]
            x = x.a[0] if x.op == "fld" else x
            if callname(x) == "encode" and x.a[1] is want:
                return True
    b = bag(got)
    if b[0] is want and not b[2] and b[1] is I.AT(want, mk("idx", want)) and \
            not any(x.op in ("sorted", "sortedby", "rev", "sinsert") or x.op == "fold" and x.a[0] == "sinsert" for x in subterms(got)):
        return True
    if want.op == "agg" and want.a[0] == OPTION and got.op == "agg":
        return False
    # an option rebuilt by cases
    if want.op != "agg" and got.op == "agg" and got.a[0] == OPTION:
        if got.a[2] == "None":
            return is_none(f, want)
        return is_some(f, want) and same_value(ctx, f, got.a[3], someval(ctx, want))
    # an enum rebuilt by cases
    if want.op != "agg" and got.op == "agg":
        d = mk("discr", want, got.a[0])
        if f.query(EQ(d, INT(got.a[1]))) is True:
            return all(same_value(ctx, f, x, ctx.eng0().field(want, got.a[1], i,
                       ctx.prog.adts[got.a[0]]["v"][got.a[1]]["f"][i], 1, got.a[0])) for i, x in enumerate(got.a[3:]))
    return False


def c19(ctx):
    enc, dec = codec_types(ctx, "Encodable::rlp_append"), codec_types(ctx, "Decodable::decode")
    both = [t for t in dec if t in enc]
    n = 0
    for ty in dec:
        ctx.ob("what can be decoded can be encoded", ty, ty in enc, "no encoder", "codec.rs")
    for ty in both:
        for val in values_of(ctx, ty):
            inst = f"{ty}::{val.a[2]}" if val.a[2] != ty else ty
            eng, runs = encode_runs(ctx, ty, val)
            ctx.ob("an encoder writes something for every value", inst, bool(runs), "no way through the encoder", "codec.rs")
            for f, k, items in runs:
                ctx.ob("an encoder announces exactly the items it writes", inst, k == len(items),
                       f"announces {k}, writes {len(items)}\n path: {pathdesc(f)}", "codec.rs")
                if k != len(items):
                    continue
                eng2, outs, bad = decode_runs(ctx, ty, f, k, items)
                ctx.ob("every item is read as it was written", inst, not bad, "; ".join(bad) + f"\n path: {pathdesc(f)}",
                       "codec.rs")
                ctx.ob("an encoding can be decoded", inst, bool(outs), pathdesc(f), "codec.rs")
                for s, r in outs:
                    if failing_app(s.facts):
                        continue
                    n += 1
                    if is_err(s.facts, r):
                        why = f"refused: {show(r)}"
                        good = False
                    else:
                        got = okval(ctx, r)
                        good = same_value(ctx, s.facts, got, val) or unset(ctx, ty, s.facts, got, val)
                        why = f"got {show(got)}, wrote {show(val)}"
                    ctx.ob("decoding an encoding gives the value back, field by field", inst, good,
                           f"{why}\n path: {pathdesc(s.facts)}", "codec.rs")
    ctx.floor("codec round trip", n, 17)
    # phase, step and reason codes: injective and undone by the reader
    m = 0
    for ty in ("VoteType", "Step"):
        p = ctx.adt(ty)
        codes = {}
        for i, v in enumerate(ctx.prog.adts[p]["v"]):
            for eng, s, code in code_of(ctx, ty, agg(p, i, v["n"], [])):
                codes.setdefault(code, set()).add(v["n"])
                m += 1
        for c, names in codes.items():
            ctx.ob("different phases and steps have different codes", f"{ty} {show(c)}", len(names) == 1 and c.op == "int",
                   str(names), "types.rs")
    ctx.floor("code of a phase or step", m, 7)


def code_of(ctx, ty, v):
    keys = [s for s in ctx.prog.by_short if s.endswith(f" as From::from") or s.endswith(" as Into::into")]
    out = []
    for s in keys:
        for k in ctx.prog.by_short[s]:
            b = ctx.prog.bodies[k]
            if b.argc == 1 and b.locals[0][0] == "u8" and I.strip_generics(b.locals[1][0]).endswith("::" + ty):
                eng = ctx.engine(())
                outs = eng.root(k, [v], St())
                ctx.done(eng, outs)
                out += [(eng, s2, r) for s2, r in outs]
    return out


def failing_app(f):
    """the application's own codec refuses its own encoding (excluded by its contract)"""
    for l, v in f.literals():
        for x in subterms(l):
            if x.op in ("call", "ucall") and str(x.a[0]).endswith("Codec::decode") and is_err(f, x):
                return True
            if x.op in ("call", "ucall") and callname(x) == "decode" and is_err(f, x) and \
                    any(callname(y) == "encode" for y in subterms(x)):
                return True
    return False


def unset(ctx, ty, f, got, want):
    """an interval of 0 or the default timer settings of a status stand for `unset`"""
    if ty != "Status" or got.op != "agg":
        return False
    for n in ctx.prog.adts[got.a[0]]["v"][0]["f"]:
        g, w = ctx.f(got, n), ctx.f(want, n)
        if same_value(ctx, f, g, w):
            continue
        if n in ("interval", "timer_config") and g.op == "agg" and g.a[2] == "None" and is_some(f, w):
            x = someval(ctx, w)
            if n == "interval" and f.query(EQ(x, INT(0))) is True:
                continue
            if n == "timer_config" and any(v and l.op == "eq" and x in l.a for l, v in f.literals()):
                continue
            if n == "timer_config" and default_fields(ctx, f, x):
                continue
        return False
    return True


def default_fields(ctx, f, x):
    """the path compared every field with a constant"""
    p = ctx.adt("DurationConfig")
    fs = ctx.prog.adts[p]["v"][0]["f"]
    return all(any(f.query(EQ(ctx.get(x, "DurationConfig", n), INT(c))) is True for c in consts_in(f)) for n in fs)


def consts_in(f):
    return {x.a[0] for l, v in f.literals() for x in subterms(l) if x.op == "int"}


# ------------------------------------------------------------------------------------------------ C20
def c20(ctx):
    n = m = 0
    enums = {}
    for ty in ("VoteType", "Step"):
        p = ctx.adt(ty)
        d = enums[p] = {}
        for i, v in enumerate(ctx.prog.adts[p]["v"]):
            for eng, s, code in code_of(ctx, ty, agg(p, i, v["n"], [])):
                if code.op == "int":
                    d.setdefault(v["n"], set()).add(code.a[0])
    enums[ctx.adt("UpdateFrom")] = {}
    for ty in codec_types(ctx, "Decodable::decode"):
        eng, outs, bad = decode_runs(ctx, ty, None, None, None)
        n += 1
        for what, site, chain, f, s in eng.panics:
            ctx.ob("a decoder does not panic", ty, False, f"{what}\n path: {pathdesc(f)}", f"{site} in " +
                   " > ".join(last(p) for p, _ in chain))
        for x in eng.asserts:
            kind, c, site, chain, f = x[0], x[1], x[2], x[3], x[4]
            if kind == "overflow:Add" and not any(t.op in ("sym", "call", "fld", "any", "get", "mget") for t in subterms(c)) and \
                    any(t.op == "idx" for t in subterms(c)):
                continue  # a sum over a constant range
            ctx.ob("a decoder does not panic", f"{ty}: {kind}", False, f"{show(c) if isinstance(c, T) else c}\n path: {pathdesc(f)}",
                   f"{site} in " + " > ".join(last(p) for p, _ in chain))
        for name, args, site, chain, f in eng.indexes:
            xs = [x for x in args if isinstance(x, T)]
            if name == "with_capacity":
                good = all(x.op in ("len", "int") or callname(x) in ("len", "item_count", "size", "min") for x in xs)
            else:
                # without a look at the length no index is safe
                good = name.endswith("Bytes::copy_from_slice") or not xs or \
                    any(M.LEN(xs[0]) in set(subterms(l)) for l, v in f.literals())
            ctx.ob("a decoder does not panic", f"{ty}: {name}", good, f"{', '.join(show(x)[:200] for x in xs)}\n path: {pathdesc(f)}",
                   f"{site} in " + " > ".join(last(p) for p, _ in chain))
        ctx.ob("a decoder does not panic", ty, True)
        oks = [r for s, r in outs if not is_err(s.facts, r)]
        errs = [r for s, r in outs if is_err(s.facts, r)]
        ctx.ob("a decoder ends with a value or an error on every input", ty, bool(oks) and bool(errs),
               f"{len(oks)} values, {len(errs)} errors", "codec.rs")
        # the item count is checked, unknown codes are errors
        for s, r in outs:
            if is_err(s.facts, r):
                continue
            ctx.ob("a value is returned only for the right number of items", ty, counted_items(s.facts),
                   pathdesc(s.facts), "codec.rs")
            # a phase, step or reason is named only by its own code
            for x in set(subterms(r)):
                if x.op == "agg" and x.a[0] in enums:
                    m += 1
                    codes = enums[x.a[0]].get(x.a[2])
                    good = any(t.op != "int" and is_item(t) and (codes is None or k in codes) for t, k in s.facts.val.items())
                    ctx.ob("a phase, step or reason is accepted only with its own code", f"{ty}: {x.a[2]}", good,
                           f"{show(r)[:300]}\n path: {pathdesc(s.facts)}", "codec.rs")
    ctx.floor("decoder", n, 17)
    ctx.floor("code read", m, 10)


def is_item(t):
    """an integer read from the bytes"""
    return t.op != "discr" and any(callname(x) in ("val_at", "at", "as_val") for x in subterms(t))


def counted_items(f):
    """the path fixed the number of items"""
    for l, v in f.literals():
        for x in subterms(l):
            if callname(x) in ("prototype", "item_count") and x.op in ("call", "ucall"):
                return True
    return False


# ------------------------------------------------------------------------------------------------ C06
SIGNED = {"SignedVote": ("Vote", "vote"), "SignedProposal": ("Proposal", "proposal")}


def c06(ctx):
    n = {}

    def own(lab, p, A, a, kind, sig, payload):
        n[kind] = n.get(kind, 0) + 1
        good = own_sig(sig) and hashed(sig.a[0].a[2]) is not None and \
            same_payload(a.facts, hashed(sig.a[0].a[2]), payload) and is_ok(a.facts, sig.a[0]) and \
            sig.a[0].a[1] is ctx.get(S, "State", "util") and sig.a[0].a[2].a[1] is ctx.get(S, "State", "util")
        ctx.ob("a sent message carries the node's signature over the hash of its own content", f"{lab}: {kind}", good,
               desc(lab, p, f"signature {show(sig)[:400]} of {show(payload)[:400]}", A), where(a.e))

    for lab, p, A in all_paths(ctx):
        for a in A:
            m = None
            if a.k in ("broadcast", "transmit"):
                for v in ("SignedVote", "SignedProposal", "SignedChoke"):
                    x = msgof(a.msg, v)
                    if x is not None:
                        m = (v, x)
            elif a.k == "col" and a.fn == "VoteCollector::insert_vote" and \
                    own_sig(ctx.get(a.args[2], "SignedVote", "signature")):
                m = ("SignedVote", a.args[2])
            elif a.k == "col" and a.fn == "ChokeCollector::insert" and a.args[1].op == "agg":
                m = ("SignedChoke", a.args[1])
            if m is None:
                continue
            v, x = m
            if v == "SignedChoke":
                pl = hash_choke(ctx, ctx.get(x, "SignedChoke", "choke"))
            else:
                pl = ctx.get(x, v, SIGNED[v][1])
            own(lab, p, A, a, v, ctx.get(x, v, "signature"), pl)
    for v in ("SignedVote", "SignedProposal", "SignedChoke"):
        ctx.floor("own " + v, n.get(v, 0), 1)
    # the verifier's side: the hash is of the message's own content, the signature its own
    k = 0
    crypto = mk("sym", "crypto")
    for v in PEER:
        m = mk("sym", MSGS[v])
        if v == "SignedChoke":
            pl = hash_choke(ctx, ctx.get(m, "SignedChoke", "choke"))
            who = ctx.get(m, "SignedChoke", "address")
        elif v == "AggregatedVote":
            pl = None
        else:
            pl = ctx.get(m, v, SIGNED[v][1])
            who = ctx.get(m, "SignedVote", "voter") if v == "SignedVote" else ctx.get(pl, "Proposal", "proposer")
        for f, evs in tasks(ctx, v):
            for e in evs:
                if e.name == "Crypto::verify_signature" and pl is not None:
                    k += 1
                    h = hashed(e.args[2])
                    good = h is not None and same_payload(e.facts, h, pl) and \
                        e.facts.same(e.args[1], ctx.get(m, v, "signature")) and e.facts.same(e.args[3], who)
                    ctx.ob("a received message is verified over the same encoding its author signs", v, good,
                           f"verifies {show(e.args[1])} over {show(e.args[2])} by {show(e.args[3])}", where(e))
                if e.name == "Crypto::verify_aggregated_signature":
                    k += 1
                    h = hashed(e.args[2])
                    q = qc_of(e.args[1])
                    good = False
                    if h is not None and q is not None:
                        g = lambda n_: ctx.get(q, "AggregatedVote", n_)  # noqa
                        want = ctx.mkagg("Vote", height=g("height"), round=g("round"), vote_type=g("vote_type"),
                                         block_hash=g("block_hash"))
                        good = same_payload(e.facts, h, want)
                    ctx.ob("a certificate is verified over the encoding of the vote its voters signed", v, good,
                           f"verifies over {show(e.args[2])}", where(e))
    ctx.floor("signature verified", k, 4)
    # every field that carries meaning is part of the encoding
    sizes = {}
    for ty in ("Vote", "Proposal", "HashChoke"):
        for val in values_of(ctx, ty):
            p = ctx.adt(ty)
            fs = ctx.prog.adts[p]["v"][0]["f"]
            eng, runs = encode_runs(ctx, ty, val)
            for f, cnt, items in runs:
                sizes.setdefault(ty, set()).add(cnt)
                ctx.ob("a signed encoding announces exactly the items it writes", ty, cnt == len(items), f"{cnt}/{len(items)}",
                       "codec.rs")
                for name, sym in zip(fs, val.a[3:]):
                    full = [c for c, x in items if carries(ctx, f, x, sym, c)]
                    ctx.ob("a signed encoding contains the field completely", f"{ty}.{name}", bool(full),
                           f"items: {[show(x) for c, x in items]}\n path: {pathdesc(f)}", "codec.rs")
    szs = [frozenset(x) for x in sizes.values()]
    ctx.ob("votes, proposals and chokes cannot be mistaken for one another", "signed encodings",
           len(sizes) == 3 and sum(len(x) for x in szs) == len(frozenset().union(*szs)) == 3, str(sizes), "codec.rs")
    # the digest of a choke speaks of the choke's own height and round
    for ty, fn in (("Choke", "Choke::to_hash"), ("AggregatedChoke", "AggregatedChoke::to_hash")):
        key = ctx.prog.fn(fn)
        if key is None:
            continue
        eng = ctx.engine(())
        x = mk("sym", "ck")
        outs = eng.root(key, [x], St())
        ctx.done(eng, outs)
        for s, r in outs:
            good = ctx.isv(r, "HashChoke") and s.facts.same(ctx.f(r, "height"), ctx.get(x, ty, "height")) and \
                s.facts.same(ctx.f(r, "round"), ctx.get(x, ty, "round"))
            ctx.ob("what is signed of a choke is its own height and round", fn, good, show(r), "types.rs")


def qc_of(sig):
    """the certificate a signature belongs to: x.signature.signature -> x"""
    if sig.op == "fld" and isinstance(sig.a[0], T) and sig.a[0].op == "fld":
        return sig.a[0].a[0]
    return None


def same_payload(f, x, y):
    if x is y or f.same(x, y):
        return True
    if x.op == "agg" and y.op == "agg" and x.a[0] == y.a[0] and x.a[1] == y.a[1]:
        return all(same_payload(f, a, b) for a, b in zip(x.a[3:], y.a[3:]))
    if x.op == "agg" and x.a[0] != OPTION or y.op == "agg" and y.a[0] != OPTION:
        a, b = (x, y) if x.op == "agg" else (y, x)
        if len(a.a) > 3 and all(t.op == "fld" for t in a.a[3:] if isinstance(t, T)):
            return all(t.op == "fld" and t.a[0] is b for t in a.a[3:])
    return False


def carries(ctx, f, x, sym, cls):
    """item x determines the field value sym"""
    if x is sym or f.same(x, sym):
        return True
    if x.op == "int":
        # a code: the path fixed the variant
        for l, v in f.literals():
            if v and l.op == "eq" and any(isinstance(y, T) and y.op == "discr" and y.a[0] is sym for y in l.a):
                return True
    y = x.a[0] if x.op == "fld" else x
    return callname(y) == "encode" and y.op in ("call", "ucall", "res") and any(z is sym for z in subterms(y))


RULES = {"C06": c06, "C19": c19, "C20": c20}
