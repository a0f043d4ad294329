"""Rules about the serde forms of values: what is written reads back as the same value (C49)."""
import re
from lib import *
from roots import *
import interp as I

A0, A1 = mk("sym", "a0"), mk("sym", "a1")
READS = ("next_element", "next_key", "next_value", "variant", "unit_variant", "newtype_variant", "deserialize_str", "deserialize_string",
         "deserialize_struct")


class Form(Exception):
    pass


def cut(s):
    """a type's name without its own arguments"""
    if not s.endswith(">"):
        return s
    d = 0
    for i in range(len(s) - 1, -1, -1):
        d += (s[i] == ">" and s[i - 1:i] != "-") - (s[i] == "<")
        if d == 0:
            return s[:i] or s
    return s


def bodies(ctx, name, trait):
    for k, b in ctx.prog.bodies.items():
        j = b.j
        if j["local"] and j.get("name") == name and base(k).endswith("::" + name) and I.last(I.strip_generics(j.get("trait") or "")) == trait:
            yield k, cut(j["self"]) if trait == "Visitor" else j["self"]


def run(ctx, key, args, facts=None):
    eng = ctx.engine(STATE_ATOMS, None, 1500000)
    eng.keep_calls = {"coding::hex_encode"}
    st = St()
    if facts is not None:
        st.facts = facts
    outs = eng.call_key(key, args, st)
    ctx.done(eng, outs)
    return eng, [(s.facts, r) for s, r in outs]


def base(k):
    """the body's key without its type arguments"""
    return k.split("[")[0]


def pick(ctx, name, trait, pred):
    """the bodies of that trait method, one per impl, in source order"""
    seen = {}
    for k, s in bodies(ctx, name, trait):
        if pred(s):
            seen.setdefault(base(k), k)
    num = lambda k: [int(x) if x.isdigit() else x for x in re.split(r"(\d+)", k)]  # noqa: E731
    return [seen[k] for k in sorted(seen, key=num)]


def failed(ctx, f):
    """some read of the path failed or found nothing"""
    for l, v in f.literals():
        for t in subterms(l):
            if t.op == "call" and callname(t) in READS:
                if is_err(f, t) or callname(t) == "next_element" and is_none(f, okval(ctx, t)):
                    return True
    return False


def is_read(ctx, t):
    """(name, place, in wrapper) of the read a value comes from"""
    wrapped = False
    if t.op == "fld" and t.a[3] == "value" and t.a[0].op == "fld":
        wrapped, t = True, t.a[0]
    for c in subterms(t):
        if c.op == "call" and callname(c) == "next_element" and t is someval(ctx, okval(ctx, c)):
            n, s = 0, c.a[1]
            while s.op == "mut":
                n, s = n + 1, s.a[2]
            return "next_element", n, wrapped
        if c.op == "call" and callname(c) in ("next_value", "newtype_variant") and t is okval(ctx, c):
            return callname(c), 0, wrapped
    raise Form(f"no value read: {show(t)}")


# ------------------------------------------------------------- writing
def written(ctx, key):
    """every way to write a value: (facts, kind, details)"""
    out = []
    for f, r in run(ctx, key, [A0, A1])[1]:
        if r.op == "agg" and r.a[0] == "std::result::Result" or r.op == "agg" and I.last(r.a[0]) == "Result":
            if r.a[1] == 1 and any(is_err(f, t) for l, v in f.literals() for t in subterms(l) if t.op == "call"):
                continue
            raise Form(f"writes nothing: {show(r)}")
        out.append((f, parse(r)))
    if not out:
        raise Form("writes nothing")
    return out


def parse(r):
    n = callname(r)
    if n == "serialize_str":
        return ("str", r.a[2])
    if n == "serialize_unit_variant":
        return ("unit", r.a[3], r.a[4], [])
    if n == "serialize_newtype_variant":
        return ("newtype", r.a[3], r.a[4], [r.a[5]])
    if n == "end":
        t, fs = r.a[1], []
        while t.op == "mut" and t.a[0].split("::")[-1] == "serialize_field":
            fs.insert(0, t.a[3:])
            t = t.a[2]
        c = t.a[0] if t.op == "fld" else t
        if callname(c) == "serialize_struct" and c.a[3] is INT(len(fs)):
            return ("struct", c.a[2], None, [(x[0], x[1]) for x in fs])
        if callname(c) == "serialize_tuple_variant" and c.a[5] is INT(len(fs)):
            return ("tuple", c.a[3], c.a[4], [x[0] for x in fs])
        if callname(c) == "serialize_struct_variant" and c.a[5] is INT(len(fs)):
            return ("structv", c.a[3], c.a[4], [(x[0], x[1]) for x in fs])
    raise Form(f"unknown form {show(r)[:400]}")


def field_of(t, variant=None):
    """(place, in wrapper) of the field of the value that is written"""
    wrapped = False
    if t.op == "agg" and I.last(t.a[0]) == "__SerializeWith":
        wrapped = True
        t = t.a[3]
        t = t.a[3] if t.op == "agg" else t
    if t.op == "fld" and t.a[0] is A0 and t.a[1] in (variant, None):
        return t.a[2], wrapped
    raise Form(f"not a field of the value: {show(t)[:300]}")


# ------------------------------------------------------------- names
def keys_of(ctx, visitor, names, ints=()):
    """what the identifier visitor takes each name (each number) for"""
    ks = pick(ctx, "visit_str", "Visitor", lambda s: s == visitor)
    if len(ks) != 1:
        raise Form(f"names are read by {visitor}")
    res, ty = {}, None
    for vs, ks in ((names, ks), (ints, pick(ctx, "visit_u64", "Visitor", lambda s: s == visitor))):
        for k in ks:
            ps = run(ctx, k, [A0, A1])[1]
            for n in vs:
                got = set()
                for f, r in ps:
                    if r.op == "agg" and r.a[1] == 0 and f.query(EQ(A1, n)) is True:
                        got.add(r.a[3])
                    elif f.query(EQ(A1, n)) is not False and f.assume(EQ(A1, n), True) is not None and \
                            not any(v and l.op == "eq" and A1 in l.a for l, v in f.literals()) and \
                            not any(not v and l is EQ(A1, n) for l, v in f.literals()):
                        got.add(r.a[3] if r.op == "agg" and r.a[1] == 0 else r)
                if len(got) != 1:
                    raise Form(f"the name {show(n)} is not read by {visitor}")
                g = next(iter(got))
                if g.op != "agg" or g.a[0].endswith("Result"):
                    raise Form(f"the name {show(n)} is not read")
                res[n] = g.a[1]
                ty = g.a[0]
    res[None] = len(ctx.prog.adts[ty]["v"])
    return res


def feasible(ctx, lits, keyterm, n):
    """the variants of the key which a way is taken for"""
    tys = {t for l, v in lits for t in subterms(l) if t.op == "discr" and t.a[0] is keyterm}
    if len(tys) > 1:
        raise Form("two keys")
    f = St().facts
    for l, v in lits:
        g = f.assume(l, v)
        if g is None:
            return set()
        f = g
    if not tys:
        return set(range(n))
    d = next(iter(tys))
    return {k for k in range(n) if f.assume(EQ(d, INT(k)), True) is not None}


# ------------------------------------------------------------- reading
def fieldvisitor(ctx, visitor):
    if visitor.endswith("::__Visitor"):
        return visitor[:-len("Visitor")] + "FieldVisitor"
    parent = visitor.rsplit("::", 1)[0]
    c = sorted({s for k, s in bodies(ctx, "visit_str", "Visitor") if s.startswith(parent + "::_::<impl") and "__FieldVisitor" in s})
    if len(c) != 1:
        raise Form(f"names are read by {c}")
    return c[0]


def read_seq(ctx, visitor, nwritten):
    """field -> (element, in wrapper) of the value that is read from a sequence of that many elements"""
    ks = pick(ctx, "visit_seq", "Visitor", lambda s: s == visitor)
    if len(ks) != 1:
        raise Form(f"no sequence is read by {visitor}")
    return seq_body(ctx, ks[0])


def seq_body(ctx, key):
    res = None
    for f, r in run(ctx, key, [A0, A1])[1]:
        if failed(ctx, f):
            continue
        if r.op != "agg" or r.a[1] != 0 or I.last(r.a[0]) != "Result" or r.a[3].op != "agg":
            raise Form(f"a whole sequence is read as {show(r)[:300]}")
        v = r.a[3]
        m = [is_read(ctx, x) for x in v.a[3:]]
        got = (v.a[0], v.a[1], [(x[1], x[2]) for x in m])
        if res is not None and res != got:
            raise Form("a sequence is read in two ways")
        res = got
    if res is None:
        raise Form("no sequence is read")
    return res


def read_map(ctx, visitor, names):
    """field -> (name, in wrapper) of the value that is read from a map"""
    ks = pick(ctx, "visit_map", "Visitor", lambda s: s == visitor)
    if len(ks) != 1:
        raise Form(f"no map is read by {visitor}")
    kn = keys_of(ctx, fieldvisitor(ctx, visitor), names)
    nvar = kn.pop(None)
    if len(set(kn.values())) != len(names):
        raise Form("two names are taken for one field")
    eng, ps = run(ctx, ks[0], [A0, A1])
    res = None
    errs = []
    for f, r in ps:
        if r.op != "agg" or I.last(r.a[0]) != "Result":
            raise Form(f"a map is read as {show(r)[:300]}")
        if r.a[1] == 1:
            errs.append((f, r))
            continue
        v = r.a[3]
        if v.op != "agg":
            raise Form(f"a map is read as {show(v)[:300]}")
        phis = []
        for x in v.a[3:]:
            p = next((t for t in subterms(x) if t.op == "phi" and x is someval(ctx, t)), None)
            phis.append(p)
        if None in phis:
            if any(is_none(f, mk2) for l, w in f.literals() for mk2 in subterms(l) if mk2.op == "phi"):
                continue  # a field is not there
            raise Form(f"a map is read as {show(v)[:300]}")
        if res is not None and res[2] != phis:
            raise Form("a map is read in two ways")
        res = (v.a[0], v.a[1], phis)
    if res is None:
        raise Form("no map is read")
    phis = res[2]
    fields = []
    for p in phis:
        if p not in eng.recur:
            raise Form(f"{show(p)} is not set while the map is read")
        init, backs = eng.recur[p]
        if not (init.op == "agg" and I.last(init.a[0]) == "Option" and init.a[1] == 0):
            raise Form("a field is set before it is read")
        sets = set()
        keep = set()
        wrap = set()
        for v, lits in backs:
            key = keyterm(ctx, lits)
            fs = feasible(ctx, lits, key, nvar)
            if v is p:
                keep |= fs
                continue
            if not (v.op == "agg" and I.last(v.a[0]) == "Option" and v.a[1] == 1):
                raise Form(f"a field is set to {show(v)[:200]}")
            n, _, w = is_read(ctx, v.a[3])
            if n != "next_value" or len(fs) != 1:
                raise Form(f"a field is set to {show(v)[:200]} for several names")
            sets |= fs
            wrap.add(w)
        if len(sets) != 1 or len(wrap) != 1:
            raise Form("a field is read under several names")
        if sets & keep:
            raise Form("the value of a field may be dropped")
        k = next(iter(sets))
        name = [n for n, x in kn.items() if x == k]
        if len(name) != 1:
            raise Form(f"a field is read under a name nothing is written under")
        fields.append((name[0], next(iter(wrap)), k, p))
    # nothing that was written is refused
    for f, r in errs:
        if failed(ctx, f):
            continue
        if any(is_none(f, p) for p in phis):
            continue  # a field is not there
        key = keyterm(ctx, f.literals())
        if key is not None and all(any(k == x[2] and is_some(f, x[3]) for x in fields) for k in feasible(ctx, f.literals(), key, nvar)):
            continue  # a field is there twice
        raise Form(f"a map is refused: {show(r)[:200]}")
    return res[0], res[1], [(n, w) for n, w, _, _ in fields]


def keyterm(ctx, lits):
    for l, v in lits:
        for t in subterms(l):
            if t.op == "call" and callname(t) == "next_key":
                return someval(ctx, okval(ctx, t))
    return None


# ------------------------------------------------------------- wrappers: written by one function, read by another
def mapped(t):
    """(list, its element, element of the result) of a list made element by element"""
    if t.op == "fold" and t.a[0] == "push" and t.a[2] is I.EMPTYC and len(t.a) == 4 and len(t.a[3].a) == 1:
        return t.a[1], I.AT(t.a[1], mk("idx", t.a[1])), t.a[3].a[0]
    raise Form(f"not a list made element by element: {show(t)[:300]}")


def inverse(ctx, wkey, rkey):
    """the reader of a wrapper gives back what its writer was given"""
    V = None
    ws = written(ctx, wkey)
    if len(ws) != 1:
        raise Form("a wrapped value is written in several ways")
    w = ws[0][1]
    got = None
    for f, r in run(ctx, rkey, [A0])[1]:
        if failed(ctx, f):
            continue
        if r.op != "agg" or r.a[1] != 0 or r.a[3].op != "agg":
            raise Form(f"a wrapped value is read as {show(r)[:300]}")
        got = r.a[3].a[3]
    if got is None:
        raise Form("a wrapped value is not read")
    if w[0] == "str":
        c = got.a[0] if got.op == "fld" else got
        if callname(c) not in ("deserialize_str", "deserialize_string") or got is not okval(ctx, c) or c.a[1] is not A0:
            raise Form(f"a string is read as {show(got)[:300]}")
        vis = c.a[2]
        ks = pick(ctx, "visit_str", "Visitor", lambda s: s == vis.a[0])
        if len(ks) != 1 or pick(ctx, "visit_string", "Visitor", lambda s: s == vis.a[0]):
            raise Form(f"a string is read by {show(vis)}")
        n = 0
        for f, r in run(ctx, ks[0], [vis, w[1]])[1]:
            if any(t.op == "call" and callname(t) == "hex_decode" and t.a[1].op == "call" and callname(t.a[1]) == "hex_encode" and is_err(f, t)
                   for l, v in f.literals() for t in subterms(l)):
                continue  # what hex_encode wrote, hex_decode reads
            x = r.a[3] if r.op == "agg" and r.a[1] == 0 else None
            if x is None:
                raise Form(f"a string that was written is refused: {show(r)[:300]}")
            d = x.a[0] if x.op == "fld" else x
            if not (callname(d) == "hex_decode" and x is okval(ctx, d) and d.a[1].op == "call" and callname(d.a[1]) == "hex_encode"):
                raise Form(f"reads {show(x)[:300]}")
            field_values(d.a[1].a[1])
            n += 1
        if not n:
            raise Form("no string is read")
        return
    if w[0] == "struct":
        src, el, out = mapped(got)
        # the struct that is read
        if src.op != "fld":
            raise Form(f"reads {show(src)[:300]}")
        c = src.a[0].a[0] if src.a[0].op == "fld" else src.a[0]
        if callname(c) != "deserialize_struct" or src.a[0] is not okval(ctx, c) or c.a[1] is not A0 or c.a[2] is not w[1]:
            raise Form(f"reads {show(src)[:300]}")
        visitor = next((s for k, s in bodies(ctx, "visit_seq", "Visitor") if s == c.a[4].a[0]), None)
        names = [n for n, _ in w[3]]
        vals = [v for _, v in w[3]]
        _, _, m = read_seq(ctx, visitor, len(vals))
        _, _, mm = read_map(ctx, visitor, names)
        i = src.a[2]
        if m[i] != (names.index(mm[i][0]), False) or mm[i][1]:
            raise Form("sequence and map form are read differently")
        wsrc, wel, wout = mapped(vals[m[i][0]])
        field_values(wsrc)
        # each element: wrapped when written, taken out of the wrapper when read
        if not (wout.op == "agg" and len(wout.a) == 4 and wout.a[3] is wel and out.op == "fld" and out.a[0] is el and out.a[2] == 0):
            raise Form(f"elements are written as {show(wout)[:200]} and read as {show(out)[:200]}")
        return
    raise Form(f"written as {w[0]}")


def field_values(t):
    """the value in the wrapper that is written"""
    if not (t.op == "fld" and t.a[0].op == "fld" and t.a[0].a[3] == "values" and t.a[0].a[0] is A0 or
            t.op == "fld" and t.a[3] == "values" and t.a[0] is A0):
        raise Form(f"writes {show(t)[:300]}")


# ------------------------------------------------------------- types
def check_type(ctx, ty, wkey):
    adt = ctx.prog.adts[I.strip_generics(ty)]
    ws = written(ctx, wkey)
    visitor = f" for {ty}>::deserialize::__Visitor"
    vis = sorted({s for n in ("visit_seq", "visit_enum") for k, s in bodies(ctx, n, "Visitor") if s.endswith(visitor) and " as " not in s})
    if len(vis) != 1:
        raise Form(f"read by {vis}")
    vis = vis[0]
    root = pick(ctx, "deserialize", "Deserialize", lambda s: s == ty)
    rs = [r for k in root for _, r in run(ctx, k, [A0])[1]]
    if len(rs) != 1 or callname(rs[0]) not in ("deserialize_struct", "deserialize_enum") or rs[0].a[1] is not A0 or \
            rs[0].a[4].a[0] != vis:
        raise Form(f"read by {[show(r)[:200] for r in rs]}")
    W = pick(ctx, "serialize", "Serialize", lambda s: f" for {ty}>::serialize::__SerializeWith" in s)
    RS, RM = ([k for k in pick(ctx, "deserialize", "Deserialize", lambda s: f"{visitor}<" in s and f">::{m}::__DeserializeWith" in s)]
              for m in ("visit_seq", "visit_map"))
    if adt["k"] == "struct":
        fs = adt["v"][0]["f"]
        if len(ws) != 1 or ws[0][1][0] != "struct":
            raise Form(f"written as {[w[1][0] for w in ws]}")
        w = ws[0][1]
        if rs[0].a[2] is not w[1]:
            raise Form("written and read under two type names")
        order = [field_of(v) for _, v in w[3]]
        ctx.ob("every field is written once", ty, sorted(i for i, _ in order) == list(range(len(fs))),
               f"written: {[show(n) for n, _ in w[3]]}, fields: {fs}", ty)
        names = {i: n for (i, _), (n, _) in zip(order, w[3])}
        wrapped = {i: b for i, b in order}
        _, _, m = read_seq(ctx, vis, len(order))
        for i, (e, b) in enumerate(m):
            good = e < len(order) and order[e][0] == i and b == wrapped.get(i)
            ctx.ob("a field of the sequence form reads back", f"{ty}.{fs[i]}", good, f"element {e}, order {order}", ty)
        _, _, mm = read_map(ctx, vis, [n for n, _ in w[3]])
        for i, (n, b) in enumerate(mm):
            ctx.ob("a field of the map form reads back", f"{ty}.{fs[i]}", names.get(i) is n and b == wrapped.get(i), f"name {show(n)}", ty)
        wr = [i for i, b in order if b]
        # the wrappers come in the order of the fields
        wr = sorted(wr)
        for lst, what in ((RS, "sequence"), (RM, "map")):
            if len(W) != len(wr) or len(lst) != len(wr):
                raise Form(f"{len(W)} wrapped writers, {len(lst)} readers of {len(wr)} fields")
            for i, a, b in zip(wr, W, lst):
                try:
                    inverse(ctx, a, b)
                    good, why = True, ""
                except Form as e:
                    good, why = False, str(e)
                ctx.ob("a field with its own encoding reads back", f"{ty}.{fs[i]}: {what} form", good, why, ty)
        return 1
    vs = adt["v"]
    byv = {}
    for f, w in ws:
        d = [k for k in range(len(vs)) if f.assume(EQ(mk("discr", A0, I.strip_generics(ty)), INT(k)), True) is not None]
        if len(d) != 1 or d[0] in byv:
            raise Form(f"variants {d} are written as {w[0]}")
        byv[d[0]] = w
    ctx.ob("every variant is written", ty, sorted(byv) == list(range(len(vs))), f"written: {sorted(byv)}", ty)
    names = [w[2] for w in byv.values()]
    idx = [w[1] for w in byv.values()]
    kn = keys_of(ctx, fieldvisitor(ctx, vis), names, idx)
    key = pick(ctx, "visit_enum", "Visitor", lambda s: s == vis)[0]
    ps = run(ctx, key, [A0, A1])[1]
    tv = pick(ctx, "visit_seq", "Visitor", lambda s: f"{visitor}<" in s and ">::visit_enum::__Visitor" in s)
    tuples = sorted(j for j, w in byv.items() if w[0] == "tuple")
    if len(tv) != len(tuples):
        raise Form("tuple variants")
    for j, w in sorted(byv.items()):
        inst = f"{ty}::{vs[j]['n']}"
        k = kn[w[2]]
        ctx.ob("a variant is read under its name and its number", inst, kn[w[1]] == k, f"name {show(w[2])}, number {show(w[1])}", ty)
        hits = []
        for f, r in ps:
            if failed(ctx, f):
                continue
            c = next((t for l, v in f.literals() for t in subterms(l) if t.op == "call" and callname(t) == "variant"), None)
            ov = okval(ctx, c)
            kt = next((t.a[0] for l, v in f.literals() for t in subterms(l) if t.op == "discr" and t.a[0].op == "fld" and
                       t.a[0].a[0] is ov and t.a[0].a[2] == 0), None)
            if k in feasible(ctx, f.literals(), kt, len(vs)):
                hits.append((f, r))
        good = bool(hits)
        for f, r in hits:
            if w[0] == "tuple":
                if not (callname(r) == "tuple_variant" and r.a[2] is INT(len(w[3]))):
                    good = False
                    continue
                _, jj, m = seq_body(ctx, tv[tuples.index(j)])
                good &= jj == j and [x[0] for x in m] == [field_of(x, j)[0] for x in w[3]] == list(range(len(w[3])))
                good &= not any(x[1] for x in m) and not any(field_of(x, j)[1] for x in w[3])
                continue
            if not (r.op == "agg" and r.a[1] == 0 and r.a[3].op == "agg" and r.a[3].a[1] == j):
                good = False
                continue
            v = r.a[3]
            if w[0] == "newtype":
                good &= len(v.a) == 4 and is_read(ctx, v.a[3]) == ("newtype_variant", 0, False) and field_of(w[3][0], j) == (0, False)
            else:
                good &= w[0] == "unit" and len(v.a) == 3
        ctx.ob("a variant reads back", inst, good, f"written as {w[0]}; read: {[show(r)[:200] for f, r in hits]}", ty)
    return 1


def c49(ctx):
    n = 0
    read = {s for k, s in bodies(ctx, "deserialize", "Deserialize")}
    for key in pick(ctx, "serialize", "Serialize", lambda s: "__SerializeWith" not in s):
        ty = next(s for k, s in bodies(ctx, "serialize", "Serialize") if k == key)
        if ty not in read or I.strip_generics(ty) not in ctx.prog.adts:
            continue
        try:
            n += check_type(ctx, ty, key)
        except Form as e:
            ctx.ob("the form of a type is understood", ty, False, str(e), ty)
    ctx.floor("types that are written and read", n, 11)


RULES = {"C49": c49}
