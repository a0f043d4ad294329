"""Abstract semantics of the library functions the analysed code calls.

Each model maps abstract arguments to abstract results; library code is never executed."""
from terms import *
import interp as I

DIVERGE_PATHS = ("panicking::", "option::unwrap_failed", "option::expect_failed", "unwrap_failed::",
                 "result::unwrap_failed", "rt::begin_panic", "slice_index", "cell::panic")

NOISE_CALLS = {
    "fmt::format", "coding::hex_encode", "ToString::to_string", "Arguments::new", "Arguments::from_str",
    "Argument::new_debug", "Argument::new_display", "__private_api::log", "__private_api::loc",
    "Tag::new", "LogBuilder::field", "LogBuilder::time", "LogField::new", "Span::log", "Span::set_tag",
    "Span::context", "SystemTime::now", "Argument::new_lower_hex", "Argument::new_upper_hex",
    "future::get_context", "Context::new", "Context::with_value", "String::new", "String::from",
    "Formatter::write_fmt", "Formatter::write_str", "Error::to_string", "Argument::new_pointer",
    "Arguments::new_const", "Arguments::new_v1", "Argument::none", "fmt::must_use",
}
IDENT_FIRST = {
    "hint::must_use", "IntoFuture::into_future", "Pin::new", "Pin::new_unchecked", "Pin::get_mut", "Pin::as_mut",
    "Pin::get_unchecked_mut", "Pin::as_ref", "Pin::get_ref", "Pin::into_inner", "Arc::new", "Box::new", "Box::pin", "Rc::new",
    "RwLock::new", "Mutex::new", "Cell::new", "RwLock::write", "RwLock::read", "Mutex::lock", "RefCell::new",
    "Deref::deref", "DerefMut::deref_mut", "Borrow::borrow", "BorrowMut::borrow_mut", "AsRef::as_ref", "AsMut::as_mut",
    "boxed::box_assume_init_into_vec_unsafe", "Vec::as_slice", "Vec::as_mut_slice", "String::as_str",
    "Vec::into_boxed_slice", "Vec::iter_mut_slice", "hint::black_box", "Bytes::as_ref", "BytesMut::freeze",
    "BytesMut::as_ref", "Vec::shrink_to_fit", "FutureExt::boxed", "Box::into_pin", "fmt::Arguments::as_str",
    "pin::new", "Box::as_ref",
}
# value-level identity (loads the pointee)
LOAD_FIRST = {
    "Clone::clone", "ToOwned::to_owned", "Bytes]::to_vec", "Bytes::copy_from_slice", "Bytes::to_vec", "Arc::clone",
    "From::from", "Into::into", "Vec::to_vec", "BytesMut::to_vec", "Bytes::clone", "Cell::get", "Cell::into_inner",
    "Rlp::as_raw_bytes",
}
ARITH = {"wrapping_add": ADD, "wrapping_sub": SUB, "wrapping_mul": MUL}
EMPTY_CTORS = {"BitVec::new", "BitVec::with_capacity", "Vec::new", "Vec::with_capacity", "HashMap::new", "HashMap::with_capacity", "HashSet::new",
               "HashSet::with_capacity", "BTreeMap::new", "BTreeSet::new", "VecDeque::new", "HashMap::default",
               "VecDeque::with_capacity"}
MAPS = ("HashMap", "BTreeMap")
SETS = ("HashSet", "BTreeSet")


def derefv(eng, st, a, n=0):
    """follow references to a value"""
    while a.op == "ref" and n < 8:
        a = eng.load(st, a)
        n += 1
    if a.op not in ("ref",):
        d = st.env.get(("D", a))
        if d is not None:
            return d
    return a


def one(st, v):
    return [(st, v)]


def place_of(eng, st, a):
    """reference term -> innermost reference (base,path) or opaque pointer"""
    n = 0
    while a.op == "ref" and n < 8:
        v = eng.load(st, a)
        if v.op == "ref":
            a = v
            n += 1
        else:
            break
    return a


def store(eng, st, a, v, site):
    a = place_of(eng, st, a)
    if a.op == "ref":
        eng.write_base(st, a.a[0], a.a[1], v, site)
    else:
        eng.write_base(st, ("D", a), (), v, site)


# ---------------------------------------------------------------- maps
def mget(eng, st, m, k):
    """lookup -> ('some', v) / ('none',) / ('?', term)"""
    n = 0
    while n < 50:
        n += 1
        if m is EMPTYC:
            return ("none",)
        if m.op == "mut" and m.a[0] == "insert":
            k0 = m.a[3]
            if st.facts.same(k0, k):
                return ("some", m.a[4])
            if st.facts.query(EQ(k0, k)) is False:
                m = m.a[2]
                continue
        if m.op == "mut" and m.a[0] == "remove":
            k0 = m.a[3]
            if st.facts.same(k0, k):
                return ("none",)
            if st.facts.query(EQ(k0, k)) is False:
                m = m.a[2]
                continue
        if m.op == "retain":
            q = retained(st, m, k)
            if q is False:
                return ("none",)
            if q is True:
                m = m.a[0]
                continue
        break
    if getattr(eng, "split_keys", False) and k in st.facts.eqs:
        k = min(st.facts.eqclass(k), key=lambda t: (len(show(t)), show(t)))
    return ("?", mk("get", m, k))


def retain_lits(m, c, k):
    """the condition under which the entry of key k is kept by way c"""
    i = mk("idx", m.a[0])
    mp = {mk("mkey", m.a[0], i): k, mk("mval", m.a[0], i): mk("fld", mk("get", m.a[0], k), 1, 0, "0")}
    return [(renorm(subst(l, mp)), v) for l, v in case_lits(c)]


def renorm(t):
    if t.op == "lt":
        return LT(*t.a)
    if t.op == "eq":
        return EQ(*t.a)
    return t


def retained(st, m, k):
    """is the entry of key k (if there) kept by the filtered map m: True / False / None"""
    open_ = False
    for c in m.a[1:]:
        qs = [(st.facts.query(l), v) for l, v in retain_lits(m, c, k)]
        if all(q is v for q, v in qs):
            return True
        if not any(q is not None and q is not v for q, v in qs):
            open_ = True
    return None if open_ else False


def put_entry(st, m, k, f):
    """the map with the existing known entry k replaced by f(old) in place, None when no such entry is known"""
    if m.op != "mut" or m.a[0] != "insert":
        return None
    k0 = m.a[3]
    if k0 is k or st.facts.same(k0, k):
        return mk("mut", "insert", 0, m.a[2], k0, f(m.a[4]))
    if st.facts.query(EQ(k0, k)) is not False:
        return None
    sub = put_entry(st, m.a[2], k, f)
    return None if sub is None else mk("mut", "insert", 0, sub, k0, m.a[4])


def split_key(eng, st, m, k):
    """states in which the keys of the known upper part of the map are decided against k (engines asking for it)"""
    if not getattr(eng, "split_keys", False):
        return [st]
    n = 0
    while n < 50:
        n += 1
        if m.op == "mut" and m.a[0] in ("insert", "remove", "sinsert"):
            k0 = m.a[3]
            if st.facts.same(k0, k):
                if m.a[0] != "insert" or m.op == "mut":
                    return [st]
            q = st.facts.query(EQ(k0, k))
            if q is True:
                return [st]
            if q is False:
                m = m.a[2]
                continue
            out = []
            for val in (True, False):
                f = st.facts.assume(EQ(k0, k), val)
                if f is not None:
                    s = st.copy()
                    s.facts = f
                    out += [s] if val else split_key(eng, s, m.a[2], k)
            return out
        if m.op == "retain":
            q = retained(st, m, k)
            if q is True:
                m = m.a[0]
                continue
            if q is False:
                return [st]
            l = next(l for c in m.a[1:] for l, _ in retain_lits(m, c, k) if st.facts.query(l) is None)
            out = []
            for val in (True, False):
                f = st.facts.assume(l, val)
                if f is not None:
                    s = st.copy()
                    s.facts = f
                    out += split_key(eng, s, m, k)
            return out
        break
    return [st]


def splitting(fn, keyarg=1):
    def g(eng, f, args, st, site, rty):
        if not getattr(eng, "split_keys", False):
            return fn(eng, f, args, st, site, rty)
        m = derefv(eng, st, args[0] if args[0].op != "entry" else args[0].a[0])
        k = eng.deep(st, args[keyarg]) if args[0].op != "entry" else args[0].a[1]
        out = []
        for s in split_key(eng, st, m, k):
            out += fn(eng, f, list(args), s, site, rty) or []
        return out
    return g


def mval(eng, st, m, k):
    r = mget(eng, st, m, k)
    if r[0] == "some":
        return r[1]
    if r[0] == "none":
        return mk("undef", "absent")
    return mk("fld", r[1], 1, 0, "0")


def m_get(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    k = eng.deep(st, args[1])
    r = mget(eng, st, m, k)
    if r[0] == "none":
        return one(st, NONE)
    p = place_of(eng, st, args[0])
    mutable = f["n"] == "get_mut"
    if r[0] == "some":
        if p.op == "ref":
            return one(st, some(mk("ref", p.a[0], p.a[1] + (("k", k),), "mut" if mutable else "sh")))
        return one(st, some(r[1]))
    if not mutable:
        return one(st, r[1])
    d = EQ(mk("discr", r[1], OPTION), INT(1))
    out = []
    fn = st.facts.assume(d, False)
    if fn is not None:
        s = st.copy()
        s.facts = fn
        out.append((s, NONE))
    fs = st.facts.assume(d, True)
    if fs is not None:
        st.facts = fs
        if p.op == "ref":
            out.append((st, some(mk("ref", p.a[0], p.a[1] + (("k", k),), "mut"))))
        else:
            out.append((st, some(mk("ref", ("D", p), (("k", k),), "mut"))))
    return out


def m_contains_key(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    r = mget(eng, st, m, eng.deep(st, args[1]))
    if r[0] == "some":
        return one(st, TRUE)
    if r[0] == "none":
        return one(st, FALSE)
    return one(st, EQ(mk("discr", r[1], OPTION), INT(1)))


def m_insert(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    k = eng.deep(st, args[1])
    v = eng.deep(st, args[2])
    r = mget(eng, st, m, k)
    m2 = put_entry(st, m, k, lambda old: v)
    store(eng, st, args[0], m2 if m2 is not None else mk("mut", "insert", 0, m, k, v), site)
    return one(st, some(r[1]) if r[0] == "some" else NONE if r[0] == "none" else r[1])


def m_remove(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    k = eng.deep(st, args[1])
    r = mget(eng, st, m, k)
    store(eng, st, args[0], EMPTYC if m is EMPTYC else mk("mut", "remove", 0, m, k), site)
    return one(st, some(r[1]) if r[0] == "some" else NONE if r[0] == "none" else r[1])


def m_entry(eng, f, args, st, site, rty):
    return one(st, mk("entry", args[0], eng.deep(st, args[1])))


def entry_discr(eng, st, e, tyname):
    """a matched map entry: occupied or vacant"""
    r = mget(eng, st, derefv(eng, st, e.a[0]), e.a[1])
    if r[0] == "?":
        occ = EQ(mk("discr", r[1], OPTION), INT(1))
    else:
        occ = TRUE if r[0] == "some" else FALSE
    flag = occ if "btree" in tyname.lower() else NOT(occ)
    return INT(1 if flag is TRUE else 0) if flag in (TRUE, FALSE) else flag


def entry_of(eng, st, a):
    """the entry behind an OccupiedEntry / VacantEntry"""
    v = derefv(eng, st, a)
    if v.op == "fld" and v.a[0].op == "entry":
        return v.a[0]
    return None


def entry_ref(eng, st, e, how="mut"):
    p = place_of(eng, st, e.a[0])
    base, path = (p.a[0], p.a[1]) if p.op == "ref" else (("D", p), ())
    return mk("ref", base, path + (("k", e.a[1]),), how)


def m_slot(eng, f, args, st, site, rty):
    """methods of OccupiedEntry and VacantEntry"""
    e = entry_of(eng, st, args[0])
    if e is None:
        return None
    n = f["n"]
    occ = "OccupiedEntry" in eng.p.short(f)
    m = derefv(eng, st, e.a[0])
    if n in ("key", "into_key"):
        return one(st, e.a[1])
    if n in ("get", "get_mut", "into_mut"):
        return one(st, entry_ref(eng, st, e, "sh" if n == "get" else "mut"))
    if n == "insert":
        old = mval(eng, st, m, e.a[1]) if occ else None
        v = eng.deep(st, args[1])
        store(eng, st, e.a[0], mk("mut", "insert", 0, m, e.a[1], v), site)
        return one(st, old if occ else entry_ref(eng, st, e))
    if n == "remove":
        old = mval(eng, st, m, e.a[1])
        store(eng, st, e.a[0], EMPTYC if m is EMPTYC else mk("mut", "remove", 0, m, e.a[1]), site)
        return one(st, old)
    return None


def m_and_modify(eng, f, args, st, site, rty):
    e = args[0]
    if e.op != "entry":
        return None
    r = mget(eng, st, derefv(eng, st, e.a[0]), e.a[1])
    if r[0] == "none":
        return one(st, e)
    ref = entry_ref(eng, st, e)
    if r[0] == "some":
        return [(s, e) for s, _ in eng.apply(args[1], [ref], st, site)]
    d = EQ(mk("discr", r[1], OPTION), INT(1))
    out = []
    for val in (True, False):
        g = st.facts.assume(d, val)
        if g is not None:
            s = st.copy()
            s.facts = g
            out += [(s2, e) for s2, _ in eng.apply(args[1], [ref], s, site)] if val else [(s, e)]
    return out


def m_or_insert(eng, f, args, st, site, rty):
    e = args[0]
    if e.op != "entry":
        return None
    mref, k = e.a
    m = derefv(eng, st, mref)
    r = mget(eng, st, m, k)
    p = place_of(eng, st, mref)
    base, path = (p.a[0], p.a[1]) if p.op == "ref" else (("D", p), ())
    ref = mk("ref", base, path + (("k", k),), "mut")
    if r[0] == "some":
        return one(st, ref)

    def absent(s):
        if f["n"] == "or_insert_with":
            outs = eng.apply(args[1], [], s, site)
        elif f["n"] == "or_default":
            outs = one(s, EMPTYC)
        else:
            outs = one(s, args[1])
        res = []
        for s2, v in outs:
            eng.write_base(s2, base, path, mk("mut", "insert", 0, m, k, eng.deep(s2, v)), site)
            res.append((s2, ref))
        return res

    if r[0] == "none":
        return absent(st)
    d = EQ(mk("discr", r[1], OPTION), INT(1))
    out = []
    fn = st.facts.assume(d, False)
    if fn is not None:
        s = st.copy()
        s.facts = fn
        out.extend(absent(s))
    fs = st.facts.assume(d, True)
    if fs is not None:
        st.facts = fs
        out.append((st, ref))
    return out


def m_set_insert(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    k = eng.deep(st, args[1])
    known = m_set_contains0(eng, f, args, st, site, rty)[0][1]
    if known is not TRUE:
        store(eng, st, args[0], mk("mut", "sinsert", 0, m, k), site)
    return one(st, NOT(known))


def m_set_replace(eng, f, args, st, site, rty):
    """the element the set had; None if it is new"""
    out = []
    for s, new in m_set_insert(eng, f, args, st, site, rty):
        for val in (True, False):
            g = s.facts.assume(new, val)
            if g is not None:
                s2 = s.copy()
                s2.facts = g
                out.append((s2, NONE if val else some(eng.deep(s, args[1]))))
    return out


def m_set_contains(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    k = eng.deep(st, args[1])
    while m.op == "mut" and m.a[0] == "sinsert":
        if st.facts.same(m.a[3], k):
            return one(st, TRUE)
        if st.facts.query(EQ(m.a[3], k)) is not False:
            break
        m = m.a[2]
    return one(st, FALSE if m is EMPTYC else mk("contains", m, k))


m_set_contains0 = m_set_contains
m_get, m_contains_key, m_insert, m_remove, m_or_insert, m_set_insert, m_set_contains = map(
    splitting, (m_get, m_contains_key, m_insert, m_remove, m_or_insert, m_set_insert, m_set_contains))


def m_clear(eng, f, args, st, site, rty):
    store(eng, st, args[0], EMPTYC, site)
    return one(st, UNIT)


def m_len(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    return one(st, LEN(m))


def LEN(m):
    if m is EMPTYC:
        return INT(0)
    if m.op == "agg" and m.a[0] == "array":
        return INT(len(m.a) - 3)
    if m.op in ("sorted",):
        return LEN(m.a[0])
    if m.op == "fold" and m.a[0] == "push" and m.a[2] is EMPTYC and len(m.a) == 4 and len(m.a[3].a) == 1:
        return LEN(m.a[1])
    return mk("call", "len", m)


def m_is_empty(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    if m.op == "agg" and m.a[0] == "array":
        return one(st, TRUE if len(m.a) == 3 else FALSE)
    return one(st, EMPTY(m))


def m_split_off(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    k = eng.deep(st, args[1])
    if m is EMPTYC:
        return one(st, EMPTYC)
    below = LT(mk("mkey", m, mk("idx", m)), k)
    store(eng, st, args[0], mk("retain", m, I.mkcase(TRUE, [(below, True)])), site)
    return one(st, mk("retain", m, I.mkcase(TRUE, [(below, False)])))


def m_retain(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    if m is EMPTYC:
        return one(st, UNIT)
    ismap = eng.argty(f) in MAPS
    i = mk("idx", m)
    el = I.mkcase(tup(mk("mkey", m, i), mk("mval", m, i)) if ismap else I.AT(m, i), ())
    cases = []

    def call(s, e):
        return eng.apply(args[1], [e.a[3], e.a[4]] if ismap else [e], s, site)
    seqs = [el] if ismap else list(as_seq(eng, st, m).a[1:])
    for c in seqs:
        outs = run_case(eng, st, c, call, site, m)
        if changes_state(st, outs):
            return None
        for s2, r, lits in outs:
            v = True
            while r.op == "not":
                r, v = r.a[0], not v
            if r.op == "int":
                if bool(r.a[0]) is v:
                    cases.append(I.mkcase(TRUE if ismap else c.a[0], lits))
            else:
                cases.append(I.mkcase(TRUE if ismap else c.a[0], lits + [(r, v)]))
    if ismap:
        nv = mk("retain", m, *cases) if cases else EMPTYC
    else:
        kind = "sinsert" if eng.argty(f) in SETS else "push"
        nv = I.mkfold(kind, as_seq(eng, st, m).a[0], EMPTYC, cases)
    store(eng, st, args[0], nv, site)
    return one(st, UNIT)


def natural_order(eng, n, fv, st, site):
    """does the comparator (or the key) order elements as their own Ord does"""
    a, b = mk("sym", "cmp a"), mk("sym", "cmp b")

    def one_of(args):
        rs = eng.apply(fv, args, st.copy(), site)
        return rs[0][1] if len(rs) == 1 else None

    if "key" in n:
        x, y = one_of([a]), one_of([b])
        t = mk("cmp", x, y) if x is not None and y is not None else None
    else:
        t = one_of([a, b])
    if t is None:
        return False
    if t is mk("cmp", a, b):
        return True
    for s in eng.p.by_short:
        if s.endswith(" as Ord::cmp"):
            for k in eng.p.by_short[s]:
                rs = eng.call_key(k, [a, b], st.copy(), site)
                if len(rs) == 1 and rs[0][1] is t:
                    return True
    return False


def m_sort(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    if len(args) > 1:
        if natural_order(eng, f["n"], args[1], st, site):
            store(eng, st, args[0], m if m.op == "sorted" else mk("sorted", m), site)
        else:
            store(eng, st, args[0], mk("sortedby", m, eng.deep(st, args[1])), site)
    elif m.op != "sorted":
        store(eng, st, args[0], mk("sorted", m), site)
    return one(st, UNIT)


def m_push(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    store(eng, st, args[0], mk("mut", "push", 0, m, eng.deep(st, args[1])), site)
    return one(st, UNIT)


def m_append(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    o = derefv(eng, st, args[1])
    store(eng, st, args[0], mk("mut", "append", 0, m, o), site)
    if args[1].op == "ref":
        store(eng, st, args[1], EMPTYC, site)
    return one(st, UNIT)


def m_vec_get(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    i = args[1]
    if i.op == "idx" and i.a[0] is m:
        return one(st, some(I.AT(m, i)))
    return one(st, mk("vget", m, i))


def m_newcoll(eng, f, args, st, site, rty):
    if args and args[0].op != "int":
        eng.indexes.append(("with_capacity", (args[0],), site, st.chain, st.facts))
    return one(st, EMPTYC)


def m_index(eng, f, args, st, site, rty):
    p = place_of(eng, st, args[0])
    m = derefv(eng, st, args[0])
    i = args[1]
    if not st.facts.query(LT(i, LEN(m))) and not (i.op == "idx" and i.a[0] is m):
        eng.indexes.append(("index", (m, i), site, st.chain, st.facts))
    if p.op == "ref":
        return one(st, mk("ref", p.a[0], p.a[1] + (("i", i),), "mut" if f["n"] == "index_mut" else "sh"))
    return one(st, I.AT(m, i))


def m_contains(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    return one(st, mk("contains", m, eng.deep(st, args[1])))


# ---------------------------------------------------------------- iterators
def elem_seq(eng, st, c, kind="val"):
    """sequence over collection value c"""
    if c.op == "seq":
        return c
    if c is EMPTYC:
        return I.mkseq(EMPTYC, [])
    if c.op == "agg" and c.a[0] == "array":
        return I.mkseq(c, [I.mkcase(x, ()) for x in c.a[3:]])
    if c.op == "fold" and c.a[0] in ("push", "Vec::push") and c.a[2] is EMPTYC:
        return I.mkseq(c.a[1], c.a[3:])
    if c.op in ("mut", "fold", "concat"):
        # built piece by piece: an element is an element of one of the pieces
        ps = list(c.a) if c.op == "concat" else I.parts_of(c, EMPTYC)
        if ps and not (len(ps) == 1 and ps[0] is c):
            cases = []
            for q in ps:
                if q.op == "one":
                    cases.append(I.mkcase(q.a[0], ()))
                else:
                    cases += elem_seq(eng, st, q).a[1:]
            return I.mkseq(c, cases)
        if c.op == "fold" and c.a[0] == "append" and c.a[2] is EMPTYC:
            return I.mkseq(c, [I.mkcase(x.a[0], case_lits(x) + case_lits(k)) for k in c.a[3:]
                               for x in elem_seq(eng, st, k.a[0]).a[1:]])
    return I.mkseq(c, [I.mkcase(I.AT(c, mk("idx", c)), ())])


def option_elems(eng, st, c):
    """the elements of an Option seen as a collection: [(state, collection)]"""
    if c.op == "agg" and c.a[0] == OPTION:
        return [(st, agg("array", 0, "", [c.a[3]]) if c.a[1] == 1 else EMPTYC)]
    out = []
    for v in (1, 0):
        g = st.facts.assume(EQ(mk("discr", c, OPTION), INT(v)), True)
        if g is not None:
            s = st.copy()
            s.facts = g
            out.append((s, agg("array", 0, "", [eng.field(c, 1, 0, "0")]) if v else EMPTYC))
    return out


def m_iter(eng, f, args, st, site, rty):
    c = derefv(eng, st, args[0])
    if eng.argty(f) == "Option" or c.op == "agg" and c.a[0] == OPTION:
        return [(s, elem_seq(eng, s, x)) for s, x in option_elems(eng, st, c)]
    if c.op == "agg" and c.a[0].endswith(("Range", "RangeInclusive")):
        return one(st, c)
    if c.op == "seq":
        return one(st, args[0] if args[0].op == "seq" else c)
    ty = eng.argty(f)
    mutable = f["n"] == "iter_mut"
    p = place_of(eng, st, args[0])
    if ty in MAPS:
        if f["n"] in ("keys", "into_keys"):
            return one(st, I.mkseq(c, [I.mkcase(mk("mkey", c, mk("idx", c)), ())]))
        k = mk("mkey", c, mk("idx", c))
        v = mk("mval", c, mk("idx", c))
        if c is EMPTYC:
            return one(st, I.mkseq(c, []))
        if f["n"] in ("values", "into_values", "values_mut"):
            return one(st, I.mkseq(c, [I.mkcase(v, ())]))
        return one(st, I.mkseq(c, [I.mkcase(tup(k, v), ())]))
    if mutable and p.op == "ref" and c.op == "agg" and c.a[0] == "array":
        return one(st, I.mkseq(c, [I.mkcase(mk("ref", p.a[0], p.a[1] + (("i", INT(k)),), "mut"), ())
                                   for k in range(len(c.a) - 3)]))
    if mutable and p.op == "ref":
        # element places: index path on the collection
        i = mk("idx", c)
        return one(st, I.mkseq(c, [I.mkcase(mk("ref", p.a[0], p.a[1] + (("i", i),), "mut"), ())]))
    return one(st, elem_seq(eng, st, c))


def m_into_iter(eng, f, args, st, site, rty):
    c = args[0]
    v = derefv(eng, st, c)
    if v.op in ("seq",) or (v.op == "agg" and v.a[0].endswith(("Range", "RangeInclusive"))):
        return one(st, v)
    if v.op == "opaque_iter":
        return one(st, v)
    g = dict(f)
    g["n"] = "iter"
    t = f.get("rself") or f.get("self") or ""
    if "&'a mut" in t or "&mut" in t or t.startswith("&'_ mut"):
        g["n"] = "iter_mut"
    return m_iter(eng, g, args, st, site, rty)


def as_seq(eng, st, it):
    it = derefv(eng, st, it)
    if it.op == "seq":
        return it
    if it.op == "agg" and it.a[0].endswith(("Range", "RangeInclusive")):
        lo, hi = it.a[3], it.a[4]
        c = listlen(hi)
        if it.a[0].endswith("Range") and lo is INT(0) and c is not None:
            return I.mkseq(c, [I.mkcase(mk("idx", c), ())])
        r = mk("range", lo, hi)
        return I.mkseq(r, [I.mkcase(mk("idx", r), ())])
    return elem_seq(eng, st, it)


def m_next(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    if seq.a[0] is EMPTYC:
        return one(st, NONE)
    st.ctr += 1
    lit = mk("eq", mk("discr", mk("next", seq, mk("u", st.ctr)), OPTION), INT(1))
    out = []
    s = st.copy()
    s.facts = s.facts.assume(lit, False)
    out.append((s, NONE))
    base = st.facts.forget(mk("idx", seq.a[0])).assume(lit, True)
    for c in seq.a[1:]:
        fs = base
        for l in c.a[1:]:
            fs = fs.assume(l.a[0], bool(l.a[1])) if fs is not None else None
        if fs is None:
            continue
        s = st.copy()
        s.facts = fs
        out.append((s, some(c.a[0])))
    return out


def run_case(eng, st, c, fn, site, src=None):
    """apply callable to case element; list of (state, ret, lits)"""
    s = st.copy()
    if src is not None:
        s.facts = s.facts.forget(mk("idx", src))
    for l in c.a[1:]:
        g = s.facts.assume(l.a[0], bool(l.a[1]))
        if g is None:
            return []
        s.facts = g
    start = st.facts.log
    res = []
    for s2, r in fn(s, c.a[0]):
        lits = [l for l in s2.facts.literals(start) if not l[0].op == "ovf"]
        res.append((s2, r, lits))
    return res


def case_lits(c):
    return [(l.a[0], bool(l.a[1])) for l in c.a[1:]]


def changes_state(st, outs):
    """does the callback change a value that outlives it"""
    for s2, r, _ in outs:
        for base, v in st.env.items():
            if s2.env.get(base, v) is not v:
                return True
    return False


def map_effects(eng, seq, n, fn, st, site):
    """map / filter / filter_map with a callback that changes state: as a loop collecting the results"""
    def step(s, e, acc):
        res = []
        for s2, r in eng.apply(fn, [e], s, site):
            if n == "map":
                res.append((s2, mk("mut", "push", 0, acc, eng.deep(s2, r))))
                continue
            if n == "filter_map":
                d = EQ(mk("discr", r, OPTION), INT(1)) if r.op != "agg" else (TRUE if r.a[1] == 1 else FALSE)
                v = eng.field(r, 1, 0, "0") if r.op != "agg" or r.a[1] == 1 else None
            else:
                d, v = (NOT(r) if n == "filter_not" else r), e
            for val in (True, False):
                g = s2.facts.assume(d, val)
                if g is not None:
                    s3 = s2.copy()
                    s3.facts = g
                    res.append((s3, mk("mut", "push", 0, acc, eng.deep(s3, v)) if val else acc))
        return res
    return [(s, elem_seq(eng, s, r)) for s, r in eng.iterate(seq, step, st, EMPTYC, site)]


def m_map(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    n = f["n"]
    cases = []
    for c in seq.a[1:]:
        if changes_state(st, run_case(eng, st, c, lambda s, e: eng.apply(args[1], [e], s, site), site, seq.a[0])):
            return map_effects(eng, seq, n, args[1], st, site)
    for c in seq.a[1:]:
        for s2, r, lits in run_case(eng, st, c, lambda s, e: eng.apply(args[1], [e], s, site), site, seq.a[0]):
            if n == "map":
                cases.append(I.mkcase(eng.deep(s2, r), lits))
            elif n in ("filter", "filter_not"):
                r = NOT(r) if n == "filter_not" else r
                if r is TRUE:
                    cases.append(I.mkcase(c.a[0], lits))
                elif r is not FALSE:
                    g = s2.facts.assume(r, True)
                    if g is not None:
                        ls = [l for l in g.literals(st.facts.log) if l[0].op != "ovf"]
                        cases.append(I.mkcase(c.a[0], ls))
            elif n == "filter_map":
                if r.op == "agg":
                    if r.a[1] == 1:
                        cases.append(I.mkcase(eng.deep(s2, r.a[3]), lits))
                else:
                    g = s2.facts.assume(EQ(mk("discr", r, OPTION), INT(1)), True)
                    if g is not None:
                        ls = [l for l in g.literals(st.facts.log) if l[0].op != "ovf"]
                        cases.append(I.mkcase(eng.field(r, 1, 0, "0"), ls))
    return one(st, I.mkseq(seq.a[0], cases))


def m_cloned(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    return one(st, I.mkseq(seq.a[0], [I.mkcase(eng.deep(st, c.a[0]), case_lits(c)) for c in seq.a[1:]]))


def m_enumerate(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    filtered = any(len(c.a) > 1 for c in seq.a[1:]) or seq.a[0].op == "rev"
    i = mk("idx", seq if filtered else seq.a[0])
    return one(st, I.mkseq(seq.a[0], [I.mkcase(tup(i, c.a[0]), case_lits(c)) for c in seq.a[1:]]))


def m_zip(eng, f, args, st, site, rty):
    a = as_seq(eng, st, args[0])
    g = {"n": "iter", "self": "", "p": ""}
    b = as_seq(eng, st, args[1])
    if any(len(c.a) > 1 for c in a.a[1:]) or len(a.a) > 2 or a.a[0].op == "rev":
        a = I.mkseq(a, [I.mkcase(I.AT(a, mk("idx", a)), ())])  # filtered: positions are those of the result
    if any(len(c.a) > 1 for c in b.a[1:]) or len(b.a) > 2 or b.a[0].op == "rev":
        b = I.mkseq(b, [I.mkcase(I.AT(b, mk("idx", b)), ())])
    sa, sb = a.a[0], b.a[0]
    z = mk("zip", sa, sb)
    i = mk("idx", z)
    cases = []
    for ca in a.a[1:]:
        for cb in b.a[1:]:
            ea = subst(ca.a[0], {mk("idx", sa): i})
            eb = subst(cb.a[0], {mk("idx", sb): i})
            lits = [(subst(l, {mk("idx", sa): i}), v) for l, v in case_lits(ca)] + \
                   [(subst(l, {mk("idx", sb): i}), v) for l, v in case_lits(cb)]
            cases.append(I.mkcase(tup(ea, eb), lits))
    return one(st, I.mkseq(z, cases))


def plain(seq):
    return not any(len(c.a) > 1 for c in seq.a[1:])


def coll_of(seq):
    """the list of the elements of a sequence"""
    src = seq.a[0]
    if src is EMPTYC:
        return EMPTYC
    if len(seq.a) == 2 and plain(seq) and seq.a[1].a[0] is I.AT(src, mk("idx", src)):
        return src
    if src.op in ("mut", "fold", "concat") and elem_seq(None, None, src) is seq:
        return src
    if src.op == "agg" and src.a[0] == "array" and plain(seq):
        return agg("array", 0, "", [c.a[0] for c in seq.a[1:]])
    return I.mkfold("push", src, EMPTYC, seq.a[1:])


def joined(a, b):
    """the elements of a followed by those of b"""
    if a is EMPTYC:
        return b
    if b is EMPTYC:
        return a
    if all(x.op == "agg" and x.a[0] == "array" for x in (a, b)):
        return agg("array", 0, "", list(a.a[3:]) + list(b.a[3:]))
    return mk("concat", a, b)


def m_chain(eng, f, args, st, site, rty):
    a = as_seq(eng, st, args[0])
    out = []
    b = derefv(eng, st, args[1])
    for s, c in (option_elems(eng, st, b) if b.op == "agg" and b.a[0] == OPTION else [(st, b)]):
        out.append((s, elem_seq(eng, s, joined(coll_of(a), coll_of(as_seq(eng, s, c))))))
    return out


def m_flat_map(eng, f, args, st, site, rty):
    outs = m_map(eng, dict(f, n="map"), args, st, site, rty) if f["n"] == "flat_map" else one(st, args[0])
    res = []
    for s, seq in outs:
        seq = as_seq(eng, s, seq)
        cases = []
        for c in seq.a[1:]:
            v = derefv(eng, s, c.a[0])
            if v.op == "seq":
                cases.append(I.mkcase(coll_of(v), case_lits(c)))
                continue
            if v.op == "agg" and v.a[0] == OPTION or "Option" in (rty or "").split("FlatMap", 1)[-1].split(",")[0:2][-1]:
                if v.op == "agg":
                    if v.a[1] == 1:
                        cases.append(I.mkcase(agg("array", 0, "", [v.a[3]]), case_lits(c)))
                else:
                    cases.append(I.mkcase(agg("array", 0, "", [eng.field(v, 1, 0, "0")]),
                                          case_lits(c) + [(EQ(mk("discr", v, OPTION), INT(1)), True)]))
                continue
            cases.append(I.mkcase(v, case_lits(c)))
        if seq.a[0] is EMPTYC:
            res.append((s, seq))
        elif all(c.a[0].op == "agg" and c.a[0].a[0] == "array" and len(c.a[0].a) == 4 for c in cases):
            res.append((s, I.mkseq(seq.a[0], [I.mkcase(c.a[0].a[3], case_lits(c)) for c in cases])))
        else:
            res.append((s, elem_seq(eng, s, I.mkfold("append", seq.a[0], EMPTYC, cases))))
    return res


def m_extend(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    it = derefv(eng, st, args[1])
    ty = eng.argty(f)
    res = []
    opt = it.op == "agg" and it.a[0] == OPTION or it.op != "seq" and "Option" in "".join(f.get("ga") or [])
    for s, c in (option_elems(eng, st, it) if opt else [(st, it)]):
        seq = as_seq(eng, s, c)
        src = seq.a[0]
        kind = "sinsert" if ty in SETS else "insert" if ty in MAPS else "push"

        def put(acc, v):
            if kind == "insert":
                return mk("mut", kind, 0, acc, eng.field(v, None, 0, "0"), eng.field(v, None, 1, "1"))
            return mk("mut", kind, 0, acc, v)
        if src is EMPTYC:
            v = m
        elif src.op == "agg" and src.a[0] == "array" and plain(seq):
            v = m
            for x in seq.a[1:]:
                v = put(v, eng.deep(s, x.a[0]))
        elif kind == "push":
            o = coll_of(I.mkseq(src, [I.mkcase(eng.deep(s, x.a[0]), case_lits(x)) for x in seq.a[1:]]))
            v = o if m is EMPTYC else mk("mut", "append", 0, m, o)
        else:
            v = I.mkfold(kind, src, m, seq.a[1:])
        store(eng, s, args[0], v, site)
        res.append((s, UNIT))
    return res


def m_unzip(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    parts = []
    for i in (0, 1):
        parts.append(coll_of(I.mkseq(seq.a[0], [I.mkcase(eng.deep(st, eng.field(c.a[0], None, i, str(i), 2, None)), case_lits(c))
                                                for c in seq.a[1:]])))
    return one(st, tup(*parts))


def m_partition(eng, f, args, st, site, rty):
    res = []
    for s, a in m_map(eng, dict(f, n="filter"), args, st, site, rty):
        for s2, b in m_map(eng, dict(f, n="filter_not"), args, s, site, rty):
            res.append((s2, tup(coll_of(a), coll_of(b))))
    return res


def m_rev(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    src = mk("rev", seq.a[0])
    m = {mk("idx", seq.a[0]): mk("idx", src)}
    return one(st, I.mkseq(src, [I.mkcase(subst(c.a[0], m), [(subst(l, m), v) for l, v in case_lits(c)])
                                 for c in seq.a[1:]]))


def try_iter(eng, st, seq, opt, init, step, site):
    """collect / sum into a Result or an Option: the first failure ends the iteration"""
    adt = OPTION if opt else RESULT

    def fn(s, e, acc):
        e = eng.deep(s, e)
        if e.op == "agg":
            good = (e.a[1] == 1) == opt
            return [(s, ok(step(acc, e.a[3])) if good else err(UNIT if opt else e.a[3]))]
        res = []
        for good in (True, False):
            v = (1 if good else 0) if opt else (0 if good else 1)
            g = s.facts.assume(EQ(mk("discr", e, adt), INT(v)), True)
            if g is not None:
                s2 = s.copy()
                s2.facts = g
                res.append((s2, ok(step(acc, eng.field(e, v, 0, "0"))) if good else
                            err(UNIT if opt else eng.field(e, v, 0, "0"))))
        return res
    outs = eng.iterate(seq, fn, st, init, site, tryit=True)
    if opt:
        outs = [(s, some(r.a[3]) if r.a[1] == 0 else NONE) for s, r in outs]
    return outs


def m_collect(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    kind = "push"
    t = rty or ""
    head = t.split("<")[0].split("::")[-1]
    if head in ("Result", "Option"):
        k = "sinsert" if "Set<" in t else "insert" if "Map<" in t else "push"
        if k == "insert":
            step = lambda acc, v: mk("mut", k, 0, acc, eng.field(v, None, 0, "0"), eng.field(v, None, 1, "1"))  # noqa: E731
        else:
            step = lambda acc, v: mk("mut", k, 0, acc, v)  # noqa: E731
        if seq.a[0] is EMPTYC:
            return one(st, some(EMPTYC) if head == "Option" else ok(EMPTYC))
        return try_iter(eng, st, seq, head == "Option", EMPTYC, step, site)
    if "HashSet" in t.split("<")[0] or "BTreeSet" in t.split("<")[0]:
        kind = "sinsert"
    elif "Map<" in t:
        kind = "insert"
    if seq.a[0] is EMPTYC:
        return one(st, EMPTYC)
    src = seq.a[0]
    if kind == "insert" and all(c.a[0] is tup(mk("mkey", src, mk("idx", src)), mk("mval", src, mk("idx", src)))
                                for c in seq.a[1:]):
        return one(st, src if len(seq.a) == 2 and plain(seq) else
                   mk("retain", src, *[I.mkcase(TRUE, case_lits(c)) for c in seq.a[1:]]))
    if kind == "push" and (elem_seq(eng, st, src) is seq and src.op in ("mut", "fold", "concat") or len(seq.a) == 2 and
                           len(seq.a[1].a) == 1 and seq.a[1].a[0] is I.AT(src, mk("idx", src))):
        return one(st, src)
    if kind == "push" and src.op == "agg" and src.a[0] == "array" and plain(seq):
        return one(st, agg("array", 0, "", [c.a[0] for c in seq.a[1:]]))
    return one(st, I.mkfold(kind, src, EMPTYC, seq.a[1:]))


def m_sum(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    head = (rty or "").split("<")[0].split("::")[-1]
    if head in ("Result", "Option"):
        if seq.a[0] is EMPTYC:
            return one(st, some(INT(0)) if head == "Option" else ok(INT(0)))
        outs = try_iter(eng, st, seq, head == "Option", INT(0), ADD, site)
        for _, r in outs:
            if r.op == "agg" and len(r.a) == 4 and r.a[3].op == "fold":
                eng.sums.append((I.mkseq(r.a[3].a[1], r.a[3].a[3:]), rty, site, st.chain))
        return outs
    if seq.a[0] is EMPTYC:
        return one(st, INT(0))
    eng.sums.append((seq, rty, site, st.chain))
    return one(st, I.mkfold("+", seq.a[0], INT(0), seq.a[1:]))


def m_count(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    if len(seq.a) == 2 and len(seq.a[1].a) == 1:
        return one(st, LEN(seq.a[0]))
    return one(st, I.mkfold("+", seq.a[0], INT(0), [I.mkcase(INT(1), case_lits(c)) for c in seq.a[1:]]))


def any_effects(eng, seq, n, fn, st, site):
    """any / all with a callback that changes state: a loop left at the first element that decides"""
    def step(s, e, acc):
        res = []
        for s2, r in eng.apply(fn, [e], s, site):
            for val in (True, False):
                g = s2.facts.assume(r, val)
                if g is not None:
                    s3 = s2.copy()
                    s3.facts = g
                    res.append((s3, ok(UNIT) if val == (n == "all") else err(UNIT)))
        return res
    return [(s, TRUE if (r.a[1] == 0) == (n == "all") else FALSE)
            for s, r in eng.iterate(seq, step, st, None, site, tryit=True)]


def m_any(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    n = f["n"]
    if seq.a[0] is EMPTYC:
        return one(st, FALSE if n == "any" else TRUE)
    cases = []
    for c in seq.a[1:]:
        outs = run_case(eng, st, c, lambda s, e: eng.apply(args[1], [e], s, site), site, seq.a[0])
        if changes_state(st, outs):
            return any_effects(eng, seq, n, args[1], st, site)
        for s2, r, lits in outs:
            if n == "all":
                r = NOT(r)
            if r is FALSE:
                continue
            cases.append(I.mkcase(r, lits))
    t = I.mkany(seq.a[0], cases)
    return one(st, t if n == "any" else NOT(t))


def find_effects(eng, seq, n, fn, st, site, pos):
    """find / position / find_map with a callback that changes state: a loop left at the first hit"""
    def step(s, e, acc):
        res = []
        for s2, r in eng.apply(fn, [e], s, site):
            lit = EQ(mk("discr", r, OPTION), INT(1)) if n == "find_map" else r
            if n == "find_map" and r.op == "agg":
                lit = TRUE if r.a[1] == 1 else FALSE
            for val in (True, False):
                g = s2.facts.assume(lit, val)
                if g is not None:
                    s3 = s2.copy()
                    s3.facts = g
                    res.append((s3, err(eng.deep(s3, eng.field(r, 1, 0, "0") if n == "find_map" else
                                                 e if n == "find" else pos)) if val else ok(UNIT)))
        return res
    return [(s, some(r.a[3]) if r.a[1] == 1 else NONE) for s, r in eng.iterate(seq, step, st, None, site, tryit=True)]


def m_find(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    cases = []
    n = f["n"]
    spos = mk("idx", seq if seq.a[0].op == "rev" or any(len(c.a) > 1 for c in seq.a[1:]) else seq.a[0])
    for c in seq.a[1:]:
        outs = run_case(eng, st, c, lambda s, e: eng.apply(args[1], [e], s, site), site, seq.a[0])
        if changes_state(st, outs):
            return find_effects(eng, seq, n, args[1], st, site, spos)
        for s2, r, lits in outs:
            if n == "find_map":
                if r.op == "agg" and r.a[1] == 0:
                    continue
                if r.op == "agg":
                    cases.append((lits, eng.deep(s2, r.a[3])))
                else:
                    cases.append((lits + [(EQ(mk("discr", r, OPTION), INT(1)), True)], eng.field(r, 1, 0, "0")))
                continue
            if r is FALSE:
                continue
            ls = list(lits)
            if r is not TRUE:
                ls.append((r, True))
            cases.append((ls, c.a[0] if n == "find" else spos))
    st.ctr += 1
    lit = mk("eq", mk("discr", mk("find", seq, mk("u", st.ctr), *[I.mkcase(v, l) for l, v in cases]), OPTION), INT(1))
    out = []
    t = I.mkany(seq.a[0], [I.mkcase(TRUE, l) for l, v in cases])
    s = st.copy()
    g = s.facts.assume(lit, False)
    g = g.assume(t, False) if g is not None else None
    if g is not None:
        s.facts = g
        out.append((s, NONE))
    base = st.facts.assume(lit, True)
    base = base.assume(t, True) if base is not None else None
    if base is not None:
        base = base.forget(mk("idx", seq.a[0]))
    for ls, v in cases:
        fs = base
        for l, val in ls:
            fs = fs.assume(l, val) if fs is not None else None
        if fs is not None:
            s = st.copy()
            s.facts = fs
            out.append((s, some(v)))
    return out


def m_lastit(eng, f, args, st, site, rty):
    """the last element, or the greatest key of a map: the first one from the end"""
    seq = as_seq(eng, st, args[0])
    n = f["n"]
    key = lambda t: t.op == "mkey" and t.a[1] is mk("idx", seq.a[0])  # noqa: E731
    if n in ("max", "min") and not all(key(c.a[0]) for c in seq.a[1:]):
        return None
    if n in ("max_by_key", "min_by_key"):
        for c in seq.a[1:]:
            for _, r, _ in run_case(eng, st, c, lambda s, e: eng.apply(args[1], [e], s, site), site, seq.a[0]):
                if not key(eng.deep(st, r)):
                    return None
    out = []
    for s, r in [(st.copy(), seq)] if n in ("min", "min_by_key") else m_rev(eng, f, args, st, site, rty):
        s.ctr += 1
        found = I.mkany(r.a[0], [I.mkcase(TRUE, case_lits(c)) for c in r.a[1:]])
        back = mk("idx", r.a[0])
        none = s.copy()
        none.facts = s.facts.assume(found, False)
        if none.facts is not None:
            out.append((none, NONE))
        base = s.facts.assume(found, True)
        base = base.forget(back) if base is not None else None
        for c in r.a[1:]:
            fs = base
            for l, v in case_lits(c):
                fs = fs.assume(l, v) if fs is not None else None
            if fs is not None:
                s2 = s.copy()
                s2.facts = fs
                out.append((s2, some(c.a[0])))
    if n == "next_back" and args[0].op == "ref":
        for s, _ in out:
            store(eng, s, args[0], mk("rest", seq), site)
    return out


def m_rfind(eng, f, args, st, site, rty):
    return [x for s, r in m_rev(eng, f, args, st, site, rty)
            for x in m_find(eng, dict(f, n="find"), [r] + list(args[1:]), s, site, rty)]


def m_foldit(eng, f, args, st, site, rty):
    seq = as_seq(eng, st, args[0])
    n = f["n"]
    if n == "for_each":
        return eng.iterate(seq, lambda s, e, acc: eng.apply(args[1], [e], s, site), st, None, site)
    if n == "try_for_each":
        return eng.iterate(seq, lambda s, e, acc: eng.apply(args[1], [e], s, site), st, None, site, tryit=True)
    if n == "fold":
        return eng.iterate(seq, lambda s, e, acc: eng.apply(args[2], [acc, e], s, site), st, args[1], site)
    if n == "try_fold":
        return eng.iterate(seq, lambda s, e, acc: eng.apply(args[2], [acc, e], s, site), st, args[1], site, tryit=True)
    return None


# ---------------------------------------------------------------- futures
def m_poll(eng, f, args, st, site, rty):
    fut = derefv(eng, st, args[0])
    if fut.op == "pollfn":
        return eng.apply(fut.a[0], [NOISE], st, site)
    if fut.op == "nextfut":
        return poll_stream(eng, fut.a[0], st, site)
    if fut.op == "agg":
        key = f.get("key")
        if key in eng.p.bodies:
            return eng.call_key(key, args, st, site)
        k2 = eng.impl_of("Future::poll", fut)
        if k2:
            return eng.call_key(k2, args, st, site)
    if fut.op == "call" and fut.a[0] == "time::sleep":
        st.emit(I.Ev("sleep", fut.a[1:], None, st.facts, site, eng.selfv(st), None, st.chain))
        return one(st, ready(UNIT))
    return [(s, ready(r)) for s, r in eng.poll(fut, st, site)]


def poll_stream(eng, ref, st, site):
    """poll a stream for its next item"""
    sv = derefv(eng, st, ref)
    h = eng.hooks.get("recv")
    if h:
        r = h(eng, ref, sv, st, site)
        if r is not None:
            return r
    if sv.op == "agg":
        k = eng.impl_of("Stream::poll_next", sv)
        if k:
            return eng.call_key(k, [ref, NOISE], st, site)
    st.ctr += 1
    item = mk("recv", sv, mk("u", st.ctr))
    st.ctr += 1
    out = []
    if eng.stream_pending:
        out.append((st.copy(), agg(POLL, 1, "Pending", ())))
    out.append((st, ready(item)))
    return out


def m_stream_next(eng, f, args, st, site, rty):
    return one(st, mk("nextfut", args[0]))


def m_poll_unpin(eng, f, args, st, site, rty):
    fut = derefv(eng, st, args[0])
    if fut.op == "nextfut":
        return poll_stream(eng, fut.a[0], st, site)
    if f["n"] in ("poll_next_unpin", "poll_next"):
        key = f.get("key")
        if key in eng.p.bodies and f["n"] == "poll_next":
            return None
        return poll_stream(eng, args[0], st, site)
    return m_poll(eng, f, args, st, site, rty)


def m_poll_fn(eng, f, args, st, site, rty):
    return one(st, mk("pollfn", args[0]))


def m_spawn(eng, f, args, st, site, rty):
    s = st.copy()
    s.emit(I.Ev("spawn", (), None, st.facts, site, eng.selfv(st), None, st.chain))
    spos = s.trace
    fut = args[0]
    for s2, r in eng.poll(fut, s, site):
        eng.spawned.append((s2, r, spos, st.chain))
    st.emit(I.Ev("spawned", (eng.deep(st, fut),), None, st.facts, site, eng.selfv(st), None, st.chain))
    return one(st, NOISE)


def m_async_call(eng, f, args, st, site, rty):
    """async trait method: effect happens when the future is polled"""
    short = eng.p.short(f)
    st.ctr += 1
    return one(st, mk("ucall", short, *[eng.deep(st, a) for a in args], mk("u", st.ctr)))


ASYNC_TRAIT = {"Consensus::get_block", "Consensus::check_block", "Consensus::commit", "Consensus::get_authority_list",
               "Consensus::broadcast_to_other", "Consensus::transmit_to_relayer", "Wal::save", "Wal::load",
               "SinkExt::send"}


# ---------------------------------------------------------------- comparisons
def enum_noargs(eng, adt):
    a = eng.p.adts.get(adt)
    return a is not None and a["k"] == "enum" and all(not v["f"] for v in a["v"])


def valeq(eng, a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "agg" and x.a[0] in eng.p.adts and eng.p.adts[x.a[0]]["k"] == "enum":
            v = eng.p.adts[x.a[0]]["v"]
            if len(x.a) == 3:
                if y.op == "agg" and y.a[0] == x.a[0]:
                    return TRUE if x.a[1] == y.a[1] else FALSE
                return EQ(mk("discr", y, x.a[0]), INT(v[x.a[1]]["d"]))
    return EQ(a, b)


def m_eq(eng, f, args, st, site, rty):
    a = eng.deep(st, args[0])
    b = eng.deep(st, args[1])
    t = eng.p.types.get(eng.strip_refs(f.get("rself") or f.get("self") or ""))
    r = None
    if t and t["k"] == "adt" and enum_noargs(eng, t["p"]) and a.op != "agg" and b.op != "agg":
        r = EQ(mk("discr", a, t["p"]), mk("discr", b, t["p"]))
    if r is None and all(x.op == "agg" and x.a[0] == "tuple" and len(x.a) > 4 for x in (a, b)) and len(a.a) == len(b.a):
        return [(s, v if f["n"] == "eq" else NOT(v)) for s, v in alleq(eng, st, a.a[3:], b.a[3:])]
    if r is None:
        r = valeq(eng, a, b)
    return one(st, r if f["n"] == "eq" else NOT(r))


def alleq(eng, st, xs, ys):
    """component by component: [(state, TRUE / FALSE)]"""
    if not xs:
        return [(st, TRUE)]
    out = []
    lit = valeq(eng, xs[0], ys[0])
    for val in (True, False):
        g = st.facts.assume(lit, val)
        if g is not None:
            s = st.copy()
            s.facts = g
            out += alleq(eng, s, xs[1:], ys[1:]) if val else [(s, FALSE)]
    return out


def lex(st, xs, ys):
    """lexicographic comparison of two lists of values: [(state, -1 / 0 / 1)]"""
    if not xs:
        return [(st, 0)]
    out = []
    for lit, o in ((LT(xs[0], ys[0]), -1), (LT(ys[0], xs[0]), 1), (EQ(xs[0], ys[0]), 0)):
        g = st.facts.assume(lit, True)
        if g is not None:
            s = st.copy()
            s.facts = g
            out += [(s, o)] if o else lex(s, xs[1:], ys[1:])
    return out


def m_cmp(eng, f, args, st, site, rty):
    a = eng.deep(st, args[0])
    b = eng.deep(st, args[1])
    key = f.get("key")
    if key in eng.p.bodies:
        return None
    n = f["n"]
    if n in ("cmp", "partial_cmp") and all(x.op == "agg" and x.a[0] == "tuple" for x in (a, b)) and len(a.a) == len(b.a):
        out = []
        for s, o in lex(st, a.a[3:], b.a[3:]):
            c = mk("cmp", INT(1 if o > 0 else 0), INT(1 if o < 0 else 0))
            out.append((s, c if n == "cmp" else some(c)))
        return out
    if n == "cmp":
        return one(st, mk("cmp", a, b))
    if n == "partial_cmp":
        return one(st, some(mk("cmp", a, b)))
    if all(x.op == "agg" and x.a[0] == "tuple" for x in (a, b)) and len(a.a) == len(b.a):
        out = []
        for s, o in lex(st, a.a[3:], b.a[3:]):
            out.append((s, TRUE if {"lt": o < 0, "le": o <= 0, "gt": o > 0, "ge": o >= 0}[n] else FALSE))
        return out
    r = {"lt": LT(a, b), "le": LE(a, b), "gt": LT(b, a), "ge": LE(b, a)}[n]
    return one(st, r)


def m_minmax(eng, f, args, st, site, rty):
    a = eng.deep(st, args[0])
    b = eng.deep(st, args[1])
    if a.op == "int" and b.op == "int":
        return one(st, INT((min if f["n"] == "min" else max)(a.a[0], b.a[0])))
    lt = st.facts.query(LT(a, b))
    if lt is not None:
        return one(st, (a if lt else b) if f["n"] == "min" else (b if lt else a))
    out = []
    for val in (True, False):
        g = st.facts.assume(LT(a, b), val)
        if g is not None:
            s = st.copy()
            s.facts = g
            out.append((s, (a if val else b) if f["n"] == "min" else (b if val else a)))
    return out


def m_discriminant(eng, f, args, st, site, rty):
    v = derefv(eng, st, args[0])
    t = (f.get("ga") or [""])[0]
    return one(st, eng.discr(v, t))


def m_cellset(eng, f, args, st, site, rty):
    store(eng, st, args[0], args[1], site)
    return one(st, UNIT)


def m_mulassign(eng, f, args, st, site, rty):
    v = derefv(eng, st, args[0])
    b = eng.deep(st, args[1])
    op = f["n"].replace("_assign", "")
    nv = {"mul": MUL, "add": ADD, "sub": SUB}.get(op, lambda x, y: mk("bin", op, x, y))(v, b)
    store(eng, st, args[0], nv, site)
    return one(st, UNIT)


def m_binop(eng, f, args, st, site, rty):
    if f.get("key") in eng.p.bodies:
        return None
    a, b = eng.deep(st, args[0]), eng.deep(st, args[1])
    return one(st, {"mul": MUL, "add": ADD, "sub": SUB}.get(f["n"], lambda x, y: mk("bin", f["n"].capitalize(), x, y))(a, b))


def m_arith(eng, f, args, st, site, rty):
    a = eng.deep(st, args[0])
    b = eng.deep(st, args[1])
    n = f["n"]
    if n in ARITH:
        return one(st, ARITH[n](a, b))
    op = n.split("_")[-1]
    base = {"add": ADD, "sub": SUB, "mul": MUL}.get(op, lambda x, y: mk("bin", op, x, y))
    if n.startswith("saturating_"):
        if op == "add":
            # as a guard bound a saturated sum is the mathematical one unless it overflows
            return one(st, ADD(a, b))
        if op == "sub":
            lt = st.facts.query(LT(a, b))
            if lt is True:
                return one(st, INT(0))
            if lt is False:
                return one(st, SUB(a, b))
            out = []
            for val in (True, False):
                g = st.facts.assume(LT(a, b), val)
                if g is not None:
                    s = st.copy()
                    s.facts = g
                    out.append((s, INT(0) if val else SUB(a, b)))
            return out
        return one(st, base(a, b))
    if n.startswith("checked_"):
        st.ctr += 1
        c = mk("ovf", op.capitalize(), a, b)
        if op == "sub":
            c = LT(a, b)
        if op in ("div", "rem"):
            c = EQ(b, INT(0))
        out = []
        g = st.facts.assume(c, True)
        if g is not None:
            s = st.copy()
            s.facts = g
            out.append((s, NONE))
        g = st.facts.assume(c, False)
        if g is not None:
            s = st.copy()
            s.facts = g
            out.append((s, some(base(a, b))))
        return out
    return None


def m_call_fn(eng, f, args, st, site, rty):
    a = args[1] if len(args) > 1 else UNIT
    fv = derefv(eng, st, args[0])
    if fv.op not in ("clo", "fn"):
        key = f.get("key")
        if f.get("rk") == "shim" or key is None:
            return None
    cargs = list(a.a[3:]) if a.op == "agg" else [a]
    return eng.apply(args[0], cargs, st, site, rty)


def m_option_map_poll(eng, f, args, st, site, rty):
    v = args[0]
    if v.op == "agg":
        if v.a[1] == 1:
            return one(st, v)
        return [(s, ready(r)) for s, r in eng.apply(args[1], [v.a[3]], st, site)]
    return None


def m_max_value(eng, f, args, st, site, rty):
    bits = {"u64": 64, "u32": 32, "usize": 64, "u8": 8, "u16": 16}.get(eng.strip_refs(f.get("self") or f.get("rself") or "u64"), 64)
    return one(st, INT((1 << bits) - 1))


def m_bitset(eng, f, args, st, site, rty):
    m = derefv(eng, st, args[0])
    eng.indexes.append(("BitVec::set", (m, args[1]), site, st.chain, st.facts))
    store(eng, st, args[0], mk("mut", "bitset", 0, m, args[1], args[2]), site)
    return one(st, UNIT)


def m_bits_from(eng, f, args, st, site, rty):
    return one(st, mk("bits", eng.deep(st, args[0])))


def m_last(eng, f, args, st, site, rty):
    return one(st, mk("call", f["n"], derefv(eng, st, args[0])))


MODELS = {}


def reg(names, fn):
    for n in names.split():
        MODELS[n] = fn


for _c in MAPS:
    reg(f"{_c}::get {_c}::get_mut", m_get)
    reg(f"{_c}::contains_key", m_contains_key)
    reg(f"{_c}::insert", m_insert)
    reg(f"{_c}::remove", m_remove)
    reg(f"{_c}::entry", m_entry)
    reg(f"{_c}::split_off", m_split_off)
    reg(f"{_c}::retain", m_retain)
    reg(f"{_c}::iter {_c}::iter_mut {_c}::keys {_c}::values {_c}::values_mut {_c}::into_values {_c}::into_keys", m_iter)
for _c in SETS:
    reg(f"{_c}::insert", m_set_insert)
    reg(f"{_c}::replace", m_set_replace)
    reg(f"{_c}::retain", m_retain)
    reg(f"{_c}::contains", m_set_contains)
    reg(f"{_c}::iter", m_iter)
for _c in MAPS + SETS + ("Vec", "VecDeque", "BitVec"):
    reg(f"{_c}::len", m_len)
    reg(f"{_c}::is_empty", m_is_empty)
    reg(f"{_c}::clear", m_clear)
reg("Entry::or_insert Entry::or_insert_with Entry::or_default", m_or_insert)
reg("Entry::and_modify", m_and_modify)
for _c in ("OccupiedEntry", "VacantEntry"):
    reg(" ".join(f"{_c}::{n}" for n in ("get", "get_mut", "into_mut", "insert", "remove", "key", "into_key")), m_slot)
reg("Vec::push VecDeque::push_back BitVec::push", m_push)
reg("Vec::append", m_append)
reg("Vec::retain VecDeque::retain", m_retain)
reg("Bytes::len", m_len)
reg("BitVec::iter", m_iter)
reg("BitVec::get", m_vec_get)
reg("BitVec::set", m_bitset)
reg("BitVec::from_bytes", m_bits_from)
reg("Bytes::is_empty", lambda e, f, a, st, s, r: one(st, EMPTY(derefv(e, st, a[0]))))
reg("Bytes::new Bytes::default", lambda e, f, a, st, s, r: one(st, EMPTYB))
reg("IntoIterator::into_iter", m_into_iter)
reg("Iterator::next", m_next)
reg("Iterator::map Iterator::filter Iterator::filter_map", m_map)
reg("Iterator::cloned Iterator::copied Iterator::by_ref Iterator::fuse Iterator::peekable", m_cloned)
reg("Iterator::enumerate", m_enumerate)
reg("Iterator::zip iter::zip", m_zip)
reg("Iterator::rev", m_rev)
reg("Iterator::chain", m_chain)
reg("Iterator::flat_map Iterator::flatten", m_flat_map)
reg("Iterator::unzip", m_unzip)
reg("Iterator::partition", m_partition)
reg("Extend::extend Vec::extend_from_slice", m_extend)
reg("Option::iter Option::iter_mut", m_iter)
reg("Iterator::collect FromIterator::from_iter", m_collect)
reg("Iterator::sum", m_sum)
reg("Iterator::count", m_count)
reg("Iterator::any Iterator::all", m_any)
reg("Iterator::find Iterator::position Iterator::find_map", m_find)
reg("Iterator::last Iterator::max Iterator::min Iterator::max_by_key Iterator::min_by_key", m_lastit)
reg("DoubleEndedIterator::next_back", m_lastit)
reg("DoubleEndedIterator::rfind", m_rfind)
reg("Iterator::fold Iterator::for_each Iterator::try_for_each Iterator::try_fold", m_foldit)
reg("Future::poll", m_poll)
reg("StreamExt::next", m_stream_next)
reg("FutureExt::poll_unpin StreamExt::poll_next_unpin", m_poll_unpin)
reg("Stream::poll_next", m_poll_unpin)
reg("future::poll_fn", m_poll_fn)
reg("tokio::spawn task::spawn", m_spawn)
reg("FusedFuture::is_terminated FusedStream::is_terminated", lambda e, f, a, st, s, r: one(st, FALSE))
reg("random::shuffle", lambda e, f, a, st, s, r: one(st, UNIT))
reg("PartialEq::eq PartialEq::ne", m_eq)
reg("Ord::cmp PartialOrd::partial_cmp PartialOrd::lt PartialOrd::le PartialOrd::gt PartialOrd::ge", m_cmp)
reg("Ord::min Ord::max cmp::min cmp::max", m_minmax)
reg("intrinsics::discriminant_value mem::discriminant", m_discriminant)
reg("Cell::set RefCell::set", m_cellset)
reg("MulAssign::mul_assign AddAssign::add_assign SubAssign::sub_assign DivAssign::div_assign", m_mulassign)
reg("Mul::mul Add::add Sub::sub Div::div Rem::rem", m_binop)
reg("FnOnce::call_once FnMut::call_mut Fn::call", m_call_fn)
reg("Poll::map", m_option_map_poll)
reg("u64::max_value u32::max_value usize::max_value", m_max_value)
reg("MutaTracer::span MutaTracer::child_of_span Context::get", lambda e, f, a, st, s, r: one(st, NONE))
reg("Index::index IndexMut::index_mut", m_index)
for _n in ASYNC_TRAIT:
    reg(_n, m_async_call)

DERIVED_TRAITS_IDENT = {"Clone::clone", "ToOwned::to_owned"}


def model_for(eng, f, short):
    m = MODELS.get(short)
    if m is not None:
        if short in ("PartialEq::eq", "PartialEq::ne"):
            k = f.get("key")
            if k in eng.p.bodies and not eng.derived_eq(k, f):
                return None
        if short == "FromIterator::from_iter":
            return lambda e, f2, a, st, s, r: m_collect(e, f2, a, st, s, r)
        if short in ("Index::index", "IndexMut::index_mut") and f.get("local"):
            return None
        return m
    if short in NOISE_CALLS and short not in getattr(eng, "keep_calls", ()):
        return lambda e, f2, a, st, s, r: one(st, NOISE)
    if short in ("Clone::clone", "ToOwned::to_owned", "Cell::get", "Arc::clone"):
        k = f.get("key")
        if k in eng.p.bodies and eng.p.bodies[k].j["local"] and not eng.p.bodies[k].j.get("exp"):
            return None
        return lambda e, f2, a, st, s, r: one(st, derefv1(e, st, a[0]))
    if short == "Default::default" and eng.p.adt_last(f.get("rself") or f.get("self") or "") == "Bytes":
        return lambda e, f2, a, st, s, r: one(st, EMPTYB)
    if short == "Default::default" and eng.p.adt_last(f.get("rself") or f.get("self") or "") in ("Vec", "HashMap", "HashSet", "BTreeMap"):
        return lambda e, f2, a, st, s, r: one(st, EMPTYC)
    if short in ("From::from", "Into::into"):
        if f.get("key") in eng.p.bodies:
            return None
        t = f.get("rself") or f.get("self") or ""
        ty = eng.p.adt_last(t)
        if ty in ("Bytes", "u64", "u32", "usize", "Vec", "u128", "BytesMut", "Arc", "Box", "u16", "T"):
            return lambda e, f2, a, st, s, r: one(st, derefv1(e, st, a[0]))
        if ty in ("String", "str"):
            return lambda e, f2, a, st, s, r: one(st, NOISE)
        if ty == "HashSet":
            return m_collect
        return None
    if short == "Bytes::copy_from_slice":
        return lambda e, f2, a, st, s, r: one(st, derefv1(e, st, a[0]))
    if short in EMPTY_CTORS:
        return m_newcoll
    if short in IDENT_FIRST:
        if f.get("key") in eng.p.bodies and short not in ("Deref::deref", "DerefMut::deref_mut"):
            return None
        return lambda e, f2, a, st, s, r: one(st, ident(e, st, a[0], short))
    p = short
    if any(d in p for d in DIVERGE_PATHS):
        return lambda e, f2, a, st, s, r: e.panic(p, st, s)
    if p == "intrinsics::unreachable":
        return lambda e, f2, a, st, s, r: []
    n = f["n"]
    typ = p.rsplit("::", 1)[0]
    if n in ("wrapping_add", "wrapping_sub", "wrapping_mul", "saturating_add", "saturating_sub", "saturating_mul",
             "checked_add", "checked_sub", "checked_mul", "checked_rem", "checked_div", "wrapping_rem") and \
            eng.strip_refs(f.get("self") or "") in ("u64", "u32", "usize", "u128", "u8", "u16"):
        return m_arith
    if n in ("checked_sub", "saturating_sub", "checked_add", "checked_mul", "saturating_mul") and typ in ("Duration", "Instant"):
        return m_arith
    if typ == "Instant" and n == "elapsed":
        return lambda e, f2, a, st, s, r: one(st, SUB(mk("call", "Instant::now"), e.deep(st, a[0])))
    if typ == "Instant" and n in ("duration_since", "saturating_duration_since"):
        return lambda e, f2, a, st, s, r: one(st, SUB(e.deep(st, a[0]), e.deep(st, a[1])))
    if "]" in typ:  # slices
        if n in ("iter", "iter_mut"):
            return m_iter
        if n in ("sort", "sort_unstable", "sort_by", "sort_by_key", "sort_unstable_by", "sort_unstable_by_key"):
            return m_sort
        if n == "len":
            return m_len
        if n == "is_empty":
            return m_is_empty
        if n == "contains":
            return m_contains
        if n in ("get", "get_mut"):
            return m_vec_get
        if n in ("to_vec", "into_vec"):
            return lambda e, f2, a, st, s, r: one(st, derefv1(e, st, a[0]))
        if n in ("last", "first"):
            return m_last
    if typ == "Vec" and n in ("iter", "iter_mut"):
        return m_iter
    if typ == "Option" and n in ("cloned", "copied") and f.get("key") not in eng.p.bodies:
        return lambda e, f2, a, st, s, r: one(st, e.deep(st, a[0]))
    return None


def derefv1(eng, st, a):
    """the value a clone() of *a has"""
    v = eng.load(st, a)
    return v


def ident(eng, st, a, short):
    if short in ("Deref::deref", "DerefMut::deref_mut", "AsRef::as_ref", "AsMut::as_mut", "Borrow::borrow"):
        v = eng.load(st, a)
        if v.op == "ref":
            return v
    return a
