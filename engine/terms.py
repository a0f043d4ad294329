"""Hash-consed value-number terms used by the abstract interpreter."""


class T:
    __slots__ = ("op", "a", "uid", "_s")

    def __repr__(self):
        return show(self)


_tab = {}


def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = accessor(op, a) if op in ("fld", "contains", "call") else None
        if t is not None:
            _tab[k] = t
            return t
        t = T()
        t.op = op
        t.a = a
        t.uid = len(_tab)
        t._s = None
        _tab[k] = t
    return t


# the query functions of the authority list, as terms over the list; a node may also read the field behind them
# (the rules prove each query to be that field, AuthorityManage::update to be the only writer, and every entry of the
# address list to have a weight and the other way round)
AUTH = "AuthorityManage::"
QUERY = {"address": AUTH + "get_address_ref", "vote_weight_sum": AUTH + "get_vote_weight_sum"}


def list_of_node(t):
    return not (t.op == "sym" and t.a[0] == "self") and t.op != "agg"


def weights_of(t):
    """get(list.vote_weight_map, k) -> the query term"""
    if t.op == "get" and t.a[0].op == "fld" and t.a[0].a[3] == "vote_weight_map" and list_of_node(t.a[0].a[0]):
        return mk("call", AUTH + "get_vote_weight", t.a[0].a[0], t.a[1])
    return None


def listlen(t):
    """the list whose length it is"""
    if t.op == "call" and t.a[0] == "len":
        return t.a[1]
    if t.op == "call" and t.a[0] == AUTH + "len":
        return mk("call", QUERY["address"], t.a[1])
    return None


def accessor(op, a):
    if op == "fld":
        if a[3] in ("vote_weight_sum",) and list_of_node(a[0]):
            return mk("call", QUERY[a[3]], a[0])
        if a[3] == "0":
            w = weights_of(a[0])
            if w is not None:
                return mk("fld", w, 0, 0, "0")
        return None
    if op == "contains":
        if a[0].op == "call" and a[0].a[0] == QUERY["address"]:
            return mk("call", AUTH + "contains", a[0].a[1], a[1])
        return None
    if a[0] == "len" and a[1].op == "call" and a[1].a[0] == QUERY["address"]:
        return mk("call", AUTH + "len", a[1].a[1])
    return None


def INT(n):
    return mk("int", int(n))


TRUE = INT(1)
FALSE = INT(0)
UNIT = mk("agg", "tuple", 0, "")
NOISE = mk("noise")
EMPTYB = mk("emptybytes")
EMPTYC = mk("emptycoll")


def is_int(t):
    return t.op == "int"


def agg(adt, vi, vn, fields):
    return mk("agg", adt, vi, vn, *fields)


def tup(*fields):
    return mk("agg", "tuple", 0, "", *fields)


OPTION = "std::option::Option"
RESULT = "std::result::Result"
POLL = "std::task::Poll"


def some(x):
    return agg(OPTION, 1, "Some", (x,))


NONE = agg(OPTION, 0, "None", ())


def ok(x):
    return agg(RESULT, 0, "Ok", (x,))


def err(x):
    return agg(RESULT, 1, "Err", (x,))


def ready(x):
    return agg(POLL, 0, "Ready", (x,))


def afields(t):
    return t.a[3:]


BOOLS = ("eq", "lt", "and", "or", "empty", "contains", "any", "not")


def NOT(t):
    if t.op == "int":
        return FALSE if t.a[0] else TRUE
    if t.op == "not":
        return t.a[0]
    return mk("not", t)


def lin(t):
    """t = base + c  (base None for constants)"""
    if t.op == "int":
        return None, t.a[0]
    if t.op == "add" and t.a[1].op == "int":
        b, c = lin(t.a[0])
        return b, c + t.a[1].a[0]
    if t.op == "sub" and t.a[1].op == "int":
        b, c = lin(t.a[0])
        return b, c - t.a[1].a[0]
    return t, 0


def ADD(a, b):
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        if a.op == "int":
            return INT(a.a[0] + b.a[0])
        if b.a[0] == 0:
            return a
        base, c = lin(a)
        c += b.a[0]
        if base is None:
            return INT(c)
        if c == 0:
            return base
        return mk("add", base, INT(c)) if c > 0 else mk("sub", base, INT(-c))
    if a.uid > b.uid:
        a, b = b, a
    return mk("add", a, b)


def SUB(a, b):
    if b.op == "int":
        return ADD(a, INT(-b.a[0])) if not (a.op == "int") else INT(a.a[0] - b.a[0])
    if a is b:
        return INT(0)
    return mk("sub", a, b)


def MUL(a, b):
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        if a.op == "int":
            return INT(a.a[0] * b.a[0])
        if b.a[0] == 1:
            return a
        if b.a[0] == 0:
            return INT(0)
        if a.op == "mul" and a.a[1].op == "int":
            return mk("mul", a.a[0], INT(a.a[1].a[0] * b.a[0]))
        return mk("mul", a, b)
    if a.uid > b.uid:
        a, b = b, a
    return mk("mul", a, b)


def ordk(t):
    k = t.a[0]
    return -1 if k in (255, (1 << 64) - 1, (1 << 128) - 1) else k


def is_ord(t):
    return t.op == "discr" and t.a[0].op == "cmp"


def EQ(a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x.op == "discr" and y.op == "int":
            w = weights_of(x.a[0])
            if w is not None:
                x, y = mk("discr", w, RESULT), INT(1 - y.a[0])
            if x.a[0].op == "call" and x.a[0].a[0] == AUTH + "get_vote_weight":
                t = mk("call", AUTH + "contains", *x.a[0].a[1:])
                return t if y.a[0] == 0 else NOT(t)
    if b.op == "int" and is_ord(a):
        x, y = a.a[0].a
        return {-1: LT(x, y), 0: EQ(x, y), 1: LT(y, x)}.get(ordk(b), FALSE)
    if a.op == "int" and is_ord(b):
        return EQ(b, a)
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] == b.a[0] else FALSE
    if a.op == "str" and b.op == "str":
        return FALSE
    if b is EMPTYB:
        a, b = b, a
    if a is EMPTYB:
        return mk("empty", b)
    if a.op == "agg" and b.op == "agg" and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        if len(a.a) == 3:
            return TRUE
        if len(a.a) == 4:
            return EQ(a.a[3], b.a[3])
    for x, y in ((a, b), (b, a)):
        if y.op == "int" and y.a[0] == 0 and x.op == "call" and x.a[0] == "len":
            return EMPTY(x.a[1])
        if x.op == "not":
            return NOT(EQ(x.a[0], y))
        if x.op in BOOLS and y.op == "int":
            return x if y.a[0] else NOT(x)
    la, ca = lin(a)
    lb, cb = lin(b)
    if la is not None and la is lb:
        return TRUE if ca == cb else FALSE
    if a.uid > b.uid:
        a, b = b, a
    return mk("eq", a, b)


def LT(a, b):
    if a is b:
        return FALSE
    if a.op == "int" and b.op == "int":
        return TRUE if a.a[0] < b.a[0] else FALSE
    if is_ord(a) and b.op == "int":
        x, y = a.a[0].a
        k = ordk(b)
        return FALSE if k <= -1 else LT(x, y) if k == 0 else LE(x, y) if k == 1 else TRUE
    if is_ord(b) and a.op == "int":
        x, y = b.a[0].a
        k = ordk(a)
        return TRUE if k < -1 else LE(y, x) if k == -1 else LT(y, x) if k == 0 else FALSE
    if b.op == "call" and b.a[0] == "len" and a.op == "int" and a.a[0] == 0:
        return NOT(EMPTY(b.a[1]))
    if a.op == "call" and a.a[0] == "len" and b.op == "int" and b.a[0] == 1:
        return EMPTY(a.a[1])
    la, ca = lin(a)
    lb, cb = lin(b)
    if la is lb:
        return TRUE if ca < cb else FALSE
    if b.op == "int" and b.a[0] == 0:
        return FALSE
    if b.op == "sub" and b.a[1].op != "int" and a.op == "int":
        return LT(ADD(b.a[1], a), b.a[0])
    if a.op == "sub" and a.a[1].op != "int" and b.op == "int":
        return LT(a.a[0], ADD(a.a[1], b))
    return mk("lt", a, b)


def LE(a, b):
    return NOT(LT(b, a))


def EMPTY(x):
    if x is EMPTYB or x is EMPTYC:
        return TRUE
    if x.op == "mut" and x.a[0] in ("insert", "sinsert", "push"):
        return FALSE
    return mk("empty", x)


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        return t
    r = m.get(t)
    if r is not None:
        return r
    r = memo.get(t)
    if r is not None:
        return r
    na = tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a)
    r = t if all(x is y for x, y in zip(na, t.a)) else rebuild(t.op, na)
    memo[t] = r
    return r


def rebuild(op, a):
    if op == "add":
        return ADD(*a)
    if op == "sub":
        return SUB(*a)
    if op == "mul":
        return MUL(*a)
    if op == "eq":
        return EQ(*a)
    if op == "lt":
        return LT(*a)
    if op == "not":
        return NOT(*a)
    return mk(op, *a)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for y in x.a:
            if isinstance(y, T):
                st.append(y)


_free = {}


def free_idx(t):
    """the element positions t speaks about, outside of any binder"""
    r = _free.get(t)
    if r is not None:
        return r
    out = set()
    work = list(t.a)
    if t.op == "idx":
        out.add(t)
    if t.op in ("any", "seq", "fold"):
        src = t.a[0] if t.op != "fold" else t.a[1]
        for c in t.a:
            if isinstance(c, T) and c.op == "case":
                out |= free_idx(c)
        out.discard(mk("idx", src))
        work = [x for x in t.a if not (isinstance(x, T) and x.op == "case")]
    while work:
        x = work.pop()
        if isinstance(x, T):
            out |= free_idx(x)
        elif isinstance(x, tuple):
            work.extend(x)
    r = frozenset(out)
    _free[t] = r
    return r


def contains(t, p):
    return any(p(x) for x in subterms(t))


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    if d > 30:
        return "..."
    o, a = t.op, t.a
    if o == "int":
        r = str(a[0])
    elif o == "str":
        r = repr(a[0])
    elif o == "sym":
        r = a[0]
    elif o == "fld":
        v = f"@{a[1]}" if a[1] not in (None, "") else ""
        r = f"{show(a[0], d+1)}{v}.{a[3] if a[3] else a[2]}"
    elif o == "agg":
        n = a[0].split("::")[-1]
        if a[2] and a[2] != n:
            n = n + "::" + a[2]
        if a[0] == "tuple":
            n = ""
        r = f"{n}({', '.join(show(x, d+1) for x in a[3:])})"
    elif o in ("call", "mut", "ucall"):
        r = f"{'' if o != 'mut' else 'mut:'}{str(a[0]).split('::')[-1] if '<' not in str(a[0]) else a[0]}({', '.join(show(x, d+1) for x in a[1:])})"
    elif o == "ref":
        r = f"&{a}"
    elif o == "not":
        r = f"!{show(a[0], d+1)}"
    elif o in ("eq", "lt", "add", "sub", "mul"):
        s = {"eq": "==", "lt": "<", "add": "+", "sub": "-", "mul": "*"}[o]
        r = f"({show(a[0], d+1)}{s}{show(a[1], d+1)})"
    elif o in ("clo", "coro"):
        r = f"{o}<{a[0].split('::')[-1][:30]}>"
    else:
        r = f"{o}({', '.join(show(x, d+1) for x in a)})"
    if len(r) > 4000:
        r = r[:4000] + "…"
    if d == 0 or len(r) < 200:
        t._s = r
    return r
