"""Path facts: boolean atoms + difference bounds + enum-discriminant sets.

A purely syntactic congruence/zone domain -- no solver is involved."""
from terms import *

ZERO = mk("zero")
_busy = []  # a query through truth values is under way


class Facts:
    __slots__ = ("atoms", "adj", "val", "log", "neq", "eqs")

    def __init__(self):
        self.atoms = {}
        self.adj = {}  # x -> {y: c}  meaning x - y <= c
        self.val = {}  # term -> int (known constant)
        self.neq = {}  # term -> frozenset of excluded ints
        self.eqs = {}  # term -> tuple of equal terms
        self.log = None  # linked list (prev, term, bool)

    def copy(self):
        f = Facts.__new__(Facts)
        f.atoms = dict(self.atoms)
        f.adj = dict(self.adj)
        f.val = dict(self.val)
        f.neq = dict(self.neq)
        f.eqs = dict(self.eqs)
        f.log = self.log
        return f

    # ---- numeric
    def bound(self, x, y, limit=None):
        """least c with x - y <= c derivable, or None"""
        if x is y:
            return 0
        if x is ZERO:
            best = {ZERO: 0}
        else:
            best = {x: 0}
        work = [ZERO if x is ZERO else x]
        adj = self.adj
        n = 0
        while work:
            u = work.pop()
            du = best[u]
            n += 1
            if n > 4000:
                break
            e = adj.get(u)
            if e:
                for v, c in e.items():
                    d = du + c
                    b = best.get(v)
                    if b is None or d < b:
                        best[v] = d
                        work.append(v)
            if u is ZERO and y is not ZERO:
                # 0 - y <= 0 for unsigned y
                b = best.get(y)
                if b is None or du < b:
                    best[y] = du
        if y not in best:
            z = best.get(ZERO)
            if z is not None and y is not ZERO:
                return z
            if x is ZERO:
                return 0
            return None
        return best[y]

    def _edge(self, x, y, c):
        e = self.adj.get(x)
        if e is not None:
            o = e.get(y)
            if o is not None and o <= c:
                return
            e = dict(e)
        else:
            e = {}
        e[y] = c
        self.adj[x] = e

    @staticmethod
    def _lin(t):
        b, c = lin(t)
        return (ZERO if b is None else b), c

    def le(self, a, b, k=0):
        """is a <= b + k derivable"""
        la, ca = self._lin(a)
        lb, cb = self._lin(b)
        d = self.bound(la, lb)
        return d is not None and d <= cb - ca + k

    # ---- equality closure over opaque values
    def eqclass(self, t):
        seen = [t]
        i = 0
        while i < len(seen):
            for y in self.eqs.get(seen[i], ()):
                if y not in seen:
                    seen.append(y)
            i += 1
        return seen

    def same(self, a, b):
        if a is b:
            return True
        if a in self.eqs and b in self.eqs:
            if any(x is b for x in self.eqclass(a)):
                return True
        if self.query(EQ(a, b)) is True:
            return True
        if a.op == "agg" and b.op == "agg" and a.a[:3] == b.a[:3] and len(a.a) == len(b.a):
            return all(self.same(x, y) for x, y in zip(a.a[3:], b.a[3:]))
        if (a.op == "agg") != (b.op == "agg"):
            # a variant without fields, and a value known to be that variant
            x, y = (a, b) if a.op == "agg" else (b, a)
            if len(x.a) == 3 and x.a[0] in Facts.ENUMS and y.op not in ("int", "tuple"):
                k = Facts.VARIANTS.get((x.a[0], x.a[1]))
                return k is not None and self.query(EQ(mk("discr", y, x.a[0]), mk("int", k))) is True
        if a.op == b.op and len(a.a) == len(b.a) and a.op in ("fld", "call", "cast", "discr", "add", "empty", "at", "res"):
            return all(
                (x is y) or (isinstance(x, T) and isinstance(y, T) and self.same(x, y)) or x == y
                for x, y in zip(a.a, b.a)
            )
        return False

    def forget(self, i):
        """the facts without what is known of the element at position i (a new element is looked at); the log stays"""
        hit = [t for t in self.atoms if i in free_idx(t)]
        if not hit:
            return self
        f = self.copy()
        for tab in ("atoms", "val", "neq", "eqs", "adj"):
            setattr(f, tab, {k: v for k, v in getattr(f, tab).items() if i not in free_idx(k)})
        f.eqs = {k: tuple(y for y in v if i not in free_idx(y)) for k, v in f.eqs.items()}
        f.adj = {k: {y: c for y, c in v.items() if i not in free_idx(y)} for k, v in f.adj.items()}
        return f

    # ---- queries
    def query(self, t):
        if t.op == "int":
            return bool(t.a[0])
        if t.op == "not":
            q = self.query(t.a[0])
            return None if q is None else (not q)
        v = self.atoms.get(t)
        if v is not None:
            return v
        if t in self.eqs and t.op in BOOLS and not _busy:
            # truth values known to agree with (or to oppose) a known one
            _busy.append(t)
            try:
                for y in self.eqclass(t):
                    v = self.query(y) if y is not t else None
                    if v is not None:
                        return v
            finally:
                _busy.pop()
        if t.op == "eq":
            a, b = t.a
            if a.op in BOOLS and b.op in BOOLS and not _busy:
                _busy.append(t)
                try:
                    va, vb = self.query(a), self.query(b)
                finally:
                    _busy.pop()
                if va is not None and vb is not None:
                    return va == vb
            if a.op == "int":
                a, b = b, a
            if b.op == "int":
                return self.query_val(a, b.a[0])
            va, vb = self.val.get(a), self.val.get(b)
            if va is not None and vb is not None:
                return va == vb
            if a in self.eqs and b in self.eqs and b in self.eqclass(a):
                return True
            if a in self.adj or lin(a)[0] in self.adj or b in self.adj or lin(b)[0] in self.adj:
                if self.le(a, b, -1) or self.le(b, a, -1):
                    return False
                if self.le(a, b) and self.le(b, a):
                    return True
            # inequality through equality classes
            if a in self.eqs or b in self.eqs:
                for x in self.eqclass(a):
                    for y in self.eqclass(b):
                        if self.atoms.get(EQ(x, y)) is False:
                            return False
            return None
        if t.op == "lt":
            a, b = t.a
            if self.le(a, b, -1):
                return True
            if self.le(b, a):
                return False
            if self.le(a, b) and self.query(EQ(a, b)) is False:
                return True
            if a.op == "discr" and b.op == "int" or a.op == "int" and b.op == "discr":
                p = self.possible(a if a.op == "discr" else b)
                got = {x < b.a[0] if a.op == "discr" else a.a[0] < x for x in p or ()}
                return got.pop() if len(got) == 1 else None
            return None
        if t.op == "empty":
            x = t.a[0]
            if x in self.eqs:
                for y in self.eqclass(x):
                    v = self.atoms.get(mk("empty", y))
                    if v is not None:
                        return v
            return None
        if t.op == "and":
            qs = [self.query(x) for x in t.a]
            if any(q is False for q in qs):
                return False
            if all(q is True for q in qs):
                return True
            return None
        if t.op == "or":
            qs = [self.query(x) for x in t.a]
            if any(q is True for q in qs):
                return True
            if all(q is False for q in qs):
                return False
            return None
        return None

    def query_val(self, a, k):
        v = self.val.get(a)
        if v is not None:
            return v == k
        if k in self.neq.get(a, ()):
            return False
        if a.op == "discr":
            p = self.possible(a)
            if p is not None:
                if k not in p:
                    return False
                if len(p) == 1:
                    return True
            return None
        la, ca = self._lin(a)
        if la is not a:
            return self.query_val(la, k - ca)
        if la in self.adj or ZERO in self.adj:
            up = self.bound(la, ZERO)
            if up is not None and up < k:
                return False
            lo = self.bound(ZERO, la)
            if lo is not None and -lo > k:
                return False
            if up is not None and lo is not None and up == k and -lo == k:
                return True
        return None

    VARIANTS = {}  # (adt path, variant number) -> discriminant value
    ENUMS = {}  # adt path -> tuple of discriminant values

    def possible(self, d):
        vs = Facts.ENUMS.get(d.a[1])
        if vs is None:
            return None
        v = self.val.get(d)
        if v is not None:
            return (v,)
        ne = self.neq.get(d, ())
        vs = [x for x in vs if x not in ne]
        if d in self.adj or (ZERO in self.adj and d in self.adj[ZERO]) or any(d in e for e in self.adj.values()):
            up = self.bound(d, ZERO)
            lo = self.bound(ZERO, d)
            vs = [x for x in vs if (up is None or x <= up) and (lo is None or x >= -lo)]
        return tuple(vs)

    # ---- assumptions
    def assume(self, t, val=True):
        """returns Facts or None (contradiction)"""
        if t.op == "not":
            return self.assume(t.a[0], not val)
        q = self.query(t)
        if q is not None:
            return self if q == val else None
        f = self.copy()
        f.log = (f.log, t, val)
        if not f._add(t, val):
            return None
        return f

    def _add(self, t, val):
        self.atoms[t] = val
        if t.op == "eq":
            a, b = t.a
            if a.op == "int":
                a, b = b, a
            if b.op == "int":
                k = b.a[0]
                la, ca = self._lin(a)
                k -= ca
                if val:
                    self.val[la] = k
                    self._edge(la, ZERO, k)
                    self._edge(ZERO, la, -k)
                else:
                    self.neq[la] = frozenset(self.neq.get(la, frozenset()) | {k})
                    if k == 0:
                        self._edge(ZERO, la, -1)
                    if not self._tighten(la):
                        return False
                    if la.op == "discr":
                        p = self.possible(la)
                        if p is not None:
                            if not p:
                                return False
                            if len(p) == 1:
                                self.val[la] = p[0]
                                self._edge(la, ZERO, p[0])
                                self._edge(ZERO, la, -p[0])
            elif a.op in BOOLS and b.op in BOOLS:
                for x, y in ((a, b), (b, a)):
                    y = y if val else NOT(y)
                    self.eqs[x] = self.eqs.get(x, ()) + (y,)
            else:
                if val:
                    self.eqs[a] = self.eqs.get(a, ()) + (b,)
                    self.eqs[b] = self.eqs.get(b, ()) + (a,)
                    la, ca = self._lin(a)
                    lb, cb = self._lin(b)
                    self._edge(la, lb, cb - ca)
                    self._edge(lb, la, ca - cb)
        elif t.op == "lt":
            a, b = t.a
            la, ca = self._lin(a)
            lb, cb = self._lin(b)
            if val:
                self._edge(la, lb, cb - ca - 1)
            else:
                self._edge(lb, la, ca - cb)
            if not (self._tighten(la) and self._tighten(lb)):
                return False
            for d in (a, b):
                if d.op == "discr":
                    p = self.possible(d)
                    if p is not None:
                        if not p:
                            return False
                        if len(p) == 1:
                            self.val[d] = p[0]
        elif t.op == "and" and val:
            for x in t.a:
                g = self.assume(x, True)
                if g is None:
                    return False
                if g is not self:
                    self._take(g)
        elif t.op == "or" and not val:
            for x in t.a:
                g = self.assume(x, False)
                if g is None:
                    return False
                if g is not self:
                    self._take(g)
        return True

    def _tighten(self, x):
        """move the constant bounds of x past its excluded values; False if nothing is left"""
        ne = self.neq.get(x)
        if not ne:
            return True
        up = self.bound(x, ZERO)
        lo = self.bound(ZERO, x)
        lo = None if lo is None else -lo
        u, l = up, lo
        while u is not None and u in ne:
            u -= 1
        while l is not None and l in ne:
            l += 1
        if u is not None and u < 0 and lo is None:
            return False
        if u is not None and l is not None and l > u:
            return False
        if u != up:
            self._edge(x, ZERO, u)
        if l != lo:
            self._edge(ZERO, x, -l)
        return True

    def _take(self, g):
        self.atoms, self.adj, self.val, self.neq, self.eqs, self.log = (
            g.atoms, g.adj, g.val, g.neq, g.eqs, g.log)

    def literals(self, since=None):
        out = []
        n = self.log
        while n is not None and n is not since:
            out.append((n[1], n[2]))
            n = n[0]
        out.reverse()
        return out

    def show(self):
        return " & ".join(("" if v else "!") + show(t) for t, v in self.literals())


def intersect(a, b):
    """join: keep literals common to both"""
    f = Facts()
    bl = set(b.literals())
    for l in a.literals():
        if l in bl:
            g = f.assume(l[0], l[1])
            f = g or f
    return f
