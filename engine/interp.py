"""Path-sensitive, interprocedural abstract interpretation of dumped MIR.

Abstract state = value-number environment + path facts + event trace.  Loops are widened
(values that change in the loop become phi terms, recurrences over iterators become folds).
Nothing is executed and no solver is used."""
import json
import sys
from collections import namedtuple

from terms import *
from facts import Facts, ZERO, intersect

sys.setrecursionlimit(20000)


class Ev:
    __slots__ = ("name", "args", "res", "facts", "site", "selfv", "x", "chain")

    def __init__(self, name, args, res=None, facts=None, site="", selfv=None, x=None, chain=()):
        self.name, self.args, self.res, self.facts = name, args, res, facts
        self.site, self.selfv, self.x, self.chain = site, selfv, x, chain

    def __repr__(self):
        return f"{self.name}({', '.join(show(a) for a in self.args)})"


class St:
    __slots__ = ("env", "facts", "trace", "ctr", "chain")

    def __init__(self):
        self.env = {}
        self.facts = Facts()
        self.trace = None
        self.ctr = 0
        self.chain = ()

    def copy(self):
        s = St()
        s.env = dict(self.env)
        s.facts = self.facts
        s.trace = self.trace
        s.ctr = self.ctr
        s.chain = self.chain
        return s

    def emit(self, ev):
        self.trace = (self.trace, ev)

    def events(self, since=None):
        out = []
        n = self.trace
        while n is not None and n is not since:
            out.append(n[1])
            n = n[0]
        out.reverse()
        return out


class Budget(Exception):
    pass


class Body:
    def __init__(self, key, j):
        self.key = key
        self.j = j
        self.path = j["p"]
        self.kind = j["kind"]
        self.argc = j["argc"]
        self.locals = j["locals"]
        self.blocks = j["blocks"]
        self.span = j["span"]
        self.spread = j.get("spread")
        self._loops = None

    def succ(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[2]] + [t[3]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [t[4]] if t[4] is not None else []
        if k == "assert":
            return [t[4]]
        if k == "yield":
            return [t[2]]
        return []

    @property
    def loops(self):
        if self._loops is None:
            n = len(self.blocks)
            color = [0] * n
            back = []
            st = [(0, iter(self.succ(0)))]
            color[0] = 1
            pred = {}
            seen = {0}
            while st:
                u, it = st[-1]
                for v in it:
                    pred.setdefault(v, []).append(u)
                    if color[v] == 0:
                        color[v] = 1
                        st.append((v, iter(self.succ(v))))
                        break
                    elif color[v] == 1:
                        back.append((u, v))
                else:
                    color[u] = 2
                    st.pop()
            loops = {}
            for u, h in back:
                nodes = loops.setdefault(h, {h})
                work = [u]
                while work:
                    x = work.pop()
                    if x in nodes:
                        continue
                    nodes.add(x)
                    work.extend(pred.get(x, []))
            self._loops = loops
        return self._loops


def small(t):
    """arithmetic on small constants does not overflow"""
    a, b = t.a[1], t.a[2]
    if a.op == b.op == "int" and all(isinstance(x.a[0], int) and 0 <= x.a[0] < 8 for x in (a, b)) and \
            (t.a[0] != "Sub" or a.a[0] >= b.a[0]):
        return FALSE
    return t


def last(p):
    return p.split("::")[-1]


_strip_cache = {}


def strip_generics(p):
    r = _strip_cache.get(p)
    if r is not None:
        return r
    out = []
    d = 0
    i = 0
    while i < len(p):
        c = p[i]
        if c == "<":
            d += 1
        elif c == ">" and p[i - 1] != "-":
            d -= 1
        elif d == 0:
            out.append(c)
        i += 1
    r = "".join(out).replace("::::", "::").strip(":")
    _strip_cache[p] = r
    return r


def pair_up(missing, new, alike):
    """pairs (known thing that is missing, new thing) that can only be each other; in order among those of the same kind"""
    out = []
    left = list(new)
    kinds = {}
    for x in missing:
        kinds.setdefault(alike(x), []).append(x)
    for k, xs in kinds.items():
        ys = [y for y in left if alike(y) == k]
        if len(xs) == len(ys):
            out += zip(xs, ys)
            left = [y for y in left if y not in ys]
    rest = [x for x in missing if x not in {a for a, _ in out}]
    if len(rest) == len(left) == 1:
        out.append((rest[0], left[0]))
    return out


def canonical_names(m, anchors):
    """a renamed field of a struct, or variant of an enum, gets the name back under which the rules know it"""
    adts = m["adts"]
    struct = {}
    for p, a in adts.items():
        if not a.get("local") or "<" in p:
            continue
        if a["k"] == "struct" and last(p) in anchors["fields"]:
            known = {n: t for n, t in anchors["fields"][last(p)]}
            v = a["v"][0]
            now = dict(zip(v["f"], v["t"]))
            back = {y: x for x, y in pair_up([n for n in known if n not in now], [n for n in now if n not in known],
                                             lambda n: known[n] if n in known else now[n])}
            v["f"] = [back.get(n, n) for n in v["f"]]
            if back:
                struct[p] = v["f"]
        elif a["k"] == "enum" and last(p) in anchors["variants"]:
            known = {n: t for n, t in anchors["variants"][last(p)]}
            now = {v["n"]: v["t"] for v in a["v"]}
            back = {y: x for x, y in pair_up([n for n in known if n not in now], [n for n in now if n not in known],
                                             lambda n: tuple(known[n] if n in known else now[n]))}
            for v in a["v"]:
                v["n"] = back.get(v["n"], v["n"])
    todo = [m["bodies"]] if struct else []
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            if x.get("adt") in struct and "f" in x and "n" in x:
                x["n"] = struct[x["adt"]][x["f"]]
            todo += x.values()
        elif isinstance(x, list):
            todo += x


class Program:
    def __init__(self, path, anchors=None):
        m = json.load(open(path))
        self.m = m
        if anchors:
            canonical_names(m, anchors)
        self.types = m["types"]
        self.adts = m["adts"]
        self.bodies = {k: Body(k, b) for k, b in m["bodies"].items()}
        self.fns = m["fns"]
        Facts.ENUMS, Facts.VARIANTS = {}, {}
        for p, a in self.adts.items():
            if a["k"] == "enum":
                Facts.ENUMS[p] = tuple(v["d"] for v in a["v"])
                Facts.VARIANTS.update({(p, i): v["d"] for i, v in enumerate(a["v"])})
        self.by_short = {}
        self.renamed = {}
        self.adapt = {}
        self.unwrapped = set()
        for p, k in self.fns.items():
            b = self.bodies.get(k)
            if b is None:
                continue
            self.by_short.setdefault(self.short_of_body(b), []).append(k)

    def adt_last(self, tyname):
        t = self.types.get(tyname)
        seen = 0
        while t and t["k"] in ("ref", "ptr") and seen < 5:
            tyname = t["a"][0]
            t = self.types.get(tyname)
            seen += 1
        if t and t["k"] == "adt":
            return last(t["p"])
        return strip_generics(tyname).split("::")[-1]

    def short_of_body(self, b):
        j = b.j
        name = j.get("name") or last(j["p"])
        if "self" in j:
            a = self.adt_last(j["self"])
            if "trait" in j:
                return f"{a} as {last(strip_generics(j['trait']))}::{name}"
            return f"{a}::{name}"
        return name

    def fn(self, short):
        ks = self.by_short.get(short, [])
        if len(ks) == 1:
            return ks[0]
        return None

    def alias(self, actual, canon, key):
        self.by_short.setdefault(canon, []).append(key)
        self.renamed[key.split("[")[0]] = canon

    def short(self, f):
        """short callee name for a call descriptor"""
        s = f.get("_short")
        if s:
            return s
        s = self.renamed.get((f.get("key") or "").split("[")[0])
        if s:
            f["_short"] = s
            return s
        n = f["n"]
        if "trait" in f:
            s = f"{last(strip_generics(f['trait']))}::{n}"
        elif "self" in f:
            s = f"{self.adt_last(f['self'])}::{n}"
        else:
            p = strip_generics(f["p"])
            s = "::".join(p.split("::")[-2:])
            if f.get("local"):
                s = last(p)
        f["_short"] = s
        return s


# library functions that panic on some arguments
PARTIAL = set("slice slice_ref split_off split_to split_at split_at_mut remove swap_remove insert drain copy_from_slice clone_from_slice "
              "chunks chunks_exact windows step_by pow ilog ilog2 ilog10 rem_euclid div_euclid from_secs_f64 from_secs_f32 mul_f64 mul_f32 "
              "advance copy_to_bytes get_u8 get_u16 get_u32 get_u64 get_u128 gen_range block_on borrow borrow_mut mul add mul_assign "
              "add_assign range replace_range unwrap expect unwrap_err expect_err swap rotate_left rotate_right put_slice".split())


class Interp:
    def __init__(self, prog, atoms=(), hooks=None, budget=400000, log=None):
        self.p = prog
        self.atoms = set(atoms)
        self.hooks = hooks or {}
        self.frames = 0
        self.loopctr = 0
        self.recur = {}  # loop variable -> (value before, values after one iteration)
        self.loopseqs = set()
        self.panics = []  # (what, site, chain, facts, state)
        self.asserts = []
        self.spawned = []  # final states of spawned tasks
        self.steps = 0
        self.budget = budget
        self.opaque = {}
        self.fn_seen = {}
        self.noise_ret = set()
        self.depth = 0
        self.track_self = None
        self.collapse = {}  # short fn name -> predicate to merge exits
        self.unknown = {}
        self.indexes = []
        self.sums = []
        self.stream_pending = True
        from models import MODELS, model_for
        self.model_for = model_for

    # ------------------------------------------------------------ memory
    def get_base(self, st, base):
        v = st.env.get(base)
        if v is None:
            if base[0] == "D":
                return base[1]
            v = mk("undef", str(base))
        return v

    def field(self, v, variant, idx, name=None, nf=None, adt=None):
        if v.op == "agg":
            fs = v.a[3:]
            if variant is not None and v.a[1] != variant and v.a[0] not in ("tuple",):
                return mk("undef", "variant")
            if idx < len(fs):
                return fs[idx]
            return mk("undef", "field")
        if v.op in ("clo", "coro"):
            fs = v.a[1:]
            if idx < len(fs):
                return fs[idx]
        if v.op == "ctoragg":
            return v
        if name == "address" and adt and last(adt) == "AuthorityManage" and list_of_node(v):
            return mk("call", QUERY["address"], v)
        if v.op == "fld" and v.a[0].op == "call" and name in QC_ARGS:
            # a certificate is found under its own height, round, kind and block (C05)
            pos = QC_LAW.get(v.a[0].a[0])
            if pos and v.a[1] == pos[0] and name in pos[1] and pos[1][name] < len(v.a[0].a):
                return v.a[0].a[pos[1][name]]
        return mk("fld", v, variant, idx, name)

    def expand(self, v, el):
        """turn an opaque struct value into an aggregate so that a field can be updated"""
        if v.op in ("agg", "clo", "coro"):
            return v
        _, idx, name, nf, adt, variant = el
        if adt is not None:
            a = self.p.adts.get(adt)
            if a is not None:
                vi = variant if variant is not None else 0
                var = a["v"][vi]
                fs = [mk("fld", v, variant, i, n) for i, n in enumerate(var["f"])]
                return agg(adt, vi, var["n"], fs)
        if nf is not None:
            return tup(*[mk("fld", v, variant, i, None) for i in range(nf)])
        return None

    def read_path(self, st, base, path):
        v = self.get_base(st, base)
        for el in path:
            v = self.read_el(st, v, el)
        return v

    def read_el(self, st, v, el):
        k = el[0]
        if k == "f":
            return self.field(v, el[5], el[1], el[2], el[3], el[4])
        if k == "i":
            return AT(v, el[1])
        if k == "k":
            from models import mval
            return mval(self, st, v, el[1])
        if k == "sub":
            return mk("subslice", v, el[1], el[2])
        raise AssertionError(el)

    def set_path(self, v, path, nv, st=None):
        if not path:
            return nv
        el = path[0]
        if el[0] == "f":
            ev = self.expand(v, el)
            if ev is None:
                return mk("mut", "setfield", 0, v, nv)
            off = 3 if ev.op == "agg" else 1
            i = off + el[1]
            if i >= len(ev.a):
                return mk("mut", "setfield", 0, v, nv)
            sub = self.set_path(ev.a[i], path[1:], nv, st)
            a = list(ev.a)
            a[i] = sub
            return mk(ev.op, *a)
        if el[0] == "i":
            if len(path) > 1:
                nv = self.set_path(AT(v, el[1]), path[1:], nv, st)
            return mk("mut", "index_set", 0, v, el[1], nv)
        if el[0] == "k":
            key = el[1]
            if v.op == "mut" and v.a[0] == "insert" and v.a[3] is key:
                return mk("mut", "insert", 0, v.a[2], key, self.set_path(v.a[4], path[1:], nv, st))
            if st is not None:
                from models import put_entry
                r = put_entry(st, v, key, lambda old: self.set_path(old, path[1:], nv, st))
                if r is not None:
                    return r
            return mk("mut", "insert", 0, v, key, self.set_path(mk("fld", mk("get", v, key), 1, 0, "0"), path[1:], nv, st))
        return mk("mut", "set", 0, v, nv)

    def resolve(self, st, fr, place):
        """-> (base, path) after dereferencing"""
        base = (fr, place[0])
        path = ()
        variant = None
        for pr in place[1]:
            if pr == "*":
                v = self.read_path(st, base, path)
                variant = None
                if v.op == "ref":
                    base, path = v.a[0], v.a[1]
                elif v.op == "undef":
                    base, path = ("D", v), ()
                else:
                    base, path = ("D", v), ()
            elif "f" in pr:
                path = path + (("f", pr["f"], pr.get("n"), pr.get("nf"), pr.get("adt"), variant),)
                variant = None
            elif "v" in pr:
                variant = pr["v"]
            elif "i" in pr:
                iv = st.env.get((fr, pr["i"]), NOISE)
                path = path + (("i", iv),)
            elif "ci" in pr:
                path = path + (("i", INT(pr["ci"]) if not pr["fe"] else mk("fromend", INT(pr["ci"]))),)
            elif "sub" in pr:
                path = path + (("sub", INT(pr["sub"]), INT(pr["to"])),)
            else:
                path = path + (("f", 0, "?", None, None, None),)
        return base, path

    def read_place(self, st, fr, place):
        if not place[1]:
            v = st.env.get((fr, place[0]))
            return v if v is not None else mk("undef", "local")
        base, path = self.resolve(st, fr, place)
        return self.read_path(st, base, path)

    def write_base(self, st, base, path, v, site=""):
        if base[0] == "S":
            return
        if not path:
            st.env[base] = v
        else:
            old = self.get_base(st, base)
            st.env[base] = self.set_path(old, path, v, st)
        if base[0] == "H":
            ks = [i for i, e in enumerate(path) if e[0] == "k"]
            if ks:  # a write through an entry is a write of the map
                path = path[:ks[0]]
                v = self.read_path(st, base, path)
            st.emit(Ev("write", (v,), None, st.facts, site, st.env.get(base), (base[1],) + tuple(
                (e[2] or e[1]) if e[0] == "f" else e[0] for e in path), st.chain))

    def write_place(self, st, fr, place, v, site=""):
        if not place[1]:
            st.env[(fr, place[0])] = v
            return
        base, path = self.resolve(st, fr, place)
        self.write_base(st, base, path, v, site)

    def load(self, st, v):
        """value behind a reference (refs are transparent for opaque pointers)"""
        if v.op == "ref":
            return self.read_path(st, v.a[0], v.a[1])
        d = st.env.get(("D", v))
        return d if d is not None else v

    def deep(self, st, v, n=0):
        """replace refs by the values they point to, also inside aggregates"""
        if n > 6:
            return v
        if v.op == "ref":
            return self.deep(st, self.load(st, v), n + 1)
        if v.op in ("agg", "clo", "coro"):
            off = 3 if v.op == "agg" else 1
            na = tuple(self.deep(st, x, n + 1) if isinstance(x, T) else x for x in v.a[off:])
            if all(x is y for x, y in zip(na, v.a[off:])):
                return v
            return mk(v.op, *(v.a[:off] + na))
        d = st.env.get(("D", v))
        return d if d is not None else v

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        k = o[0]
        if k in ("c", "m"):
            return self.read_place(st, fr, o[1])
        if k == "k":
            return self.const(o[1])
        if k == "rc":
            return TRUE if "Overflow" in o[1] else FALSE
        return mk("undef", "op")

    def const(self, c):
        if "_t" in c:
            return c["_t"]
        if "int" in c:
            r = INT(int(c["int"]))
        elif "fn" in c:
            f = c["fn"]
            fid = json.dumps(f, sort_keys=True)
            r = mk("fn", fid)
            FNS[r] = f
        elif "str" in c:
            r = mk("str", c["str"])
        elif c.get("zst"):
            r = UNIT
        elif "ebits" in c:
            t = self.p.types.get(c["ty"])
            r = None
            if t and t["k"] == "adt":
                a = self.p.adts[t["p"]]
                for i, v in enumerate(a["v"]):
                    if v["d"] == int(c["ebits"]) and not v["f"]:
                        r = agg(t["p"], i, v["n"], ())
            if r is None:
                r = mk("const", c.get("named") or c.get("dbg"), c["ty"])
        else:
            r = mk("const", c.get("named") or c.get("dbg"), c["ty"])
        c["_t"] = r
        return r

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, body, r, site):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k == "ref":
            base, path = self.resolve(st, fr, r[2])
            if base[0] == "D" and not path and base not in st.env:
                return base[1]  # reborrow of an opaque pointer
            return mk("ref", base, path, "sh" if r[1] in ("sh", "fake") else "mut")
        if k == "bin":
            a, b = self.operand(st, fr, r[2]), self.operand(st, fr, r[3])
            return self.binop(r[1], a, b)
        if k == "un":
            a = self.operand(st, fr, r[2])
            if r[1] == "Not":
                return NOT(a)
            if r[1] == "PtrMetadata":
                import models
                return models.LEN(self.load(st, a))
            return mk("un", r[1], a)
        if k == "cast":
            a = self.operand(st, fr, r[2])
            if r[1].startswith("IntToInt"):
                if a.op == "int":
                    return INT(a.a[0] % (1 << BITS.get(r[3], 64)))
                if BITS.get(r[3], 64) >= BITS.get(r[4], 64) or r[4] == "bool":
                    return a  # widening
                if a.op == "discr" and all(0 <= x < 1 << BITS.get(r[3], 64) for x in Facts.ENUMS.get(a.a[1]) or (-1,)):
                    return a
                up = st.facts.bound(*[lin(a)[0] or ZERO, ZERO]) if a.op != "int" else None
                if up is not None and 0 <= up + lin(a)[1] < 1 << BITS.get(r[3], 64):
                    return a  # known to fit
                return mk("trunc", a, r[3])
            return a
        if k == "discr":
            v = self.read_place(st, fr, r[1])
            if v.op == "entry":
                from models import entry_discr
                return entry_discr(self, st, v, r[2])
            return self.discr(v, r[2])
        if k == "agg":
            kd = r[1]
            ops = [self.operand(st, fr, o) for o in r[2]]
            if kd["k"] == "tuple":
                return tup(*ops) if ops else UNIT
            if kd["k"] == "adt":
                return agg(kd["p"], kd["v"], kd["vn"], ops)
            if kd["k"] == "closure":
                return mk("clo", kd["key"], *ops)
            if kd["k"] == "coroutine":
                return mk("coro", kd["key"], *ops)
            if kd["k"] == "array":
                return agg("array", 0, "", ops)
            if kd["k"] == "rawptr":
                return ops[0]
            return mk("undef", "agg")
        if k == "repeat":
            return mk("repeat", self.operand(st, fr, r[1]), r[2])
        if k == "tls":
            return mk("const", r[1], "tls")
        return mk("undef", str(r)[:40])

    def discr(self, v, tyname):
        t = self.p.types.get(tyname)
        adt = t["p"] if t and t["k"] == "adt" else None
        if v.op == "agg":
            a = self.p.adts.get(v.a[0])
            if a:
                return INT(a["v"][v.a[1]]["d"])
            return INT(v.a[1])
        return mk("discr", v, adt)

    def binop(self, op, a, b):
        if op == "Eq":
            return EQ(a, b)
        if op == "Ne":
            return NOT(EQ(a, b))
        if op == "Lt":
            return LT(a, b)
        if op == "Le":
            return LE(a, b)
        if op == "Gt":
            return LT(b, a)
        if op == "Ge":
            return LE(b, a)
        if op in ("Add", "AddUnchecked"):
            return ADD(a, b)
        if op in ("Sub", "SubUnchecked"):
            return SUB(a, b)
        if op in ("Mul", "MulUnchecked"):
            return MUL(a, b)
        if op == "AddWithOverflow":
            return tup(ADD(a, b), small(mk("ovf", "Add", a, b)))
        if op == "SubWithOverflow":
            return tup(SUB(a, b), small(mk("ovf", "Sub", a, b)))
        if op == "MulWithOverflow":
            return tup(MUL(a, b), small(mk("ovf", "Mul", a, b)))
        if op == "Cmp":
            return mk("cmp", a, b)
        if op == "BitAnd":
            if a is FALSE or b is FALSE:
                return FALSE
            if a is TRUE:
                return b
            if b is TRUE:
                return a
            return mk("and", *sorted((a, b), key=lambda x: x.uid))
        if op == "BitOr":
            if a is TRUE or b is TRUE:
                return TRUE
            if a is FALSE:
                return b
            if b is FALSE:
                return a
            return mk("or", *sorted((a, b), key=lambda x: x.uid))
        if op == "BitXor":
            return NOT(EQ(a, b))
        if op in ("Shl", "ShlUnchecked") and a is INT(1):
            return INT(1 << b.a[0]) if b.op == "int" and b.a[0] < 64 else mk("call", "u32]::pow", INT(2), b)
        if op in ("Rem", "Div") and a.op == "int" and b.op == "int" and b.a[0]:
            return INT(a.a[0] % b.a[0]) if op == "Rem" else INT(a.a[0] // b.a[0])
        return mk("bin", op, a, b)

    # ------------------------------------------------------------ execution
    def call_key(self, key, args, st, site=""):
        """execute a body; returns list of (state, ret)"""
        body = self.p.bodies[key]
        self.fn_seen[key] = self.fn_seen.get(key, 0) + 1
        if self.depth > 60:
            raise Budget("depth")
        self.frames += 1
        fr = self.frames
        for i, a in enumerate(args):
            st.env[(fr, i + 1)] = a
        oldchain = st.chain
        st.chain = oldchain + ((body.path, site),)
        self.depth += 1
        rets, exits, backs = self.region(body, fr, 0, st, None, None)
        self.depth -= 1
        out = []
        for s in rets:
            r = s.env.get((fr, 0), UNIT)
            if r.op == "undef":
                r = UNIT
            keep = self.refs_to(r, fr)
            env = {k: v for k, v in s.env.items() if k[0] != fr or k in keep}
            s.env = env
            s.chain = oldchain
            out.append((s, r))
        cf = self.collapse.get(self.p.short_of_body(body)) or self.collapse.get("*")
        if cf and len(out) > 1:
            out = self.merge(out, cf)
        return out

    def refs_to(self, r, fr):
        keep = set()
        for x in subterms(r):
            if x.op == "ref" and x.a[0][0] == fr:
                keep.add(x.a[0])
        return keep

    def merge(self, out, cf):
        groups = {}
        order = []
        for s, r in out:
            r2 = cf(r)
            k = (r2, s.trace, tuple(sorted(((str(a), v.uid) for a, v in s.env.items()))))
            if k in groups:
                g = groups[k]
                g[0].facts = intersect(g[0].facts, s.facts)
            else:
                groups[k] = (s, r2)
                order.append(k)
        return [groups[k] for k in order]

    def region(self, body, fr, start, st, nodes, head):
        """run from `start`; leave the region when control goes outside `nodes` or to `head`"""
        rets, exits, backs = [], [], []
        work = [(start, st, True)]
        while work:
            b, s, fresh = work.pop()
            if not fresh and head is not None and b == head:
                backs.append(s)
                continue
            if nodes is not None and b not in nodes:
                exits.append((b, s))
                continue
            if b in body.loops and not (head == b and fresh):
                r2, e2 = self.loop(body, fr, b, s)
                rets.extend(r2)
                for tgt, s2 in e2:
                    work.append((tgt, s2, False))
                continue
            for tgt, s2 in self.block(body, fr, b, s):
                if tgt is None:
                    rets.append(s2)
                else:
                    work.append((tgt, s2, False))
        return rets, exits, backs

    def loop(self, body, fr, h, st):
        nodes = body.loops[h]
        entry = st.copy()
        rets, exits, backs = self.region(body, fr, h, st.copy(), nodes, h)
        if not backs:
            return rets, exits
        self.loopctr += 1
        lid = self.loopctr
        hv = {}
        cur = entry
        for it in range(6):
            new = {}
            for bs in backs:
                for base, v in cur.env.items():
                    v2 = bs.env.get(base)
                    if v2 is None or v2 is v:
                        continue
                    self.diffv(cur, v, v2, base, (), new)
                for base, v2 in bs.env.items():
                    if base[0] == "D" and base not in cur.env and not contains(
                            base[1], lambda x: x.op in ("idx", "next")):
                        new[(base, ())] = v2
            new = {k: v for k, v in new.items() if k not in hv}
            if not new:
                break
            hv.update(new)
            cur = entry.copy()
            for (base, path) in hv:
                phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
                old = self.get_base(cur, base)
                cur.env[base] = self.set_path(old, path, phi, cur)
            marker = Ev("loop", (), None, cur.facts, body.blocks[h]["sp"], None, [], st.chain)
            cur.trace = (entry.trace, marker)
            start_trace = cur.trace
            start_log = cur.facts.log
            rets, exits, backs = self.region(body, fr, h, cur.copy(), nodes, h)
        else:
            raise Budget("loop widening did not converge")
        if not hv:
            # body repeats without changing anything: record iterations
            marker = Ev("loop", (), None, entry.facts, body.blocks[h]["sp"], None, [], st.chain)
            cur = entry.copy()
            cur.trace = (entry.trace, marker)
            start_trace = cur.trace
            start_log = cur.facts.log
            rets, exits, backs = self.region(body, fr, h, cur.copy(), nodes, h)
        marker.x = [(bs.events(start_trace), bs.facts) for bs in backs]
        # recurrences
        for (base, path) in hv:
            phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
            self.recur[phi] = (self.read_path_pure(entry, base, path),
                               [(self.read_path_pure(bs, base, path), bs.facts.literals(start_log)) for bs in backs])
        folds = {}
        seqs = set()
        for bs in backs:
            for l, v in bs.facts.literals(start_log):
                s = next_lit(l, v)
                if s is not None and v:
                    seqs.add(s)
        if len(seqs) == 1:
            seq = next(iter(seqs))
            for (base, path) in hv:
                phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
                init = self.read_path_pure(entry, base, path)
                vals = [(self.read_path_pure(bs, base, path),
                         [l for l in bs.facts.literals(start_log) if next_lit(l[0], True) is None and next_lit(l[0], False) is None])
                        for bs in backs]
                fname, steps = steps_of(vals, phi)
                if fname:
                    folds[phi] = mkfold(fname, seq.a[0], init, [mkcase(tup(*a) if len(a) != 1 else a[0], l) for a, l in steps])
                elif seq.a[0].op == "range" and seq.a[0].a[0] is INT(0) and len(seq.a) == 2 and len(seq.a[1].a) == 1 and \
                        all(v is MUL(phi, INT(2)) or v is ADD(phi, phi) for v, _ in vals):  # doubled n times
                    folds[phi] = MUL(init, mk("call", "u32]::pow", INT(2), seq.a[0].a[1]))
        elif not seqs:
            src, lit, ctr = self.counted(hv, lid, entry, backs, start_log)
            if src is not None:
                m = {ctr: mk("idx", src)}
                for (base, path) in hv:
                    phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
                    if phi is ctr:
                        continue
                    vals = [(self.read_path_pure(bs, base, path),
                             [l for l in bs.facts.literals(start_log) if l[0] is not lit and l[0].op != "ovf"])
                            for bs in backs]
                    fname, steps = steps_of(vals, phi)
                    if fname:
                        folds[phi] = mkfold(fname, src, self.read_path_pure(entry, base, path),
                                            [mkcase(subst(tup(*a) if len(a) != 1 else a[0], m),
                                                    [(subst(t, m), v) for t, v in l]) for a, l in steps])
                for s in [s for _, s in exits] + rets:
                    if any(l is lit and not v for l, v in s.facts.literals(start_log)):
                        memo = {}
                        for k, v in list(s.env.items()):
                            s.env[k] = subst(v, folds, memo)
                folds = {}
        if len(seqs) == 1:
            self.loopseqs.add(seq)
            self.last_match(exits, seq, lid, hv, entry, backs, folds, start_log)
            self.early_exits(exits, rets, seq, lid, start_log)
        if folds:
            for tgt, s in exits:
                self.subst_exit(s, folds, start_log)
            for s in rets:
                self.subst_exit(s, folds, start_log)
        return rets, exits

    def last_match(self, exits, seq, lid, hv, entry, backs, folds, start_log):
        """variables overwritten in some iterations with values of the current element alone hold, after the loop, those
        of the last such element: the first one from the end"""
        phis = {}
        for (base, path) in hv:
            phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
            if phi not in folds:
                phis[phi] = (base, path)
        if not phis:
            return

        def own(t):
            return not contains(t, lambda x: x.op == "phi" and x.a[0] == lid or x.op in ("next", "find"))

        cases = []
        for bs in backs:
            vals = {p: self.read_path_pure(bs, *bp) for p, bp in phis.items()}
            if all(v is p for p, v in vals.items()):
                continue
            lits = [(l, v) for l, v in bs.facts.literals(start_log)
                    if next_lit(l, True) is None and next_lit(l, False) is None and l.op != "ovf"]
            if any(v is p for p, v in vals.items()) or not all(own(v) for v in vals.values()) or \
                    not all(own(l) for l, _ in lits):
                return
            cases.append((vals, lits))
        if not cases:
            return
        src = seq.a[0]
        back = src.a[0] if src.op == "rev" else mk("rev", src)
        m = {mk("idx", src): mk("idx", back)}
        some_ = mkany(src, [mkcase(TRUE, l) for _, l in cases])
        res = []
        for tgt, s in exits:
            if not any(next_lit(l, False) is seq and not v for l, v in s.facts.literals(start_log)):
                res.append((tgt, s))
                continue
            g = s.facts.assume(some_, False)
            if g is not None:
                s2 = s.copy()
                s2.facts = g
                res.append((tgt, self.replaced(s2, {p: self.read_path_pure(entry, *bp) for p, bp in phis.items()})))
            g = s.facts.assume(some_, True)
            for vals, lits in cases:
                h = g.forget(mk("idx", back)) if g is not None else None
                for l, v in lits:
                    h = h.assume(subst(l, m), v) if h is not None else None
                if h is not None:
                    s2 = s.copy()
                    s2.facts = h
                    res.append((tgt, self.replaced(s2, {p: subst(v, m) for p, v in vals.items()})))
        exits[:] = res

    def replaced(self, s, m):
        memo = {}
        for k, v in list(s.env.items()):
            s.env[k] = subst(v, m, memo)
        return s

    def early_exits(self, exits, rets, seq, lid, start_log):
        """a loop is left early exactly when some element satisfies the condition of an exit"""
        cases, early, ended = [], [], []
        for s in [s for _, s in exits] + rets:
            lits = s.facts.literals(start_log)
            if any(next_lit(l, False) is seq and not v for l, v in lits):
                ended.append(s)
                continue
            early.append(s)
            ls = self.without_inner([(l, v) for l, v in lits if next_lit(l, True) is not seq and l.op != "ovf"])
            if not any(v and next_lit(l, True) is seq for l, v in lits) or any(
                    contains(l, lambda x: x.op == "phi" and x.a[0] == lid or x.op in ("next", "find")) for l, v in ls):
                return
            cases.append(mkcase(TRUE, ls))
        if not early:
            return
        t = mkany(seq.a[0], cases)
        dead = []
        for s in early + ended:
            f = s.facts.assume(t, s not in ended)
            if f is None:
                dead.append(s)
            else:
                s.facts = f
        exits[:] = [(b, s) for b, s in exits if s not in dead]
        rets[:] = [s for s in rets if s not in dead]

    def without_inner(self, lits):
        """the literals of one iteration without those of its inner loops: an inner loop that ran to its end says so by
        the literal that none of its elements satisfies the condition of an exit; one that was left early by its only
        exit is described by the literal that some element satisfies it"""
        out, drop = [], []
        for l, v in lits:
            s = next_lit(l, v)
            if s is None or s not in self.loopseqs:
                out.append((l, v))
            elif v:
                drop.append(s)
        for s in drop:
            if not any(v and l.op == "any" and l.a[0] is s.a[0] and len(l.a) == 2 for l, v in out):
                return lits
            idx = mk("idx", s.a[0])
            out = [(l, v) for l, v in out if l.op == "any" and l.a[0] is s.a[0] or not contains(l, lambda x: x is idx)]
        return out

    def counted(self, hv, lid, entry, backs, start_log):
        """while i < c.len() with i counting from 0: (c, that literal, i)"""
        for (base, path) in hv:
            phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
            init = self.read_path_pure(entry, base, path)
            if init is not INT(0) or any(self.read_path_pure(bs, base, path) is not ADD(phi, INT(1)) for bs in backs):
                continue
            for l, v in backs[0].facts.literals(start_log):
                if v and l.op == "lt" and l.a[0] is phi and listlen(l.a[1]) is not None and \
                        not contains(l.a[1], lambda x: x.op == "phi" and x.a[0] == lid) and \
                        all((l, v) in [(x, y) for x, y in bs.facts.literals(start_log)] for bs in backs):
                    src = listlen(l.a[1])
                    own = {x.a[0] for bs in backs for b2, p2 in hv for x in subterms(self.read_path_pure(bs, b2, p2))
                           if x.op == "at" and x.a[1] is phi}
                    if len(own) == 1 and next(iter(own)).op == "sorted" and next(iter(own)).a[0] is src:
                        src = next(iter(own))
                    return src, l, phi
        return None, None, None

    def subst_exit(self, s, folds, start_log):
        ended = any(next_lit(l, False) is not None and not v or (next_lit(l, True) is not None and not v)
                    for l, v in s.facts.literals(start_log))
        if not ended:
            return
        memo = {}
        for k, v in list(s.env.items()):
            s.env[k] = subst(v, folds, memo)

    def read_path_pure(self, st, base, path):
        v = st.env.get(base)
        if v is None:
            v = base[1] if base[0] == "D" else mk("undef", "x")
        for el in path:
            v = self.read_el(st, v, el)
        return v

    def diffv(self, st, a, b, base, path, out, d=0):
        if a is b:
            return
        if d < 6 and b.op == "agg" and (a.op == "agg" and a.a[:3] == b.a[:3] or a.op != "agg") and len(b.a) > 3 and b.a[0] != "array":
            ad = self.p.adts.get(b.a[0])
            is_enum = ad is not None and ad["k"] == "enum"
            if b.a[0] == "tuple" or ad is not None:
                if not (is_enum and a.op != "agg"):
                    names = ad["v"][b.a[1]]["f"] if ad else [None] * (len(b.a) - 3)
                    variant = b.a[1] if is_enum else None
                    nf = len(b.a) - 3
                    for i in range(nf):
                        av = self.field(a, variant, i, names[i])
                        el = ("f", i, names[i], nf, b.a[0] if ad else None, variant)
                        self.diffv(st, av, b.a[3 + i], base, path + (el,), out, d + 1)
                    return
        out[(base, path)] = b

    def block(self, body, fr, b, st):
        """execute one block; returns list of (target|None for return, state)"""
        self.steps += 1
        if self.steps > self.budget:
            raise Budget("step budget")
        blk = body.blocks[b]
        for s in blk["s"]:
            if s[0] == "=":
                v = self.rvalue(st, fr, body, s[2], s[3])
                self.write_place(st, fr, s[1], v, s[3])
            elif s[0] == "sd":
                base, path = self.resolve(st, fr, s[1])
                old = self.read_path(st, base, path)
                if old.op == "agg":
                    self.write_base(st, base, path, mk("agg", old.a[0], s[2], old.a[2], *old.a[3:]))
        t = blk["t"]
        site = blk["sp"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "return":
            return [(None, st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "switch":
            return self.switch(st, fr, t, site)
        if k == "call":
            return self.call(body, fr, st, t, site)
        if k == "assert":
            c = self.operand(st, fr, t[1])
            q = st.facts.query(c)
            want = t[2]
            if q is None or q != want:
                self.asserts.append((t[3], c, site, st.chain, st.facts, st))
                if q is not None:
                    return []
                if c.op != "ovf":
                    f = st.facts.assume(c, want)
                    if f is None:
                        return []
                    st.facts = f
            return [(t[4], st)]
        if k == "yield":
            return []
        if k in ("unreachable", "resume", "codrop"):
            return []
        self.unknown[k] = self.unknown.get(k, 0) + 1
        return []

    def switch(self, st, fr, t, site):
        d = self.operand(st, fr, t[1])
        targets = t[2]
        other = t[3]
        isbool = t[4] == "bool"
        if d.op == "int":
            for v, tgt in targets:
                if int(v) == d.a[0]:
                    return [(tgt, st)]
            return [(other, st)]
        forced = self.forced(d, st)
        if forced is not None:
            for v, tgt in targets:
                if int(v) == forced:
                    return [(tgt, st)]
            return [(other, st)]
        if isbool:
            # targets: 0 -> false
            res = []
            ft = dict((int(v), tgt) for v, tgt in targets)
            for val in (0, 1):
                tgt = ft.get(val, other)
                f = st.facts.assume(d, bool(val))
                if f is None:
                    continue
                res.append((tgt, f))
            return self.fork(st, res)
        res = []
        if d.op == "discr" and d.a[0].op == "cmp":
            a, b = d.a[0].a
            listed = []
            for v, tgt in targets:
                iv = int(v)
                iv = -1 if iv in (255, (1 << 64) - 1, (1 << 128) - 1) else iv
                listed.append(iv)
                f = st.facts.assume({-1: LT(a, b), 0: EQ(a, b), 1: LT(b, a)}[iv], True)
                if f is not None:
                    res.append((tgt, f))
            for iv in (-1, 0, 1):
                if iv not in listed:
                    f = st.facts.assume({-1: LT(a, b), 0: EQ(a, b), 1: LT(b, a)}[iv], True)
                    if f is not None:
                        res.append((other, f))
            return self.fork(st, res)
        fo = st.facts
        for v, tgt in targets:
            f = st.facts.assume(EQ(d, INT(int(v))), True)
            if f is not None:
                res.append((tgt, f))
            if fo is not None:
                fo = fo.assume(EQ(d, INT(int(v))), False)
        if fo is not None:
            ok_ = True
            if d.op == "discr":
                p = fo.possible(d)
                if p is not None:
                    listed = {int(v) for v, _ in targets}
                    if not [x for x in p if x not in listed]:
                        ok_ = False
            if ok_:
                res.append((other, fo))
        return self.fork(st, res)

    def fork(self, st, res):
        out = []
        n = len(res)
        for i, (tgt, f) in enumerate(res):
            s = st if i == n - 1 else st.copy()
            s.facts = f
            out.append((tgt, s))
        return out

    def forced(self, d, st):
        """branches that only concern logging: pick 'enabled'"""
        x = d
        neg = False
        while x.op == "not":
            x = x.a[0]
            neg = not neg
        if x.op in ("call", "lt", "eq") and contains(x, is_log_level):
            # `lt` literals come from `level <= max_level` i.e. !(max < level)
            return (1 if x.op == "lt" and not is_log_level_lhs(x) else 0) if neg else \
                (0 if x.op == "lt" and not is_log_level_lhs(x) else 1)
        return None

    # ------------------------------------------------------------ calls
    def call(self, body, fr, st, t, site):
        fo = t[1]
        args = [self.operand(st, fr, o) for o in t[2]]
        dest, target, rty = t[3], t[4], t[5]
        if fo[0] == "k" and "fn" in fo[1]:
            f = fo[1]["fn"]
            outs = self.invoke(f, args, st, site, rty)
        else:
            fv = self.operand(st, fr, fo)
            outs = self.apply(fv, args, st, site, rty)
        res = []
        for s, r in outs:
            if r is DIVERGE or target is None:
                continue
            self.write_place(s, fr, dest, r, site)
            res.append((target, s))
        return res

    def apply(self, fv, args, st, site, rty="?"):
        """apply a function value to (untupled) args"""
        if fv.op == "ref":
            inner = self.load(st, fv)
            while inner.op == "ref":
                fv, inner = inner, self.load(st, inner)
            if inner.op in ("clo", "fn"):
                if inner.op == "clo":
                    return self.apply_clo(inner, fv, args, st, site)
                fv = inner
        if fv.op == "clo":
            return self.apply_clo(fv, None, args, st, site)
        if fv.op == "fn":
            return self.invoke(FNS[fv], args, st, site, rty)
        return [(st, mk("call", "apply", fv, *[self.deep(st, a) for a in args]))]

    def apply_clo(self, clo, ref, args, st, site):
        key = clo.a[0]
        b = self.p.bodies.get(key)
        if b is None:
            return [(st, mk("call", "closure:" + key, *[self.deep(st, a) for a in args]))]
        l1 = self.p.types.get(b.locals[1][0], {})
        if l1.get("k") == "ref":
            if ref is None:
                self.frames += 1
                base = (self.frames, 0)
                st.env[base] = clo
                ref = mk("ref", base, (), "mut")
            return self.call_key(key, [ref] + list(args), st, site)
        return self.call_key(key, [clo] + list(args), st, site)

    def poll(self, fut, st, site):
        """run a future value to completion; returns list of (state, output)"""
        f = fut
        n = 0
        while f.op == "ref" and n < 4:
            f = self.load(st, f)
            n += 1
        if f.op == "coro":
            key = f.a[0]
            if key in self.p.bodies:
                return self.call_key(key, [f, NOISE], st, site)
        if f.op == "agg":
            k = self.impl_of("Future::poll", f)
            if k:
                self.frames += 1
                base = (self.frames, 0)
                st.env[base] = f
                outs = self.call_key(k, [mk("ref", base, (), "mut"), NOISE], st, site)
                return [(s, r.a[3]) for s, r in outs if r.op == "agg" and r.a[1] == 0 and len(r.a) > 3]
        h = self.hooks.get("poll")
        if h:
            r = h(self, f, st, site)
            if r is not None:
                return r
        if f.op in ("call", "ucall"):
            res = mk("res", f)
            st.emit(Ev(f.a[0], f.a[1:], res, st.facts, site, self.selfv(st), None, st.chain))
            return [(st, res)]
        return [(st, mk("res", f))]

    def selfv(self, st):
        return st.env.get(("H", "self"))

    def argty(self, f):
        return self.p.adt_last(f.get("rself") or f.get("self") or "")

    def strip_refs(self, t):
        n = 0
        while n < 5:
            n += 1
            ty = self.p.types.get(t)
            if ty and ty["k"] in ("ref", "ptr"):
                t = ty["a"][0]
            else:
                break
        return t

    def derived_eq(self, key, f):
        """PartialEq impl coming from #[derive] (its body span is a macro expansion)"""
        b = self.p.bodies[key]
        return bool(b.j.get("exp")) or not b.j["local"]

    def impl_of(self, method, v):
        """local trait impl for the type of an aggregate value"""
        if v.op != "agg":
            return None
        tr, n = method.split("::")
        return self.p.fn(f"{last(v.a[0])} as {tr}::{n}")

    def iterate(self, seq, fn, st, init, site, tryit=False):
        """for_each / fold: widen over the state changed by the callback"""
        entry = st.copy()
        self.loopctr += 1
        lid = self.loopctr
        accphi = mk("phi", lid, "acc", ()) if init is not None else None
        hv = {}
        backs = []
        early = []

        def once(cur):
            outs = []
            for c in seq.a[1:]:
                s = cur.copy()
                s.facts = s.facts.forget(mk("idx", seq.a[0]))
                okk = True
                for l in c.a[1:]:
                    g = s.facts.assume(l.a[0], bool(l.a[1]))
                    if g is None:
                        okk = False
                        break
                    s.facts = g
                if okk:
                    outs.extend(fn(s, c.a[0], accphi))
            return outs

        cur = entry.copy()
        start_log = cur.facts.log
        start_trace = cur.trace
        for it in range(6):
            cur = entry.copy()
            for (base, path) in hv:
                phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
                cur.env[base] = self.set_path(self.get_base(cur, base), path, phi, cur)
            marker = Ev("loop", (), None, cur.facts, site, None, [], st.chain)
            cur.trace = (entry.trace, marker)
            start_trace = cur.trace
            backs, early = [], []
            for s, r in once(cur):
                if tryit:
                    if r.op == "agg" and r.a[0] == RESULT:
                        if r.a[1] == 1:
                            early.append((s, r))
                            continue
                        r = r.a[3]
                    else:
                        g = s.facts.assume(EQ(mk("discr", r, RESULT), INT(1)), True)
                        if g is not None:
                            s2 = s.copy()
                            s2.facts = g
                            early.append((s2, err(self.field(r, 1, 0, "0"))))
                        g = s.facts.assume(EQ(mk("discr", r, RESULT), INT(1)), False)
                        if g is None:
                            continue
                        s.facts = g
                        r = self.field(r, 0, 0, "0")
                backs.append((s, r))
            new = {}
            for bs, _ in backs:
                for base, v in cur.env.items():
                    v2 = bs.env.get(base)
                    if v2 is None or v2 is v:
                        continue
                    self.diffv(cur, v, v2, base, (), new)
            new = {k: v for k, v in new.items() if k not in hv}
            if not new:
                break
            hv.update(new)
        else:
            raise Budget("iterate did not converge")
        marker.x = [(bs.events(start_trace), bs.facts) for bs, _ in backs]
        dead = False
        if tryit and early:
            cs = []
            for bs, _ in early:
                ls = [l for l in bs.facts.literals(start_log) if l[0].op != "ovf"]
                if any(contains(l, lambda x: x.op == "phi" and x.a[0] == lid or x.op in ("next", "find")) for l, _ in ls):
                    cs = None
                    break
                cs.append(mkcase(TRUE, ls))
            if cs:
                t = mkany(seq.a[0], cs)
                early = [(bs, r) for bs, r in early if bs.facts.assume(t, True) is not None]
                for bs, _ in early:
                    bs.facts = bs.facts.assume(t, True)
                never = cur.facts.assume(t, False)
                if never is not None:
                    cur.facts = never
                dead = never is None
        for (base, path) in hv:
            phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
            self.recur[phi] = (self.read_path_pure(entry, base, path),
                               [(self.read_path_pure(bs, base, path), bs.facts.literals(start_log)) for bs, _ in backs])
        folds = {}

        def rec(phi, init_v, vals):
            fname, steps = steps_of(vals, phi)
            if fname:
                folds[phi] = mkfold(fname, seq.a[0], init_v, [mkcase(tup(*a) if len(a) != 1 else a[0], l) for a, l in steps])

        def lits_of(bs):
            return [l for l in bs.facts.literals(start_log) if l[0].op != "ovf"]

        for (base, path) in hv:
            phi = mk("phi", lid, str(base), tuple((e[2] or e[1]) if e[0] == "f" else "i" for e in path))
            rec(phi, self.read_path_pure(entry, base, path),
                [(self.read_path_pure(bs, base, path), lits_of(bs)) for bs, _ in backs])
        if accphi is not None:
            rec(accphi, init, [(self.deep(bs, r), lits_of(bs)) for bs, r in backs])
        memo = {}
        for k, v in list(cur.env.items()):
            cur.env[k] = subst(v, folds, memo)
        out = []
        res = UNIT
        if accphi is not None:
            res = folds.get(accphi, accphi)
        if tryit:
            res = ok(res)
            out.extend(early)
        if not dead:
            out.append((cur, res))
        return out

    def invoke(self, f, args, st, site, rty="?"):
        if "ctor" in f:
            adt, vi = f["ctor"]
            vn = self.p.adts[adt]["v"][vi]["n"]
            return [(st, agg(adt, vi, vn, args))]
        short = self.p.short(f)
        h = self.hooks.get(short)
        if self.p.adapt and (h is not None or short in self.atoms):
            args = self.canon_args(f.get("key"), args, st)
        if h is not None:
            r = h(self, f, args, st, site, rty)
            if r is not None:
                if self.p.unwrapped and (f.get("key") or "").split("[")[0] in self.p.unwrapped:
                    r = [(s, self.field(v, 1, 0, "0", 1, OPTION)) for s, v in r]
                return r
        m = self.model_for(self, f, short)
        if m is not None:
            r = m(self, f, args, st, site, rty)
            if r is not None:
                return r
        key = f.get("key")
        if key in self.p.bodies and short not in self.atoms:
            b = self.p.bodies[key]
            if b.kind == "closure" and "trait" in f and len(args) == 2:
                a = args[1]
                cargs = list(a.a[3:]) if a.op == "agg" else [a]
                return self.apply(args[0], cargs, st, site, rty)
            if b.kind == "coroutine":
                return [(s, ready(r)) for s, r in self.poll(args[0], st, site)]
            return self.call_key(key, args, st, site)
        # dynamic dispatch on values
        return self.opaque_call(f, short, args, st, site, rty)

    def opaque_call(self, f, short, args, st, site, rty="?", name=None, uid=False):
        name = name or short
        self.opaque[name] = self.opaque.get(name, 0) + 1
        vals = [self.deep(st, a) for a in args]
        if name.split("::")[-1] in PARTIAL and not f.get("local"):
            self.indexes.append((name, tuple(vals), site, st.chain, st.facts))
        if uid:
            st.ctr += 1
            res = mk("ucall", name, *vals, mk("u", st.ctr))
        else:
            res = mk("call", name, *vals)
        muts = [i for i, a in enumerate(args) if a.op == "ref" and a.a[2] == "mut"]
        first_opaque_mut = False
        if muts:
            if name in EVENT_CALLS:
                st.emit(Ev(name, tuple(vals), res, st.facts, site, self.selfv(st), None, st.chain))
            for i in muts:
                base, path = args[i].a[0], args[i].a[1]
                nv = mk("mut", name, i, *vals)
                if base[0] == "H" or base[0] == "D":
                    st.emit(Ev("&mut " + name, tuple(vals), res, st.facts, site, self.selfv(st), (args[i], rty), st.chain))
                if base[0] != "S":
                    if not path:
                        st.env[base] = nv
                    else:
                        st.env[base] = self.set_path(self.get_base(st, base), path, nv, st)
        elif args and name.split("::")[-1] in MUT_METHODS and args[0].op not in ("ref",):
            # method on an opaque pointer to a collection
            st.emit(Ev("&mut " + name, tuple(vals), res, st.facts, site, self.selfv(st), (args[0], rty), st.chain))
            nv = mk("mut", name, 0, *vals)
            st.env[("D", args[0])] = nv
        elif "trait" in f and last(strip_generics(f["trait"])) in ("Crypto", "Consensus", "Wal", "Codec"):
            st.emit(Ev(name, tuple(vals), res, st.facts, site, self.selfv(st), None, st.chain))
        elif name in EVENT_CALLS:
            st.emit(Ev(name, tuple(vals), res, st.facts, site, self.selfv(st), None, st.chain))
        return [(st, res)]

    def panic(self, what, st, site):
        self.panics.append((what, site, st.chain, st.facts, st))
        return []

    # ------------------------------------------------------------ roots
    def canon_args(self, key, args, st):
        """arguments of a call of an anchored function, in the order the rules know"""
        ad = self.p.adapt.get((key or "").split("[")[0])
        if ad is None:
            return args
        out = []
        for sp in ad[0]:
            if sp is None:
                out.append(mk("missing", key))
            elif isinstance(sp, int):
                out.append(args[sp])
            else:
                v = self.deep(st, args[sp[0]])
                for owner, name in sp[1]:
                    q = next((x for x in self.p.adts if last(x) == owner), None)
                    fs = self.p.adts[q]["v"][0]["f"] if q else ()
                    if name not in fs:
                        raise KeyError(f"field {owner}.{name}")
                    i = fs.index(name)
                    v = v.a[3 + i] if v.op == "agg" else self.field(v, None, i, name, len(fs), q)
                out.append(v)
        return out

    def actual_args(self, key, args):
        ad = self.p.adapt.get((key or "").split("[")[0])
        if ad is None:
            return args
        out = [mk("sym", "x." + n) for n in ad[1]]
        for a, sp in zip(args, ad[0]):
            if isinstance(sp, int):
                out[sp] = a
        return out

    def root(self, key, args, st=None):
        st = st or St()
        args = self.actual_args(key, args)
        outs = self.call_key(key, args, st)
        res = []
        for s, r in outs:
            if r.op == "coro":
                res.extend(self.poll(r, s, ""))
            else:
                res.append((s, r))
        if key.split("[")[0] in self.p.unwrapped:
            res = [(s, NONE if r is EMPTYC else some(r)) for s, r in res]
        return res


def is_log_level(x):
    if x.op == "agg":
        return x.a[0].startswith("log::")
    if x.op in ("call", "const", "ucall"):
        return "max_level" in str(x.a[0]) or "MAX_LEVEL" in str(x.a[0]) or "STATIC_MAX" in str(x.a[0])
    return False


def is_log_level_lhs(x):
    """the compared message level (log::Level) is on the left"""
    return contains(x.a[0], lambda y: y.op == "agg" and y.a[0].endswith("Level"))


MUT_METHODS = {"insert", "push", "remove", "clear", "entry", "append", "extend", "retain", "sort", "set", "insert_vote", "set_qc", "truncate", "pop", "drain", "get_or_insert_with"}
QC_ARGS = ("height", "round", "vote_type", "block_hash")
QC_LAW = {"VoteCollector::get_qc_by_id": (0, {"height": 2, "round": 3, "vote_type": 4}),
          "VoteCollector::get_qc_by_hash": (1, {"height": 2, "block_hash": 3, "vote_type": 4})}
EVENT_CALLS = {"UnboundedSender::unbounded_send", "time::sleep", "Sink::start_send", "UnboundedSender::start_send",
               "SinkExt::start_send_unpin"}
BITS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64, "u128": 128, "i8": 8, "i16": 16, "i32": 32, "i64": 64, "isize": 64, "bool": 1, "i128": 128}
FNS = {}
DIVERGE = mk("diverge")


def AT(v, i):
    if v.op == "agg" and v.a[0] == "array" and i.op == "int" and i.a[0] < len(v.a) - 3:
        return v.a[3 + i.a[0]]
    if v.op == "fold" and v.a[0] == "push" and v.a[2] is EMPTYC and len(v.a) == 4 and len(v.a[3].a) == 1:
        return subst(v.a[3].a[0], {mk("idx", v.a[1]): i})
    return mk("at", v, i)


def next_lit(l, val):
    """if literal says next(seq) is Some (val True) / None return seq"""
    if l.op == "eq":
        a, b = l.a
        if a.op == "int":
            a, b = b, a
        if a.op == "discr" and a.a[0].op == "next" and b.op == "int":
            some_ = (b.a[0] == 1) == bool(val)
            if val is True and some_:
                return a.a[0].a[0]
            if val is False and not some_:
                return a.a[0].a[0]
    return None


def mkcase(elem, lits):
    lits = [(l.a[0], not v) if l.op == "not" else (l, v) for l, v in lits]
    return mk("case", elem, *[mk("lit", t, 1 if v else 0) for t, v in sorted(set(lits), key=lambda x: (x[0].uid, x[1]))])


def mkany(src, cases):
    """some element of src satisfies one of the cases"""
    out = []
    for c in cases:
        lits = [(l.a[0], bool(l.a[1])) for l in c.a[1:]]
        t, v = c.a[0], True
        while t.op == "not":
            t, v = t.a[0], not v
        if t is (TRUE if v else FALSE):
            pass
        elif t is (FALSE if v else TRUE):
            continue
        elif (t.op == "and" and v) or (t.op == "or" and not v):
            lits += [(x.a[0], not v) if x.op == "not" else (x, v) for x in t.a]
        else:
            lits.append((t, v))
        out.append(mkcase(TRUE, lits))
    if not out:
        return FALSE
    while src.op == "rev":  # order does not matter
        m = {mk("idx", src): mk("idx", src.a[0])}
        out = [subst(c, m) for c in out]
        src = src.a[0]
    if len(out) == 1 and len(out[0].a) == 2 and out[0].a[1].a[1] and out[0].a[1].a[0].op == "eq":
        i = mk("idx", src)
        e = AT(src, i)
        for x, y in (out[0].a[1].a[0].a, out[0].a[1].a[0].a[::-1]):
            if x is e and not contains(y, lambda z: z is i):
                return mk("contains", src, y)
    if src.op == "agg" and src.a[0] == "array" and len(src.a) > 3 and not any(contains(c, lambda x: x is mk("idx", src)) for c in out):
        # elements known one by one
        alts = []
        for c in out:
            ls = [l.a[0] if l.a[1] else NOT(l.a[0]) for l in c.a[1:]]
            alts.append(TRUE if not ls else ls[0] if len(ls) == 1 else mk("and", *ls))
        return TRUE if TRUE in alts else alts[0] if len(alts) == 1 else mk("or", *alts)
    return mk("any", src, *sorted(out, key=lambda c: c.uid))


def mkseq(src, cases):
    return mk("seq", src, *cases)


def mkfold(fname, src, init, cases):
    if fname == "remove" and init is src and all(
            c.a[0].op == "mkey" and c.a[0].a == (src, mk("idx", src)) and len(c.a) > 1 and
            not contains(c, lambda x: x.op == "phi") for c in cases):
        kept = [[]]  # what none of the cases removes
        for c in cases:
            kept = [k + [(l.a[0], not l.a[1])] for k in kept for l in c.a[1:]]
        return mk("retain", src, *[mkcase(TRUE, k) for k in kept])
    return mk("fold", fname, src, init, *cases)


def step_of(v, phi):
    """v as one recurrence step of phi -> (op, args)"""
    if v.op == "add" and phi in v.a:
        other = v.a[1] if v.a[0] is phi else v.a[0]
        return "+", (other,)
    if v.op == "mut" and len(v.a) > 2 and v.a[2] is phi:
        return v.a[0], v.a[3:]
    ps = parts_of(v, phi)
    if ps:
        return "append", (mk("concat", *ps) if len(ps) > 1 else ps[0],)
    return None, None


def parts_of(v, phi):
    """the lists that v appends to phi, in order; None when v is no such extension"""
    out = []
    while v is not phi:
        if v.op == "mut" and v.a[0] == "append":
            out.append(v.a[3])
            v = v.a[2]
        elif v.op == "mut" and v.a[0] == "push":
            out.append(mk("one", v.a[3]))
            v = v.a[2]
        elif v.op == "fold" and v.a[0] in ("push", "append"):
            out.append(mkfold(v.a[0], v.a[1], EMPTYC, v.a[3:]))
            v = v.a[2]
        else:
            return None
    return out[::-1]


def steps_of(vals, phi):
    """one recurrence for all ways through a loop body -> (op, [(args, literals)]) or (None, None)"""
    got = []
    for v, lits in vals:
        if v is phi:
            continue
        n, a = step_of(v, phi)
        if n is None:
            return None, None
        if n == "sinsert":  # adding an element again changes nothing
            lits = [(l, w) for l, w in lits if not (l.op == "contains" and l.a[0] is phi and l.a[1] is a[0])]
        got.append((n, a, lits))
    names = {n for n, _, _ in got}
    if names == {"push", "append"}:
        got = [("append", (mk("one", a[0]),) if n == "push" else a, l) for n, a, l in got]
        names = {"append"}
    if len(names) != 1:
        return None, None
    return names.pop(), [(a, l) for _, a, l in got]
