"""Abstract values of the lifter: scalars are terms, arrays are index functions to terms."""
from __future__ import annotations

from . import terms as T
from .terms import N, ONE, ZERO, FALSE, TRUE, NONE, atom, mk


class V:
    __slots__ = ()


class Sc(V):
    __slots__ = ("t",)

    def __init__(self, t: N):
        assert isinstance(t, N), t
        self.t = t


class Arr(V):
    """Array (nd=True) or rectangular nested list of scalars (nd=False)."""

    __slots__ = ("dims", "_fn", "nd", "memo", "term", "dt")

    def __init__(self, dims, fn, nd=True, term=None, dt=None):
        self.dims = list(dims)
        self.dt = dt  # element type the array was allocated with: 'f' | 'i' | None (holds anything)
        self._fn = fn
        self.nd = nd
        self.memo = {}
        self.term = term

    def fn(self, idx):
        key = tuple(idx)
        r = self.memo.get(key)
        if r is None:
            r = self._fn(list(idx))
            self.memo[key] = r
        return r

    @property
    def rank(self):
        return len(self.dims)


class Seq(V):
    """Homogeneous list of symbolic length."""

    __slots__ = ("n", "_fn", "memo", "term")

    def __init__(self, n, fn, term=None):
        self.n = n
        self._fn = fn
        self.memo = {}
        self.term = term

    def fn(self, i):
        r = self.memo.get(i)
        if r is None:
            r = self._fn(i)
            self.memo[i] = r
        return r


class Tup(V):
    __slots__ = ("items", "lst")

    def __init__(self, items, lst=False):
        self.items = list(items)
        self.lst = lst


class LAcc(V):
    """List under construction: base value followed by conditional parts ('item'|'seq', cond, V)."""

    __slots__ = ("base", "parts")

    def __init__(self, base, parts):
        self.base = base
        self.parts = list(parts)


class Dct(V):
    """Static-key dictionary."""

    __slots__ = ("kv",)

    def __init__(self, kv):
        self.kv = list(kv)


class DAcc(V):
    """Dictionary given by generators (n, cond, key, val): list of (var-bound n, fn i -> (cond, key V, val V))."""

    __slots__ = ("base", "parts")

    def __init__(self, base, parts):
        self.base = base  # None | Obj
        self.parts = list(parts)  # ('item', cond, k, v) | ('gen', n, fn)


class Fn(V):
    __slots__ = ("node", "mod", "env", "frame", "name")

    def __init__(self, node, mod, env, frame, name):
        self.node, self.mod, self.env, self.frame, self.name = node, mod, env, frame, name


class BI(V):
    """Library function / method: dotted name and optional bound receiver."""

    __slots__ = ("name", "recv")

    def __init__(self, name, recv=None):
        self.name, self.recv = name, recv


class Rng(V):
    __slots__ = ("count",)

    def __init__(self, count):
        self.count = count


class Obj(V):
    """Uninterpreted value."""

    __slots__ = ("t", "ty")

    def __init__(self, t: N, ty=None):
        self.t = t
        self.ty = ty


class IteV(V):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


def ob(why: str) -> V:
    return Obj(T.opaque(why))


def sc_int(k) -> Sc:
    return Sc(T.const(k))


def sstr(s: str) -> Sc:
    return Sc(mk("str", s))


VNONE = Sc(NONE)


# --------------------------------------------------------------------------------------
def restrict_bdd(t: N, c: N, val: bool) -> N:
    """Simplify BDD/MTBDD t under the assumption (c == val) for a Boolean diagram c."""
    for a, v in literals(c, val):
        t = T.restrict_all(t, a, v)
    return t


def literals(c: N, val: bool):
    """Atomic literals implied by (c == val)."""
    out = []
    seen = 0
    if c.op == "eq0_":
        return out
    while c.op == "ite" and seen < 50:
        a, x, y = c.args
        bad = FALSE if val else TRUE
        if y is bad:
            out.append((a, True))
            c = x
        elif x is bad:
            out.append((a, False))
            c = y
        else:
            break
        seen += 1
    return out


def restrict_v(v: V, lits) -> V:
    if not lits:
        return v
    if isinstance(v, Sc):
        t = v.t
        for a, b in lits:
            t = T.restrict(t, a, b) if t.op == "ite" else t
        return Sc(t) if t is not v.t else v
    if isinstance(v, IteV):
        c = v.c
        for a, b in lits:
            c = T.restrict(c, a, b)
        if c is TRUE:
            return restrict_v(v.a, lits)
        if c is FALSE:
            return restrict_v(v.b, lits)
        a, b = restrict_v(v.a, lits), restrict_v(v.b, lits)
        if c is v.c and a is v.a and b is v.b:
            return v
        return IteV(c, a, b)
    if isinstance(v, Tup):
        items = [restrict_v(x, lits) for x in v.items]
        if all(x is y for x, y in zip(items, v.items)):
            return v
        return Tup(items, v.lst)
    return v


# --------------------------------------------------------------------------------------
def same(a: V, b: V) -> bool:
    if a is b:
        return True
    if isinstance(a, Sc) and isinstance(b, Sc):
        return a.t is b.t
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.t is b.t
    if isinstance(a, BI) and isinstance(b, BI):
        return a.name == b.name and a.recv is b.recv
    if isinstance(a, Rng) and isinstance(b, Rng):
        return a.count is b.count
    return False


def merge(c: N, a: V, b: V) -> V:
    """c ? a : b"""
    if a is None:
        return b
    if b is None:
        return a
    if c is TRUE or same(a, b):
        return a
    if c is FALSE:
        return b
    if c.op != "ite":
        c = T.cond_atom(mk("opaque", "cond"))
    if isinstance(a, Sc) and isinstance(b, Sc):
        return Sc(T.ite(c, a.t, b.t))
    if isinstance(a, LAcc) or isinstance(b, LAcc):
        m = _merge_lacc(c, a, b)
        if m is not None:
            return m
    if isinstance(a, DAcc) and isinstance(b, DAcc) and a.base is b.base:
        k = 0
        while k < min(len(a.parts), len(b.parts)) and a.parts[k] is b.parts[k]:
            k += 1
        pa = [_guard_part(p, c) for p in a.parts[k:]]
        pb = [_guard_part(p, T.not_(c)) for p in b.parts[k:]]
        return DAcc(a.base, a.parts[:k] + pa + pb)
    if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank and all(
        x is y for x, y in zip(a.dims, b.dims)
    ):
        return Arr(a.dims, lambda idx: T.ite(c, a.fn(idx), b.fn(idx)), a.nd or b.nd)
    if isinstance(a, Seq) and isinstance(b, Seq) and a.n is b.n:
        return Seq(a.n, lambda i: merge(c, a.fn(i), b.fn(i)))
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
        return Tup([merge(c, x, y) for x, y in zip(a.items, b.items)], a.lst)
    if isinstance(a, Tup) and isinstance(b, Tup) and a.lst and b.lst:
        k = 0
        while k < min(len(a.items), len(b.items)) and same(a.items[k], b.items[k]):
            k += 1
        return LAcc(
            Tup(a.items[:k], True),
            [("item", c, x) for x in a.items[k:]] + [("item", T.not_(c), x) for x in b.items[k:]],
        )
    if isinstance(a, Rng) and isinstance(b, Rng):
        return Rng(T.ite(c, a.count, b.count))
    lits_t, lits_f = literals(c, True), literals(c, False)
    return IteV(c, restrict_v(a, lits_t), restrict_v(b, lits_f))


def _guard_part(p, c):
    if p[0] in ("item", "seq"):
        return (p[0], T.and_(c, p[1])) + tuple(p[2:])
    return ("gen", p[1], lambda i, f=p[2]: (lambda r: (T.and_(c, r[0]), r[1], r[2]))(f(i)))


def _merge_lacc(c, a, b):
    def parts_of(x, other_base):
        if isinstance(x, LAcc):
            return x.base, x.parts
        return x, []

    ba, pa = parts_of(a, None)
    bb, pb = parts_of(b, None)
    if ba is not bb:
        # a list literal extended by appends on one side
        if isinstance(ba, Tup) and isinstance(bb, Tup):
            k = 0
            while k < min(len(ba.items), len(bb.items)) and same(ba.items[k], bb.items[k]):
                k += 1
            pa = [("item", TRUE, x) for x in ba.items[k:]] + pa
            pb = [("item", TRUE, x) for x in bb.items[k:]] + pb
            ba = Tup(ba.items[:k], True)
        else:
            return None
    k = 0
    while k < min(len(pa), len(pb)) and pa[k] is pb[k]:
        k += 1
    nc = T.not_(c)
    return LAcc(ba, pa[:k] + [_guard_part(p, c) for p in pa[k:]] + [_guard_part(p, nc) for p in pb[k:]])


def dist(f, *vals):
    """Apply f, distributing over conditional values."""
    for k, v in enumerate(vals):
        if isinstance(v, IteV):
            lt, lf = literals(v.c, True), literals(v.c, False)
            va = [restrict_v(x, lt) for x in vals]
            vb = [restrict_v(x, lf) for x in vals]
            va[k], vb[k] = v.a, v.b
            return merge(v.c, dist(f, *va), dist(f, *vb))
    return f(*vals)


# --------------------------------------------------------------------------------------
# reification (value -> term) and reflection (type, term -> value)
def reify(v) -> N:
    if v is None:
        return T.opaque("undefined")
    if isinstance(v, Sc):
        return v.t
    if isinstance(v, Arr):
        if v.term is not None:
            return v.term
        if v.rank == 0:
            return v.fn([])
        vs = [T.new_ix(d) for d in v.dims]
        body = v.fn([atom(x) for x in vs])
        v.term = T.lam(vs, body)
        return v.term
    if isinstance(v, Seq):
        if v.term is not None:
            return v.term
        x = T.new_ix(v.n)
        v.term = T.lam([x], reify(v.fn(atom(x))))
        return v.term
    if isinstance(v, Tup):
        if v.lst:
            a = list_as_arr(v)
            if a is not None:
                return reify(a)
        return mk("tup", *[reify(x) for x in v.items])
    if isinstance(v, IteV):
        return T.ite(v.c, reify(v.a), reify(v.b))
    if isinstance(v, Obj):
        return v.t
    if isinstance(v, LAcc):
        return mk("listcat", reify(v.base), tuple(mk("part", p[0], p[1], reify(p[2])) for p in v.parts))
    if isinstance(v, Dct):
        return mk("dict", *[mk("tup", reify(k), reify(x)) for k, x in v.kv])
    if isinstance(v, DAcc):
        out = []
        for p in v.parts:
            if p[0] == "item":
                out.append(mk("part", "item", p[1], reify(p[2]), reify(p[3])))
            else:
                x = T.new_ix(p[1])
                c, k, w = p[2](atom(x))
                out.append(T.lam([x], mk("part", "gen", c, reify(k), reify(w))))
        return mk("dictv", reify(v.base) if v.base is not None else NONE, *out)
    if isinstance(v, Rng):
        return mk("rng", v.count)
    if isinstance(v, BI):
        return mk("bi", v.name)
    if isinstance(v, Fn):
        return mk("fnv", v.name or "lambda")
    return T.opaque("reify " + type(v).__name__)


def list_as_arr(v: Tup):
    """Static list of scalars as rank-1 array (None if not uniform scalars)."""
    if not v.items:
        return Arr([ZERO], lambda idx: T.opaque("empty"), False, term=mk("emptylist"))
    if all(isinstance(x, Sc) for x in v.items):
        return Arr([T.const(len(v.items))], lambda idx: pick([x.t for x in v.items], idx[0]), False)
    return None


def pick(ts, i: N) -> N:
    k = T.as_int(i)
    if k is not None:
        return ts[k] if -len(ts) <= k < len(ts) else T.opaque("index")
    r = ts[-1]
    for q in range(len(ts) - 2, -1, -1):
        r = T.ite(T.eq(i, T.const(q)), ts[q], r)
    return r


def pick_v(vs, i: N) -> V:
    k = T.as_int(i)
    if k is not None:
        return vs[k] if -len(vs) <= k < len(vs) else ob("index")
    r = vs[-1]
    for q in range(len(vs) - 2, -1, -1):
        r = merge(T.eq(i, T.const(q)), vs[q], r)
    return r


# types: ("sc", sort) ("arr", rank|None, sort, nd) ("seq", elem) ("tup", [..]) ("obj", tag) ("opt", t)
def sort_of(t: N) -> str:
    return T.term_sort(t) if t.op in ("poly", "ite", "true", "false") else "obj"


def leaf_sort(t: N) -> str:
    """Sort of an MTBDD joining over its leaves."""
    if t.op == "ite":
        a, b = leaf_sort(t.args[1]), leaf_sort(t.args[2])
        order = ["bool", "bit", "int", "real", "complex"]
        if a in order and b in order:
            return order[max(order.index(a), order.index(b))]
        return a if b == "obj" else b
    return sort_of(t)


def typeof(v):
    if isinstance(v, Sc):
        return ("sc", leaf_sort(v.t))
    if isinstance(v, Arr):
        vs = [T.new_ix(d) for d in v.dims]
        return ("arr", v.rank, leaf_sort(v.fn([atom(x) for x in vs])), v.nd)
    if isinstance(v, Seq):
        x = T.new_ix(v.n)
        e = typeof(v.fn(atom(x)))
        if e is not None and e[0] == "sc":
            return ("arr", 1, e[1], False)
        return ("seq", e)
    if isinstance(v, Tup):
        if v.lst:
            if not v.items:
                return ("seq", None)
            e = typeof(v.items[0])
            if e[0] == "sc":
                srt = "bool"
                for x in v.items:
                    srt = join_sort(srt, typeof(x)[1])
                return ("arr", 1, srt, False)
            return ("seq", e)
        return ("tup", [typeof(x) for x in v.items])
    if isinstance(v, LAcc):
        t0 = typeof(v.base)
        if t0 not in (None, ("seq", None)):
            return t0
        for p in v.parts:
            if p[0] == "item":
                e = typeof(p[2])
                if e is not None:
                    if e[0] == "sc":
                        return ("arr", 1, e[1], False)
                    return ("seq", e)
            else:
                return typeof(p[2])
        return ("seq", None)
    if isinstance(v, IteV):
        a, b = typeof(v.a), typeof(v.b)
        if isinstance(v.a, Sc) and v.a.t is NONE:
            return ("opt", b)
        if isinstance(v.b, Sc) and v.b.t is NONE:
            return ("opt", a)
        return a if a == b else ("obj", None)
    if isinstance(v, Rng):
        return ("rng",)
    if isinstance(v, (Dct, DAcc)):
        return ("dict",)
    return ("obj", None)


def join_sort(a, b):
    order = ["bool", "bit", "int", "real", "complex"]
    if a in order and b in order:
        return order[max(order.index(a), order.index(b))]
    return a if b == "obj" else b


def reflect(ty, t: N) -> V:
    if t.op == "opaque":
        return Obj(t)
    if ty is None or ty[0] in ("obj", "dict"):
        return Obj(t, ty[1] if ty and len(ty) > 1 else None)
    k = ty[0]
    if k == "sc":
        if t.op in ("poly", "ite", "true", "false", "none", "str", "strsym"):
            return Sc(t)
        if ty[1] == "bool":
            return Sc(T.cond_atom(t))
        if ty[1] == "obj":
            return Obj(t)
        return Sc(atom(t))
    if k == "arr":
        if ty[1] is None:
            return Obj(t, ("arr", ty[2]))
        if t.op == "ite":
            return merge(T.cond_atom(t.args[0]), reflect(ty, t.args[1]), reflect(ty, t.args[2]))
        if ty[2] == "bool":
            fn = lambda idx: as_bool_el(T.el(t, idx))
        else:
            fn = lambda idx: T.el(t, idx)
        d0 = [T.lenof(t)] if ty[1] == 1 and not ty[3] else [T.dim(t, a) for a in range(ty[1])]
        return Arr(d0, fn, ty[3], term=t if ty[2] != "bool" else None)
    if k == "seq":
        e = ty[1]
        if t.op == "ite":
            return merge(T.cond_atom(t.args[0]), reflect(ty, t.args[1]), reflect(ty, t.args[2]))
        return Seq(T.lenof(t), lambda i: reflect(e, T.item(t, i, sort_tag(e))), term=t)
    if k == "tup":
        if t.op == "tup":
            return Tup([reflect(e, x) for e, x in zip(ty[1], t.args)])
        return Tup([reflect(e, T.aproj(t, q, sort_tag(e))) for q, e in enumerate(ty[1])])
    if k == "opt":
        return IteV(T.cond_atom(mk("isnone", t)), VNONE, reflect(ty[1], t))
    if k == "rng":
        return Rng(atom(mk("rngcount", t)))
    return Obj(t)


def as_bool_el(t: N) -> N:
    """Element of a Boolean array as a condition."""
    if t.op == "poly" and len(t.args[0]) == 1:
        m, c = t.args[0][0]
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1:
            return T.cond_atom(m[0][0])
    if T.is_bool(t):
        return t
    return T.truth(t)


def sort_tag(e):
    if e is None:
        return "obj"
    if e[0] == "sc":
        return e[1]
    if e[0] == "arr":
        return e[2]
    return "obj"


def subst_v(v: V, m: dict) -> V:
    """Substitute index/state variables in a value."""
    if not m or v is None:
        return v
    if isinstance(v, Sc):
        return Sc(T.subst(v.t, m))
    if isinstance(v, Arr):
        return Arr(
            [T.subst(d, m) for d in v.dims],
            lambda idx: _subst_guard(v, idx, m),
            v.nd,
            term=T.subst(v.term, m) if v.term is not None else None,
        )
    if isinstance(v, Seq):
        def fn(i):
            x = T.new_ix(v.n)
            r = subst_v(v.fn(atom(x)), m)
            return subst_v(r, {x: i})

        return Seq(T.subst(v.n, m), fn, term=T.subst(v.term, m) if v.term is not None else None)
    if isinstance(v, Tup):
        return Tup([subst_v(x, m) for x in v.items], v.lst)
    if isinstance(v, IteV):
        c = T.subst(v.c, m)
        return merge(c, subst_v(v.a, m), subst_v(v.b, m))
    if isinstance(v, Obj):
        return Obj(T.subst(v.t, m), v.ty)
    if isinstance(v, LAcc):
        return LAcc(subst_v(v.base, m), [(p[0], T.subst(p[1], m), subst_v(p[2], m)) for p in v.parts])
    if isinstance(v, DAcc):
        out = []
        for p in v.parts:
            if p[0] == "item":
                out.append(("item", T.subst(p[1], m), subst_v(p[2], m), subst_v(p[3], m)))
            else:
                out.append(
                    ("gen", T.subst(p[1], m), lambda i, f=p[2]: (lambda r: (T.subst(r[0], m), subst_v(r[1], m), subst_v(r[2], m)))(f(i)))
                )
        return DAcc(v.base, out)
    if isinstance(v, Dct):
        return Dct([(subst_v(k, m), subst_v(x, m)) for k, x in v.kv])
    if isinstance(v, Rng):
        return Rng(T.subst(v.count, m))
    if isinstance(v, BI) and v.recv is not None:
        return BI(v.name, subst_v(v.recv, m))
    return v


def _subst_guard(v: Arr, idx, m):
    """Substitute in an element without capturing the given index terms."""
    keys = set(m)
    if any(i.fv & keys for i in idx):
        fresh = [T.new_ix(d) for d in v.dims]
        r = T.subst(v.fn([atom(x) for x in fresh]), m)
        return T.subst(r, dict(zip(fresh, idx)))
    return T.subst(v.fn(idx), m)


def fv_of(v: V) -> frozenset:
    """Free symbols of a value (through reification)."""
    return reify(v).fv
