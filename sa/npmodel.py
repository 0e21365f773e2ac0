"""Denotations of the Python / NumPy operations used by the code base."""
from __future__ import annotations

import ast
from fractions import Fraction as Fr

from . import terms as T
from .terms import FALSE, NONE, ONE, TRUE, ZERO, atom, mk
from .values import *  # noqa: F401,F403

RNG_METHODS = {"random", "standard_normal", "normal", "uniform", "integers", "random_sample", "rand", "randn"}


def idx_terms(n, dims):
    return [T.new_ix(d) for d in dims]


# --------------------------------------------------------------------------------------
_ARITH = {"matmul", "dot", "Add", "Sub", "Mult", "Div", "Pow", "Mod", "remainder", "rint", "isclose", "conj", "abs"}


def hcall(name, *vals, **kw) -> V:
    ts = tuple(reify(v) if isinstance(v, V) else v for v in vals)
    for t in ts:
        if isinstance(t, T.N) and t.op == "opaque":
            return Obj(t)
    if name in _ARITH and any(t is T.NONE for t in ts):
        return Obj(T.opaque("arithmetic on None"))
    kws = tuple(sorted((k, reify(v)) for k, v in kw.items()))
    return Obj(mk("hcall", name, ts, kws) if kws else mk("hcall", name, ts))


def dims_of(v):
    """Dimensions of the array denoted by v (None if unknown)."""
    if isinstance(v, Sc):
        return []
    if isinstance(v, Arr):
        return v.dims
    if isinstance(v, Seq):
        x = T.new_ix(v.n)
        d = dims_of(v.fn(atom(x)))
        if d is None or any(x in q.fv for q in d):
            return None
        return [v.n] + d
    if isinstance(v, Tup):
        if not v.items:
            return [ZERO]
        d = dims_of(v.items[0])
        if d is None:
            return None
        return [T.const(len(v.items))] + d
    if isinstance(v, IteV):
        a, b = dims_of(v.a), dims_of(v.b)
        if a is not None and b is not None and len(a) == len(b) and all(x is y for x, y in zip(a, b)):
            return a
        return None
    return None


def to_arr(v, force=True):
    """View value as an Arr/Sc; None if impossible."""
    if isinstance(v, (Sc, Arr)):
        return v
    if isinstance(v, Seq):
        d = dims_of(v)
        if d is None:
            # rectangular by use: every element has the shape of the first
            e0 = v.fn(ZERO)
            d = dims_of(e0) if isinstance(e0, Arr) else None
            if d is None:
                return None
            d = [v.n] + d
        if len(d) == 1:
            return Arr(d, lambda idx: _sc(v.fn(idx[0])), True, term=v.term)
        def fn(idx):
            e = to_arr(v.fn(idx[0]))
            return e.fn(idx[1:]) if isinstance(e, Arr) else T.opaque("ragged")
        return Arr(d, fn, True)
    if isinstance(v, Tup):
        if not v.items:
            return Arr([ZERO], lambda idx: T.opaque("empty"), True, term=mk("emptylist"))
        es = [to_arr(x) for x in v.items]
        if any(e is None for e in es):
            return None
        if all(isinstance(e, Sc) for e in es):
            return Arr([T.const(len(es))], lambda idx: pick([e.t for e in es], idx[0]), True)
        if all(isinstance(e, Arr) and e.rank == es[0].rank for e in es):
            return Arr(
                [T.const(len(es))] + es[0].dims, lambda idx: pick([e.fn(idx[1:]) for e in es], idx[0]), True
            )
        return None
    if isinstance(v, IteV):
        a, b = to_arr(v.a), to_arr(v.b)
        if a is not None and b is not None:
            r = merge(v.c, a, b)
            if isinstance(r, (Sc, Arr)):
                return r
    if isinstance(v, LAcc):
        w = lacc_value(v)
        if not isinstance(w, LAcc):
            return to_arr(w)
    return None


def _sc(v):
    if isinstance(v, Sc):
        return v.t
    if isinstance(v, Arr) and v.rank == 0:
        return v.fn([])
    if isinstance(v, Obj):
        return v.t if v.t.op == "opaque" else atom(v.t)
    if isinstance(v, IteV):
        return T.ite(v.c, _sc(v.a), _sc(v.b))
    return T.opaque("scalar expected")


def scal(v):
    """Scalar value from Arr rank 0."""
    if isinstance(v, Arr) and v.rank == 0:
        return Sc(v.fn([]))
    return v


# --------------------------------------------------------------------------------------
# elementwise
def map1(f, v, name="map"):
    def g(v):
        if isinstance(v, Sc):
            return Sc(f(v.t))
        if isinstance(v, Obj):
            return _obj1(name, v)
        a = to_arr(v)
        if a is None:
            return hcall("map:" + name, v)
        if isinstance(a, Sc):
            return Sc(f(a.t))
        return Arr(a.dims, lambda idx: f(a.fn(idx)), True)

    return dist(g, v)


def _obj1(name, v):
    if v.t.op == "opaque":
        return v
    if isinstance(v.ty, str) and v.ty in ("num",):
        return Obj(mk("hcall", name, v.t), "num")
    return Obj(mk("hcall", name, v.t), v.ty)


def bshape(das, dbs):
    """Broadcast dimension lists -> (dims, ok)."""
    r = max(len(das), len(dbs))
    out = []
    for k in range(r):
        a = das[k - (r - len(das))] if k >= r - len(das) else None
        b = dbs[k - (r - len(dbs))] if k >= r - len(dbs) else None
        if a is None:
            out.append(b)
        elif b is None:
            out.append(a)
        elif T.as_int(a) == 1:
            out.append(b)
        elif T.as_int(b) == 1:
            out.append(a)
        elif T.as_int(a) is not None:
            out.append(a)
        elif T.as_int(b) is not None:
            out.append(b)
        else:
            out.append(a)
    return out


def bidx(dims, idx):
    """Index terms for an operand with dims inside a broadcast index."""
    off = len(idx) - len(dims)
    # surplus axes of an operand can only have length one
    return [ZERO if off + k < 0 or T.as_int(d) == 1 else idx[off + k] for k, d in enumerate(dims)]


def map2(f, a, b, name="map2"):
    def g(a, b):
        if isinstance(a, Sc) and isinstance(b, Sc):
            return Sc(f(a.t, b.t))
        if isinstance(a, Obj) or isinstance(b, Obj):
            return _obj2(name, a, b)
        x, y = to_arr(a), to_arr(b)
        if x is None or y is None:
            return hcall(name[0], a, b, *[Sc(z) for z in name[1:]]) if isinstance(name, tuple) else hcall(name, a, b)
        if isinstance(x, Sc) and isinstance(y, Sc):
            return Sc(f(x.t, y.t))
        dx = x.dims if isinstance(x, Arr) else []
        dy = y.dims if isinstance(y, Arr) else []
        dims = bshape(dx, dy)
        fx = (lambda idx: x.fn(bidx(dx, idx))) if isinstance(x, Arr) else (lambda idx: x.t)
        fy = (lambda idx: y.fn(bidx(dy, idx))) if isinstance(y, Arr) else (lambda idx: y.t)
        return Arr(dims, lambda idx: f(fx(idx), fy(idx)), True)

    return dist(g, a, b)


COMM = {"Add", "Mult"}


def _obj2(name, a, b):
    for v in (a, b):
        if isinstance(v, Obj) and v.t.op == "opaque":
            return v
    ta, tb = reify(a), reify(b)
    if name in COMM and tb.dg < ta.dg:
        ta, tb = tb, ta
    ty = a.ty if isinstance(a, Obj) else getattr(b, "ty", None)
    if isinstance(name, tuple):
        return Obj(mk("hcall", name[0], ta, tb, tuple(name[1:])), ty)
    return Obj(mk("hcall", name, ta, tb), ty)


def binop(op, a, b, L=None):
    a, b = scal(a), scal(b)
    # list concatenation / repetition
    if op == "Add" and (is_list(a) and is_list(b) or is_tuple(a) and is_tuple(b)):
        return concat_lists(a, b)
    if op == "Mult":
        if is_list(a) or is_tuple(a):
            return repeat_list(a, b)
        if is_list(b) or is_tuple(b):
            return repeat_list(b, a)
    if op == "Add" and isinstance(a, Sc) and a.t.op == "str":
        return sstr("<str>")
    if op == "Mod" and isinstance(a, Sc) and a.t.op == "str":
        return sstr("<str>")
    if op == "MatMult":
        return dist(matmul, a, b)
    if isinstance(a, Obj) and a.t.op == "hcall" and a.t.args[0] in ("set",) and op in ("Sub", "BitAnd", "BitOr"):
        return hcall("set" + op, a, b)
    f = {
        "Add": T.add,
        "Sub": T.sub,
        "Mult": T.mul,
        "Div": T.div,
        "Mod": T.mod,
        "FloorDiv": T.floordiv,
        "Pow": powf,
        "BitAnd": lambda x, y: T.and_(x, y) if T.is_bool(x) and T.is_bool(y) else T.opaque("&"),
        "BitOr": lambda x, y: T.or_(x, y) if T.is_bool(x) and T.is_bool(y) else T.opaque("|"),
        "BitXor": lambda x, y: T.not_(T.eq(x, y)) if T.is_bool(x) and T.is_bool(y) else bitxor(x, y),
    }.get(op)
    if f is None:
        return hcall(op, a, b)
    return map2(f, a, b, op)


def bitxor(x, y):
    return T.opaque("^")


def powf(a, e):
    return T.pow_term(a, e)


def is_list(v):
    return isinstance(v, Seq) or isinstance(v, LAcc) or (isinstance(v, Tup) and v.lst) or (isinstance(v, Arr) and not v.nd)


def is_tuple(v):
    return isinstance(v, Tup) and not v.lst


def concat_lists(a, b):
    if isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items, a.lst)
    if isinstance(a, Tup) and not a.items:
        return b
    if isinstance(b, Tup) and not b.items:
        return a
    if isinstance(a, LAcc):
        return LAcc(a.base, a.parts + [("seq", TRUE, b)])
    sa, sb = as_seq(a), as_seq(b)
    if sa is None or sb is None:
        return hcall("concat", a, b)
    n1, f1 = sa
    n2, f2 = sb
    return mkseq(T.add(n1, n2), lambda i: merge(T.lt(i, n1), f1(i), f2(T.sub(i, n1))))


def mkseq(n, fn):
    """List value; rectangular scalar lists become Arr."""
    x = T.new_ix(n)
    e = fn(atom(x))
    if isinstance(e, Sc):
        return Arr([n], lambda idx: _sc(fn(idx[0])), False)
    if isinstance(e, Arr) and not e.nd and not any(x in d.fv for d in e.dims):
        return Arr([n] + e.dims, lambda idx: fn(idx[0]).fn(idx[1:]), False)
    return Seq(n, fn)


def as_seq(v):
    """(n, fn) of a list-like value."""
    d = domain(v)
    if d[0] == "sym":
        return d[1], d[2]
    if d[0] == "static":
        items = d[1]
        if not items:
            return ZERO, (lambda i: ob("empty"))
        return T.const(len(items)), (lambda i: pick_v(items, i))
    return None


def repeat_list(a, k):
    if isinstance(k, Sc):
        n = T.as_int(k.t)
        if isinstance(a, Tup) and n is not None and n <= 16:
            return Tup(a.items * n, a.lst)
        if isinstance(a, Tup) and len(a.items) == 1:
            return mkseq(k.t, lambda i: a.items[0])
    return hcall("repeat", a, k)


# --------------------------------------------------------------------------------------
def domain(v):
    """Iteration domain: ('static', items) | ('sym', n, fn) | ('cond', c, d1, d2) | ('opaque', v)"""
    if isinstance(v, Tup):
        return ("static", v.items)
    if isinstance(v, Dct):
        return ("static", [k for k, _ in v.kv])
    if isinstance(v, Arr) and v.rank >= 1:
        k = T.as_int(v.dims[0])
        if v.rank == 1:
            return ("sym", v.dims[0], lambda i: Sc(v.fn([i])))
        return ("sym", v.dims[0], lambda i: Arr(v.dims[1:], lambda idx: v.fn([i] + idx), v.nd))
    if isinstance(v, Seq):
        return ("sym", v.n, v.fn)
    if isinstance(v, IteV):
        return ("cond", v.c, domain(v.a), domain(v.b))
    if isinstance(v, LAcc):
        w = lacc_value(v)
        if not isinstance(w, LAcc):
            return domain(w)
        return ("sym", T.lenof(reify(v)), lambda i: Obj(mk("item", reify(v), i, "obj")))
    if isinstance(v, Obj):
        if v.t.op == "opaque":
            return ("opaque", v)
        n = T.lenof(v.t)
        if isinstance(v.ty, tuple) and v.ty[0] == "setof" and v.ty[1] is not None and v.ty[1][0] != "obj":
            return domain(set_list(v))
        if isinstance(v.ty, tuple) and v.ty[0] == "arr":
            return ("sym", n, lambda i: Obj(T.item(v.t, i, v.ty[1]), v.ty))
        return ("sym", n, lambda i: Obj(T.item(v.t, i, "obj")))
    return ("opaque", v)


def set_list(v):
    """Elements of a set (in unspecified order) as a list value."""
    e = v.ty[1]
    if e[0] == "sc":
        return reflect(("arr", 1, e[1], False), v.t)
    return reflect(("seq", e), v.t)


def lacc_value(v: LAcc):
    """Concrete list value of an accumulated list outside loops, when expressible."""
    if not v.parts:
        return v.base
    parts = v.parts
    base = v.base
    if all(p[0] == "item" and p[1] is TRUE for p in parts) and isinstance(base, Tup):
        return Tup(base.items + [p[2] for p in parts], True)
    if all(p[1] is TRUE for p in parts):
        r = base
        for p in parts:
            r = concat_lists(r, Tup([p[2]], True) if p[0] == "item" else p[2])
        return r
    # complementary conditions partitioning into single item
    if isinstance(base, Tup) and not base.items and all(p[0] == "item" for p in parts):
        cs = FALSE
        excl = True
        for p in parts:
            if T.and_(cs, p[1]) is not FALSE:
                excl = False
            cs = T.or_(cs, p[1])
        if excl and cs is TRUE:
            x = parts[-1][2]
            for p in reversed(parts[:-1]):
                x = merge(p[1], p[2], x)
            return Tup([x], True)
    return v


def len_v(v):
    def g(v):
        if isinstance(v, Tup):
            return sc_int(len(v.items))
        if isinstance(v, Arr) and v.rank:
            return Sc(v.dims[0])
        if isinstance(v, Seq):
            return Sc(v.n)
        if isinstance(v, Dct):
            return sc_int(len(v.kv))
        if isinstance(v, LAcc):
            w = lacc_value(v)
            if not isinstance(w, LAcc):
                return len_v(w)
            n = len_v(v.base)
            if isinstance(n, Sc):
                t = n.t
                for p in v.parts:
                    k = ONE if p[0] == "item" else _sc(len_v(p[2]))
                    t = T.add(t, T.ite(p[1], k, ZERO))
                return Sc(t)
        if isinstance(v, Obj) and v.t.op == "opaque":
            return v
        return Sc(T.lenof(reify(v)))

    return dist(g, v)


def truth_v(v) -> T.N:
    if isinstance(v, Sc):
        return T.truth(v.t)
    if isinstance(v, IteV):
        return T.ite(v.c, truth_v(v.a), truth_v(v.b))
    if isinstance(v, Tup):
        return TRUE if v.items else FALSE
    if isinstance(v, (Seq,)) or (isinstance(v, Arr) and not v.nd):
        n = v.n if isinstance(v, Seq) else v.dims[0]
        return T.not_(T.eq(n, ZERO))
    if isinstance(v, Arr) and v.rank == 0:
        return T.truth(v.fn([]))
    if isinstance(v, LAcc):
        n = len_v(v)
        return T.not_(T.eq(n.t, ZERO)) if isinstance(n, Sc) else T.opaque("truth")
    if isinstance(v, Obj):
        if v.t.op == "opaque":
            return v.t
        if v.ty == "list":
            return T.not_(T.eq(T.lenof(v.t), ZERO))
        return T.cond_atom(mk("truth", v.t))
    if isinstance(v, (Fn, BI)):
        return TRUE
    return T.opaque("truth")


# --------------------------------------------------------------------------------------
# comparison
def compare(op, a, b, L):
    a, b = scal(a), scal(b)
    if op in ("Is", "IsNot"):
        r = dist(lambda x, y: Sc(is_same(x, y)), a, b)
        return r if op == "Is" else Sc(T.not_(truth_v(r)))
    if op in ("In", "NotIn"):
        r = member(b, a)
        return Sc(r if op == "In" else T.not_(r))
    if op in ("Eq", "NotEq"):
        def g(x, y):
            if (isinstance(x, Arr) and x.nd) or (isinstance(y, Arr) and y.nd):
                return map2(T.eq, x, y, "Eq")
            return Sc(eq_v(x, y))
        r = dist(g, a, b)
        if op == "Eq":
            return r
        return map1(T.not_, r, "not")
    f = {
        "Lt": T.lt,
        "LtE": T.le,
        "Gt": lambda x, y: T.lt(y, x),
        "GtE": lambda x, y: T.le(y, x),
    }[op]
    def h(x, y):
        if isinstance(x, Obj) or isinstance(y, Obj):
            for v in (x, y):
                if isinstance(v, Obj) and v.t.op == "opaque":
                    return v
            if op in ("Gt", "GtE"):
                return Sc(T.cond_atom(mk("ocmp", "Lt" if op == "Gt" else "LtE", reify(y), reify(x))))
            return Sc(T.cond_atom(mk("ocmp", op, reify(x), reify(y))))
        if isinstance(x, (Tup, Seq)) and isinstance(y, (Tup, Seq)):
            return hcall(op, x, y)
        return map2(f, x, y, op)
    return dist(h, a, b)


def is_same(x, y):
    if isinstance(x, Sc) and isinstance(y, Sc):
        if y.t in (NONE, TRUE, FALSE):
            k = y.t
            if k is NONE:
                return T.lift1(lambda p: TRUE if p is NONE else FALSE, x.t)
            return T.lift1(lambda p: TRUE if p is k else FALSE, x.t)
        return T.eq(x.t, y.t)
    if isinstance(y, Sc) and y.t is NONE:
        if isinstance(x, Obj):
            if x.t.op == "opaque":
                return x.t
            return T.cond_atom(mk("isnone", x.t))
        return FALSE
    if x is y:
        return TRUE
    if isinstance(x, BI) and isinstance(y, BI):
        return TRUE if x.name == y.name else FALSE
    return T.cond_atom(mk("same", reify(x), reify(y)))


def eq_v(x, y) -> T.N:
    """Whole-value equality."""
    if isinstance(x, IteV):
        return T.ite(x.c, eq_v(x.a, y), eq_v(x.b, y))
    if isinstance(y, IteV):
        return T.ite(y.c, eq_v(x, y.a), eq_v(x, y.b))
    x, y = scal(x), scal(y)
    if isinstance(x, Sc) and isinstance(y, Sc):
        return T.eq(x.t, y.t)
    if isinstance(x, LAcc):
        x = lacc_value(x)
    if isinstance(y, LAcc):
        y = lacc_value(y)
    if isinstance(x, Tup) and isinstance(y, Tup):
        if len(x.items) != len(y.items):
            return FALSE
        r = TRUE
        for p, q in zip(x.items, y.items):
            r = T.and_(r, eq_v(p, q))
        return r
    if isinstance(x, Obj) or isinstance(y, Obj):
        tx, ty = reify(x), reify(y)
        if tx is ty:
            return TRUE
        for t in (tx, ty):
            if t.op == "opaque":
                return t
        if tx.op == "hcall" and ty.op == "hcall" and tx.args[0] == "set" == ty.args[0]:
            lo, hi = sorted([tx, ty], key=lambda t: t.dg)
            return T.cond_atom(mk("oeq", lo, hi))
        lo, hi = sorted([tx, ty], key=lambda t: t.dg)
        return T.cond_atom(mk("oeq", lo, hi))
    if isinstance(x, Sc) or isinstance(y, Sc):
        return FALSE
    ax, ay = to_arr(x), to_arr(y)
    if isinstance(ax, Arr) and isinstance(ay, Arr):
        if ax.rank != ay.rank:
            return FALSE
        r = TRUE
        for p, q in zip(ax.dims, ay.dims):
            r = T.and_(r, T.eq(p, q))
        vs = [T.new_ix(d) for d in ax.dims]
        iv = [atom(v) for v in vs]
        return T.and_(r, T.forall(vs, T.eq(ax.fn(iv), ay.fn(iv))))
    sx, sy = as_seq(x), as_seq(y)
    if sx and sy:
        v = T.new_ix(sx[0])
        return T.and_(T.eq(sx[0], sy[0]), T.forall([v], eq_v(sx[1](atom(v)), sy[1](atom(v)))))
    return T.opaque("equality")


def member(container, x) -> T.N:
    if isinstance(container, IteV):
        return T.ite(container.c, member(container.a, x), member(container.b, x))
    if isinstance(container, Tup):
        r = FALSE
        for e in container.items:
            r = T.or_(r, eq_v(e, x))
        return r
    if isinstance(container, Dct):
        r = FALSE
        for k, _ in container.kv:
            r = T.or_(r, eq_v(k, x))
        return r
    if isinstance(container, DAcc):
        return dict_lookup(container, x)[0]
    if isinstance(container, Obj):
        if container.t.op == "opaque":
            return container.t
        if container.t.op == "hcall" and container.t.args[0] == "set":
            inner = container.t.args[1]
            inner = inner[0] if isinstance(inner, tuple) else inner
            v = T.new_ix(T.lenof(inner))
            e = reify(x)
            return T.cond_atom(mk("inset", inner, e))
        return T.cond_atom(mk("in", container.t, reify(x)))
    if isinstance(container, LAcc):
        w = lacc_value(container)
        if isinstance(w, LAcc):
            r = member(w.base, x)
            for p in w.parts:
                c = eq_v(p[2], x) if p[0] == "item" else member(p[2], x)
                r = T.or_(r, T.and_(p[1], c))
            return r
        container = w
    s = as_seq(container)
    if s is None:
        return T.opaque("membership")
    v = T.new_ix(s[0])
    return T.exists([v], eq_v(s[1](atom(v)), x))


def entries_of(v):
    """(length, index -> number) of a set or sequence of numbers."""
    t = reify(v)
    if t.op == "hcall" and t.args[0] == "set":
        t = t.args[1][0] if isinstance(t.args[1], tuple) else t.args[1]
    if t.op != "lam" or len(t.args[0]) != 1:
        return None
    vs, body = T.open_binder(t)
    return (t.args[0][0], lambda i: T.subst(body, {vs[0]: i})) if body.op == "poly" else None


def dict_lookup(d, x):
    """-> (member condition, value V)"""
    if isinstance(d, Dct):
        c = FALSE
        val = None
        for k, v in reversed(d.kv):
            e = eq_v(k, x)
            c = T.or_(c, e)
            val = v if val is None else merge(e, v, val)
        return c, val
    if isinstance(d, DAcc):
        c, val = FALSE, None
        if d.base is not None:
            c = T.cond_atom(mk("in", reify(d.base), reify(x)))
            val = Obj(mk("hcall", "dictget", reify(d.base), reify(x)))
        for p in d.parts:
            if p[0] == "item":
                e = T.and_(p[1], eq_v(p[2], x))
                v = p[3]
            else:
                i = T.new_ix(p[1])
                g, k, _ = p[2](atom(i))
                cc = T.and_(g, eq_v(k, x))
                e = T.exists([i], cc)
                pos = T.first(i, cc)
                v = p[2](pos)[2]
            val = v if val is None else merge(e, v, val)
            c = T.or_(c, e)
        return c, (val if val is not None else ob("empty dict"))
    return T.opaque("lookup"), ob("lookup")


# --------------------------------------------------------------------------------------
def component(v, k, n=None):
    """k-th component when unpacking."""
    if isinstance(v, Tup):
        return v.items[k] if k < len(v.items) else ob("unpack")
    if isinstance(v, IteV):
        return merge(v.c, component(v.a, k, n), component(v.b, k, n))
    if isinstance(v, Obj):
        if v.t.op == "opaque":
            return v
        return Obj(T.aproj(v.t, k, "obj"))
    return getitem(v, [sc_int(k)], None)


def norm_index(i: T.N, d: T.N) -> T.N:
    c = T.as_int(i)
    if c is not None and c < 0:
        return T.add(d, i)
    return i


def slice_bounds(s, d):
    """-> (start, length, step) for a slice of a dimension of size d."""
    _, lo, hi, st = s
    step = 1
    if st is not None and not (isinstance(st, Sc) and st.t is NONE):
        step = T.as_int(st.t) if isinstance(st, Sc) else None
        if step is None or step == 0:
            return None
    def val(v):
        if v is None or (isinstance(v, Sc) and v.t is NONE):
            return None
        if isinstance(v, Arr) and v.rank == 0:
            v = Sc(v.fn([]))
        return v.t if isinstance(v, Sc) else False
    lo, hi = val(lo), val(hi)
    if lo is False or hi is False:
        return None
    if step == 1:
        a = ZERO if lo is None else norm_index(lo, d)
        b = d if hi is None else norm_index(hi, d)
        ca, cb, cd = T.as_int(a), T.as_int(b), T.as_int(d)
        if cb is not None and cd is not None and cb > cd:
            b = d
        return a, T.sub(b, a), 1
    if step == -1:
        if lo is None and hi is None:
            return T.sub(d, ONE), d, -1
        return None
    if step > 1:
        a = ZERO if lo is None else norm_index(lo, d)
        b = d if hi is None else norm_index(hi, d)
        return a, T.rnd("ceil", T.div(T.sub(b, a), T.const(step))), step
    return None


def getitem(v, idx, L):
    def g(v):
        return _getitem(v, idx, L)

    return dist(g, v)


def _getitem(v, idx, L):
    if isinstance(v, LAcc):
        w = lacc_value(v)
        if isinstance(w, LAcc):
            return hcall("item", v, *[x for x in idx if isinstance(x, V)])
        v = w
    if isinstance(v, (Dct, DAcc)):
        if len(idx) != 1:
            x = Tup([i for i in idx])
        else:
            x = idx[0]
        return dict_lookup(v, x)[1]
    if isinstance(v, Obj):
        if v.t.op == "opaque":
            return v
        return obj_getitem(v, idx)
    if isinstance(v, Sc):
        if v.t.op in ("str", "strsym"):
            return str_item(v, idx)
        return ob("index of scalar")
    if isinstance(v, Tup):
        i = idx[0]
        if len(idx) == 1:
            if isinstance(i, Sc):
                c = T.as_int(i.t)
                if c is not None:
                    return v.items[c] if -len(v.items) <= c < len(v.items) else ob("tuple index")
                if v.items:
                    return pick_v(v.items, i.t)
            if isinstance(i, tuple) and i[0] == "slice":
                b = [None if x is None or (isinstance(x, Sc) and x.t is NONE) else (T.as_int(x.t) if isinstance(x, Sc) else "?") for x in i[1:]]
                if all(x is None or isinstance(x, int) for x in b):
                    return Tup(v.items[slice(*b)], v.lst)
        a = to_arr(v)
        if a is not None:
            return _getitem(a, idx, L)
        return ob("tuple index")
    if isinstance(v, Seq):
        i = idx[0]
        if isinstance(i, Sc):
            e = v.fn(norm_index(i.t, v.n))
            return e if len(idx) == 1 else getitem(e, idx[1:], L)
        if isinstance(i, tuple) and i[0] == "slice":
            b = slice_bounds(i, v.n)
            if b is not None and len(idx) == 1:
                a, n, st = b
                if a is ZERO and n is v.n and st == 1:
                    return v
                return Seq(n, lambda k: v.fn(T.add(a, T.mul(T.const(st), k))))
        a = to_arr(v)
        if a is not None:
            return _getitem(a, idx, L)
        return hcall("item", v, *[x for x in idx if isinstance(x, V)])
    if isinstance(v, Arr):
        return arr_getitem(v, idx)
    return ob("getitem " + type(v).__name__)


def obj_getitem(v, idx):
    i = idx[0]
    if len(idx) == 1 and isinstance(i, Sc):
        if i.t.op == "str":
            return field(v, i.t.args[0])
        if isinstance(v.ty, tuple) and v.ty[0] == "arr":
            return Obj(T.item(v.t, i.t, v.ty[1]), v.ty)
        return Obj(T.item(v.t, i.t, "obj"))
    parts = []
    for x in idx:
        if isinstance(x, tuple):
            parts.append(mk("slice", *[reify(y) if y is not None else NONE for y in x[1:]]))
        else:
            parts.append(reify(x))
    for p in parts:
        if p.op == "opaque":
            return Obj(p)
    return Obj(mk("hcall", "getitem", v.t, tuple(parts)), v.ty)


FIELDS = {
    "rotations": ("nd", "int", ["$n", "3", "3"]),
    "translations": ("nd", "real", ["$n", "3"]),
    "time_reversals": ("nd", "bit", ["$n"]),
    "transformation_matrix": ("nd", "real", ["3", "3"]),
    "origin_shift": ("nd", "real", ["3"]),
    "hall_number": ("scalar", "int"),
    "choice": ("scalar", "str"),
    "hall_symbol": ("scalar", "str"),
    "number": ("scalar", "int"),
    "std_lattice": ("nd", "real", ["3", "3"]),
}


def field(v, name):
    from .lift import reflect_ty

    t = T.aproj(v.t, name, {"nd": None, "scalar": None}.get("", None) or _field_sort(name))
    ty = FIELDS.get(name)
    if ty is None:
        return Obj(t)
    if ty[0] == "nd" and ty[2][0] == "$n":
        n = atom(mk("retdim", v.t, "n"))
        return reflect_ty(("nd", ty[1], ["n"] + ty[2][1:]), t, {"n": n})
    return reflect_ty(ty, t, {})


def _field_sort(name):
    ty = FIELDS.get(name)
    return ty[1] if ty else "obj"


def str_item(v, idx):
    i = idx[0]
    if len(idx) == 1 and isinstance(i, Sc):
        if v.t.op == "str" and T.as_int(i.t) is not None:
            try:
                return sstr(v.t.args[0][T.as_int(i.t)])
            except IndexError:
                return ob("string index")
        return Sc(T.lift1(lambda k: mk("strsym", mk("char", v.t, k)), i.t))
    return Obj(mk("hcall", "strslice", v.t, *[reify(x) if x is not None and not isinstance(x, tuple) else NONE for x in idx]))


def is_newaxis(x):
    return (isinstance(x, Sc) and x.t is NONE) or (isinstance(x, BI) and x.name in ("numpy.newaxis",))


def is_mask(x):
    return isinstance(x, Arr) and T.is_bool(x.fn([atom(T.new_ix(d)) for d in x.dims]))


def conv_index(idx, dims):
    """Normalise an index tuple against dims.

    -> list of components: ('int', t) ('slice', a, n, step) ('new',) ('adv', Arr) ('mask', Arr)
    """
    # ellipsis
    real = [x for x in idx if not is_newaxis(x) and not (isinstance(x, BI) and x.name == "Ellipsis")]
    used = 0
    for x in real:
        used += x.rank if isinstance(x, Arr) and is_mask(x) else 1
    out = []
    ax = 0
    for x in idx:
        if isinstance(x, BI) and x.name == "Ellipsis":
            while len(dims) - ax > used - sum(1 for o in out if o[0] not in ("new",)):
                out.append(("slice", ZERO, dims[ax], 1))
                ax += 1
                used += 1
            continue
        if is_newaxis(x):
            out.append(("new",))
            continue
        if ax >= len(dims):
            return None
        if isinstance(x, tuple):
            b = slice_bounds(x, dims[ax])
            if b is None:
                return None
            out.append(("slice",) + b)
            ax += 1
            continue
        x = scal(x)
        if isinstance(x, Sc):
            if T.is_bool(x.t):
                return None
            out.append(("int", norm_index(x.t, dims[ax])))
            ax += 1
            continue
        a = to_arr(x)
        if a is None or isinstance(a, Sc):
            return None
        if is_mask(a):
            out.append(("mask", a, ax))
            ax += a.rank
        else:
            out.append(("adv", a))
            ax += 1
    while ax < len(dims):
        out.append(("slice", ZERO, dims[ax], 1))
        ax += 1
    return out


def mask_sel(m):
    x = T.new_ix(m.dims[0])
    c = m.fn([atom(x)])
    return select(x, c)


def select(x, c):
    """(count, nth) of the indices x satisfying c."""
    if c is TRUE:
        return x.args[1], (lambda t: t)
    S = T.sel(x, c)
    return atom(mk("count", S)), (lambda t: nth(S, t))


def nth(S, t):
    def f(p):
        if T.as_int(p) == 0:
            vs, body = T.open_binder(S)
            return T.first(vs[0], body)
        return atom(mk("nth", S, p))
    return T.lift1(f, t)


def arr_getitem(v, idx):
    comps = conv_index(idx, v.dims)
    if comps is None:
        return hcall("getitem", v, *[x if isinstance(x, V) else Tup([y if y is not None else VNONE for y in x[1:]]) for x in idx])
    # masks -> adv
    cs = []
    for c in comps:
        if c[0] == "mask":
            if c[1].rank != 1:
                return hcall("maskget", v, c[1])
            n, f = mask_sel(c[1])
            cs.append(("adv", Arr([n], lambda i, f=f: f(i[0]))))
        else:
            cs.append(c)
    comps = cs
    adv = [k for k, c in enumerate(comps) if c[0] in ("adv",)]
    if adv:
        # integers join advanced indexing
        advi = [k for k, c in enumerate(comps) if c[0] in ("adv", "int")]
        bdims = []
        for k in advi:
            bdims = bshape(bdims, comps[k][1].dims if comps[k][0] == "adv" else [])
        contiguous = advi == list(range(advi[0], advi[-1] + 1))
        pos = advi[0] if contiguous else 0
    else:
        advi, bdims, pos = [], [], None
    out_dims = []
    plan = []
    placed = False
    if adv and not contiguous:
        out_dims += bdims
        placed = True
        boff = 0
    for k, c in enumerate(comps):
        if adv and k in advi:
            if not placed:
                boff = len(out_dims)
                out_dims += bdims
                placed = True
            plan.append(("adv", c))
        elif c[0] == "int":
            plan.append(("fix", c[1]))
        elif c[0] == "slice":
            plan.append(("sl", c, len(out_dims)))
            out_dims.append(c[2])
        else:
            plan.append(("new", len(out_dims)))
            out_dims.append(ONE)

    def fn(oi):
        src = []
        for p in plan:
            if p[0] == "fix":
                src.append(p[1])
            elif p[0] == "sl":
                _, (_, a, n, st), q = p
                src.append(T.add(a, T.mul(T.const(st), oi[q])))
            elif p[0] == "adv":
                c = p[1]
                if c[0] == "int":
                    src.append(c[1])
                else:
                    b = oi[boff : boff + len(bdims)]
                    src.append(c[1].fn(bidx(c[1].dims, b)))
        return v.fn(src)

    if not out_dims:
        return Sc(fn([]))
    if not adv and len(idx) <= 1 and out_dims and v.term is not None and all(p[0] == "sl" and p[1][1] is ZERO and p[1][3] == 1 for p in plan) and all(x is y for x, y in zip(out_dims, v.dims)):
        return v
    return Arr(out_dims, fn, v.nd)


# --------------------------------------------------------------------------------------
# functional stores
def store(cur, idx, val, L):
    if isinstance(cur, IteV):
        return merge(cur.c, store(cur.a, idx, val, L), store(cur.b, idx, val, L))
    if isinstance(cur, DAcc):
        k = idx[0] if len(idx) == 1 else Tup(list(idx))
        return DAcc(cur.base, cur.parts + [("item", TRUE, k, val)])
    if isinstance(cur, Dct):
        return DAcc(None, [("item", TRUE, k, v) for k, v in cur.kv] + [("item", TRUE, idx[0], val)])
    if isinstance(cur, LAcc):
        w = lacc_value(cur)
        if isinstance(w, LAcc):
            return Obj(mk("scatter", reify(cur), tuple(reify(x) for x in idx if isinstance(x, V)), reify(val)))
        cur = w
    if isinstance(cur, Tup):
        i = idx[0]
        if isinstance(i, Sc) and len(idx) == 1:
            c = T.as_int(i.t)
            items = list(cur.items)
            if c is not None and -len(items) <= c < len(items):
                items[c] = val
                return Tup(items, cur.lst)
            return Tup([merge(T.eq(i.t, T.const(k)), val, x) for k, x in enumerate(items)], cur.lst)
        a = to_arr(cur)
        if a is None:
            return ob("store into tuple")
        cur = a
    if isinstance(cur, Seq):
        i = idx[0]
        if isinstance(i, Sc) and len(idx) == 1:
            ii = norm_index(i.t, cur.n)
            e0 = cur.fn(ii)
            if isinstance(e0, Arr) and isinstance(val, Arr) and len(e0.dims) == len(val.dims):
                pass
            return Seq(cur.n, lambda k: merge_loose(T.eq(k, ii), val, cur.fn(k)))
        if isinstance(i, Sc):
            ii = norm_index(i.t, cur.n)
            return Seq(cur.n, lambda k: merge_loose(T.eq(k, ii), store(cur.fn(ii), idx[1:], val, L), cur.fn(k)))
        return Obj(mk("scatter", reify(cur), tuple(reify(x) for x in idx if isinstance(x, V)), reify(val)))
    if isinstance(cur, Obj):
        if cur.t.op == "opaque":
            return cur
        for x in list(idx) + [val]:
            if isinstance(x, V) and reify(x).op == "opaque":
                return Obj(reify(x))
        return Obj(
            mk(
                "scatter",
                cur.t,
                tuple(reify(x) if isinstance(x, V) else mk("slice", *[reify(y) if y is not None else NONE for y in x[1:]]) for x in idx),
                reify(val),
            ),
            cur.ty,
        )
    if isinstance(cur, Arr):
        return arr_store(cur, idx, val)
    return ob("store")


def merge_loose(c, a, b):
    """Merge arrays whose dimensions agree semantically (element replaced by one of equal shape)."""
    if isinstance(a, Arr) and isinstance(b, Arr) and a.rank == b.rank:
        return Arr(b.dims, lambda idx: T.ite(c, a.fn(idx), b.fn(idx)), b.nd)
    return merge(c, a, b)


def arr_store(cur, idx, val):
    comps = conv_index(idx, cur.dims)
    if comps is None:
        return Obj(mk("scatter", reify(cur), tuple(reify(x) for x in idx if isinstance(x, V)), reify(val)))
    # full-rank mask
    if len(comps) == 1 and comps[0][0] == "mask" and comps[0][1].rank == cur.rank:
        m = comps[0][1]
        if isinstance(val, Sc):
            return Arr(cur.dims, lambda i: T.ite(m.fn(i), val.t, cur.fn(i)), cur.nd)
        return Obj(mk("scatter", reify(cur), reify(m), reify(val)))
    cs = []
    for c in comps:
        if c[0] == "mask":
            if c[1].rank != 1:
                return Obj(mk("scatter", reify(cur), reify(c[1]), reify(val)))
            cs.append(("maskax", c[1]))
        else:
            cs.append(c)
    comps = [c for c in cs if c[0] != "new"]
    if len(comps) != len(cs):
        return ob("store newaxis")
    nadv = sum(1 for c in comps if c[0] in ("adv", "maskax"))
    if nadv > 1:
        # broadcast advanced indices: only supported when all rank-1 of the same length / ints
        return arr_store_multi(cur, comps, val)
    va = to_arr(val) if not isinstance(val, Sc) else val
    if va is None:
        if isinstance(val, Obj) and val.t.op == "opaque":
            return val
        if isinstance(val, Obj):
            rk = sum(1 for c in comps if c[0] != "int")
            va = Arr([ONE] * 0 + [c[2] if c[0] == "slice" else c[1].dims[0] for c in comps if c[0] != "int"], lambda i: T.el(val.t, i)) if rk else Sc(atom(val.t))
        else:
            return ob("store value")
    vdims = va.dims if isinstance(va, Arr) else []

    def fn(i):
        conds = []
        vi = []
        for k, c in enumerate(comps):
            if c[0] == "int":
                conds.append(T.eq(i[k], c[1]))
            elif c[0] == "slice":
                _, a, n, st = c
                if st == 1:
                    if a is not ZERO:
                        conds.append(T.le(a, i[k]))
                    if not (a is ZERO and n is cur.dims[k]):
                        end = T.add(a, n)
                        if end is not cur.dims[k]:
                            conds.append(T.lt(i[k], end))
                    vi.append(T.sub(i[k], a))
                elif st == -1:
                    vi.append(T.sub(a, i[k]))
                else:
                    conds.append(T.eq(T.mod(T.sub(i[k], a), T.const(st)), ZERO))
                    vi.append(T.floordiv(T.sub(i[k], a), T.const(st)))
            elif c[0] == "adv":
                a = c[1]
                if a.rank != 1:
                    return T.opaque("store adv rank")
                x = T.new_ix(a.dims[0])
                cc = T.eq(a.fn([atom(x)]), i[k])
                conds.append(T.exists([x], cc))
                vi.append(T.first(x, cc, "first"))
            elif c[0] == "maskax":
                m = c[1]
                conds.append(m.fn([i[k]]))
                x = T.new_ix(m.dims[0])
                # rank of i[k] among selected
                y = T.new_ix(i[k])
                vi.append(T.sum_([y], T.ite(m.fn([atom(y)]), ONE, ZERO)))
        c = TRUE
        for q in conds:
            c = T.and_(c, q)
        if isinstance(va, Sc):
            w = va.t
        else:
            w = va.fn(bidx(vdims, vi))
        return T.ite(c, w, cur.fn(i))

    return Arr(cur.dims, fn, cur.nd)


def arr_store_multi(cur, comps, val):
    return Obj(
        mk("scatter", reify(cur), tuple(mk("ix_", *[x if isinstance(x, T.N) else reify(x) if isinstance(x, V) else NONE for x in c[1:]]) for c in comps), reify(val))
    )


# --------------------------------------------------------------------------------------
# lists
def list_append(acc, x, c=TRUE):
    if isinstance(acc, Tup) and c is TRUE:
        return Tup(acc.items + [x], True)
    if isinstance(acc, LAcc):
        return LAcc(acc.base, acc.parts + [("item", c, x)])
    if isinstance(acc, IteV):
        return merge(acc.c, list_append(acc.a, x, c), list_append(acc.b, x, c))
    return LAcc(acc, [("item", c, x)])


def list_extend(acc, x, c=TRUE):
    if isinstance(acc, Tup) and c is TRUE:
        if isinstance(x, Tup):
            return Tup(acc.items + x.items, True)
        if not acc.items:
            return as_list(x)
    if isinstance(acc, LAcc):
        return LAcc(acc.base, acc.parts + [("seq", c, as_list(x))])
    if isinstance(acc, IteV):
        return merge(acc.c, list_extend(acc.a, x, c), list_extend(acc.b, x, c))
    if c is TRUE and isinstance(x, (Tup,)):
        return LAcc(acc, [("item", TRUE, y) for y in x.items])
    return LAcc(acc, [("seq", c, as_list(x))])


def as_list(x):
    """list(x)"""
    def g(x):
        if isinstance(x, Arr):
            if x.rank == 1:
                return Arr(x.dims, x._fn, False, term=x.term)
            return Seq(x.dims[0], lambda i: Arr(x.dims[1:], lambda idx: x.fn([i] + idx), x.nd)) if x.nd else x
        if isinstance(x, Tup):
            return Tup(x.items, True)
        if isinstance(x, Dct):
            return Tup([k for k, _ in x.kv], True)
        return x
    return dist(g, x)


def build_seq(x, n, c, v):
    """[v(x) for x < n if c(x)]"""
    if c is FALSE:
        return Tup([], True)
    cnt, nthf = select(x, c)
    def at(t):
        return subst_v(v, {x: nthf(t)})
    s = mkseq_from(cnt, at, v, x)
    return s


def mkseq_from(n, at, v, x):
    if isinstance(v, Sc):
        return Arr([n], lambda idx: _sc(at(idx[0])), False)
    if isinstance(v, Arr) and not v.nd and not any(x in d.fv for d in v.dims):
        return Arr([n] + v.dims, lambda idx: at(idx[0]).fn(idx[1:]), False)
    return Seq(n, at)


def build_flat(x, n, c, v):
    """[e for x < n if c(x) for e in v(x)]"""
    if isinstance(v, LAcc):
        v = lacc_value(v)
    if isinstance(v, Tup) and not v.items:
        return Tup([], True)
    if isinstance(v, Tup) and len(v.items) == 1:
        return build_seq(x, n, c, v.items[0])
    ty = typeof(v)
    body = reify(v)
    if body.op == "opaque":
        return Obj(body)
    if c is not TRUE:
        body = T.ite(c, body, mk("emptylist"))
    t = T._mk_binder("flatten", [x], [n], body)
    return reflect(ty if ty[0] in ("arr", "seq") else ("seq", ("obj", None)), t)


def mutating_method(cur, meth, args, kwargs, L):
    """-> (new value, return value)"""
    if isinstance(cur, IteV):
        a, ra = mutating_method(cur.a, meth, args, kwargs, L)
        b, rb = mutating_method(cur.b, meth, args, kwargs, L)
        return merge(cur.c, a, b), merge(cur.c, ra, rb)
    if meth == "append" and len(args) == 1:
        return list_append(cur, args[0]), VNONE
    if meth == "extend" and len(args) == 1:
        return list_extend(cur, args[0]), VNONE
    if meth == "clear":
        if isinstance(cur, (Dct, DAcc)):
            return DAcc(None, []), VNONE
        return Tup([], True), VNONE
    if meth == "sort" and is_list(cur):
        return sorted_v(cur, kwargs.get("key"), kwargs.get("reverse"), L), VNONE
    if meth == "reverse" and is_list(cur):
        return reversed_v(cur), VNONE
    if meth == "update" and isinstance(cur, DAcc) and len(args) == 1 and isinstance(args[0], DAcc) and args[0].base is None:
        return DAcc(cur.base, cur.parts + args[0].parts), VNONE
    if meth == "setdefault" and isinstance(cur, DAcc) and len(args) == 2:
        c, v = dict_lookup(cur, args[0])
        return (
            DAcc(cur.base, cur.parts + [("item", T.not_(c), args[0], args[1])]),
            merge(c, v, args[1]),
        )
    if meth == "add" and isinstance(cur, Obj) and cur.t.op == "hcall":
        return Obj(mk("hcall", "setadd", cur.t, reify(args[0]))), VNONE
    return Obj(mk("hcall", "mut:" + meth, reify(cur), tuple(reify(a) for a in args))), Obj(
        mk("hcall", "ret:" + meth, reify(cur), tuple(reify(a) for a in args))
    )


def reversed_v(v):
    return getitem(v, [("slice", None, None, sc_int(-1))], None)


def sorted_v(v, key, reverse, L):
    s = as_seq(v)
    if s is None:
        return hcall("sorted", v)
    n, fn = s
    if key is None and reverse is None:
        t = reify(v)
        if t.op == "hcall" and t.args[0] == "set":
            # ascending elements of a set
            ty = typeof(fn(ZERO))
            if ty[0] == "sc":
                return reflect(("arr", 1, ty[1], False), mk("hcall", "sorted", t))
    x = T.new_ix(n)
    e = fn(atom(x))
    k = e if key is None else L.call(key, [e], {}, None, Env_(), L_frame(L))
    kt = reify(k)
    rv = NONE if reverse is None else reify(reverse)
    if kt.op == "opaque":
        return Obj(kt)
    if x not in kt.fv:
        return mkseq(n, fn)
    P = T._mk_binder("perm", [x], [n], kt, rv)
    return mkseq(n, lambda i: fn(atom(mk("permat", P, i))))


def Env_():
    from .lift import Env

    return Env()


def L_frame(L):
    from .lift import Frame

    f = Frame(L, None, "<key>", 0)
    f.events = []
    f.pc = TRUE
    return f


# --------------------------------------------------------------------------------------
def rng_draw(cur, meth, args, kwargs):
    if meth in ("random", "random_sample", "rand"):
        size = kwargs.get("size", args[0] if args else None)
        if size is None:
            dims = []
        elif isinstance(size, Tup):
            dims = [_sc(x) for x in size.items]
        else:
            dims = [_sc(size)]
        if any(d.op == "opaque" for d in dims):
            return ob("rng size"), Rng(T.add(cur.count, ONE))
        arr = mk("draw", cur.count)
        new = Rng(T.add(cur.count, ONE))
        if not dims:
            return Sc(atom(mk("el", mk("arr", "rng", "real", ()), (cur.count,)))), new
        base = mk("arr", "rng", "real", ())
        return Arr(dims, lambda idx: atom(mk("el", base, (cur.count,) + tuple(idx)))), new
    return Obj(mk("hcall", "rng." + meth, cur.count, *[reify(a) for a in args])), Rng(T.add(cur.count, ONE))


# --------------------------------------------------------------------------------------
# linear algebra
def sum_over(d, f):
    v = T.new_ix(d)
    return T.sum_([v], f(atom(v)))


def matmul(a, b):
    a0, b0 = a, b
    a, b = to_arr(a), to_arr(b)
    if not isinstance(a, Arr) or not isinstance(b, Arr):
        return _obj2("matmul", a0, b0)
    if a.rank == 1 and b.rank == 1:
        return Sc(sum_over(pdim(a.dims[0], b.dims[0]), lambda k: T.mul(a.fn([k]), b.fn([k]))))
    if a.rank == 1:
        return Arr(
            b.dims[:-2] + b.dims[-1:],
            lambda i: sum_over(pdim(a.dims[0], b.dims[-2]), lambda k: T.mul(a.fn([k]), b.fn(i[:-1] + [k] + i[-1:]))),
        )
    if b.rank == 1:
        return Arr(
            a.dims[:-1],
            lambda i: sum_over(pdim(a.dims[-1], b.dims[0]), lambda k: T.mul(a.fn(i + [k]), b.fn([k]))),
        )
    bd = bshape(a.dims[:-2], b.dims[:-2])
    return Arr(
        bd + [a.dims[-2], b.dims[-1]],
        lambda i: sum_over(
            pdim(a.dims[-1], b.dims[-2]),
            lambda k: T.mul(
                a.fn(bidx(a.dims[:-2], i[:-2]) + [i[-2], k]), b.fn(bidx(b.dims[:-2], i[:-2]) + [k, i[-1]])
            ),
        ),
    )


def pdim(a, b):
    """Representative of two dimensions that must agree."""
    if T.as_int(a) is not None:
        return a
    if T.as_int(b) is not None:
        return b
    return a if _dkey(a) <= _dkey(b) else b


def _dkey(d):
    """Preference among sizes that agree: declared sizes, then small terms, then early axes (stable under edits)."""
    n = 0
    for _ in T.subnodes(d):
        n += 1
        if n > 4000:
            break
    x = d.args[0][0][0][0][0] if d.op == "poly" and len(d.args[0]) == 1 and d.args[0][0][0] else d
    axis = x.args[1] if x.op == "dim" and isinstance(x.args[1], int) else 0
    return (len(d.fv), n > 3, n, axis, T.cdg(d))


def dot(a, b):
    x, y = to_arr(a), to_arr(b)
    if isinstance(x, Sc) or isinstance(y, Sc):
        return binop("Mult", a, b)
    if isinstance(x, Arr) and isinstance(y, Arr):
        if x.rank <= 2 and y.rank <= 2:
            return matmul(x, y)
        if y.rank == 1:
            return matmul(x, y)
        return Arr(
            x.dims[:-1] + y.dims[:-2] + y.dims[-1:],
            lambda i: sum_over(
                x.dims[-1],
                lambda k: T.mul(
                    x.fn(i[: x.rank - 1] + [k]),
                    y.fn(i[x.rank - 1 : x.rank - 1 + y.rank - 2] + [k] + i[-1:]),
                ),
            ),
        )
    return _obj2("dot", a, b)


def einsum(args):
    if not args or not (isinstance(args[0], Sc) and args[0].t.op == "str"):
        return None
    spec = args[0].t.args[0].replace(" ", "")
    ops = [to_arr(a) for a in args[1:]]
    if any(o is None or isinstance(o, Obj) for o in ops):
        return None
    lhs, _, rhs = spec.partition("->")
    ins = lhs.split(",")
    if len(ins) != len(ops) or "..." in spec:
        return None
    if "->" not in spec:
        letters = sorted(set(lhs.replace(",", "")))
        rhs = "".join(c for c in letters if lhs.count(c) == 1)
    dims = {}
    for s, o in zip(ins, ops):
        ds = o.dims if isinstance(o, Arr) else []
        if len(s) != len(ds):
            return None
        for ch, d in zip(s, ds):
            if ch in dims:
                dims[ch] = pdim(dims[ch], d)
            else:
                dims[ch] = d
    sumv = [ch for ch in dims if ch not in rhs]
    if any(ch not in dims for ch in rhs):
        return None

    def fn(i):
        env = {ch: i[k] for k, ch in enumerate(rhs)}
        vs = []
        for ch in sumv:
            v = T.new_ix(dims[ch])
            vs.append(v)
            env[ch] = atom(v)
        p = ONE
        for s, o in zip(ins, ops):
            p = T.mul(p, o.fn([env[ch] for ch in s]) if isinstance(o, Arr) else o.t)
        return T.sum_(vs, p) if vs else p

    if not rhs:
        return Sc(fn([]))
    return Arr([dims[ch] for ch in rhs], fn)


def transpose_v(v, axes=None):
    def g(v):
        if isinstance(v, Sc):
            return v
        if isinstance(v, Obj):
            return Obj(mk("hcall", "transpose", v.t, reify(axes) if axes is not None else NONE), v.ty) if v.t.op != "opaque" else v
        a = to_arr(v)
        if a is None:
            return hcall("transpose", v)
        if axes is None or (isinstance(axes, Sc) and axes.t is NONE):
            return Arr(a.dims[::-1], lambda i: a.fn(i[::-1]))
        ax = [T.as_int(x.t) if isinstance(x, Sc) else None for x in axes.items] if isinstance(axes, Tup) else None
        if ax is None or any(x is None for x in ax) or len(ax) != a.rank:
            return hcall("transpose", v, axes)
        ax = [x % a.rank for x in ax]
        inv = [ax.index(k) for k in range(a.rank)]
        return Arr([a.dims[x] for x in ax], lambda i: a.fn([i[inv[k]] for k in range(a.rank)]))

    return dist(g, v)


def swapaxes(v, p, q):
    a = to_arr(v)
    p0, q0 = p, q
    p = T.as_int(p.t) if isinstance(p, Sc) else None
    q = T.as_int(q.t) if isinstance(q, Sc) else None
    if not isinstance(a, Arr) or p is None or q is None:
        return hcall("swapaxes", v, *[Sc(x.t) if isinstance(x, Sc) else x for x in (p0, q0)])
    ax = list(range(a.rank))
    ax[p], ax[q] = ax[q], ax[p]
    return transpose_v(a, Tup([sc_int(x) for x in ax]))


def reshape(v, shape):
    a = to_arr(v)
    shape = [scal(s) for s in shape]
    if isinstance(a, Sc) and shape:
        a = Arr([], lambda i: a.t)
    if not isinstance(a, Arr) or not all(isinstance(s, Sc) for s in shape):
        for s in shape:
            if isinstance(s, Obj) and s.t.op == "opaque":
                return s
        if isinstance(v, Obj):
            ts = tuple(reify(s) for s in shape)
            return Obj(mk("hcall", "reshape", v.t, ts), v.ty) if v.t.op != "opaque" else v
        return hcall("reshape", v, *shape)
    new = [s.t for s in shape]
    total = ONE
    for d in a.dims:
        total = T.mul(total, d)
    neg = [k for k, d in enumerate(new) if T.as_int(d) == -1]
    if neg:
        rest = ONE
        for k, d in enumerate(new):
            if k not in neg:
                rest = T.mul(rest, d)
        new[neg[0]] = T.div(total, rest) if rest is not ONE else total
    old = list(a.dims)
    # greedy grouping
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        if i < len(old) and j < len(new) and old[i] is new[j]:
            groups.append(([i], [j]))
            i += 1
            j += 1
            continue
        if j < len(new) and T.as_int(new[j]) == 1:
            groups.append(([], [j]))
            j += 1
            continue
        if i < len(old) and T.as_int(old[i]) == 1:
            groups.append(([i], []))
            i += 1
            continue
        done = False
        p = ONE
        for k in range(i, len(old)):
            p = T.mul(p, old[k])
            if j < len(new) and p is new[j]:
                groups.append((list(range(i, k + 1)), [j]))
                i, j = k + 1, j + 1
                done = True
                break
        if done:
            continue
        p = ONE
        for k in range(j, len(new)):
            p = T.mul(p, new[k])
            if i < len(old) and p is old[i]:
                groups.append(([i], list(range(j, k + 1))))
                i, j = i + 1, k + 1
                done = True
                break
        if not done:
            x = reify(a)
            t = mk("reshape", x, tuple(new))
            return Arr(new, lambda idx: T.el(t, idx), True, term=t)

    def fn(ni):
        oi = [ZERO] * len(old)
        for og, ng in groups:
            if len(ng) == 1 and len(og) == 1:
                oi[og[0]] = ni[ng[0]]
            elif len(ng) == 1 and len(og) > 1:
                r = ni[ng[0]]
                for k in reversed(og[1:]):
                    oi[k] = T.mod(r, old[k])
                    r = T.floordiv(r, old[k])
                oi[og[0]] = r
            elif len(og) == 1 and len(ng) > 1:
                r = ni[ng[0]]
                for k in ng[1:]:
                    r = T.add(T.mul(r, new[k]), ni[k])
                oi[og[0]] = r
        return a.fn(oi)

    return Arr(new, fn)


def reduce_all(v, kind):
    def g(v):
        if isinstance(v, Sc):
            return Sc(T.truth(v.t))
        if isinstance(v, Obj):
            return v if v.t.op == "opaque" else Obj(mk("hcall", kind, v.t))
        if isinstance(v, Tup):
            r = TRUE if kind == "all" else FALSE
            for x in v.items:
                c = truth_v(x) if not isinstance(x, Arr) else truth_v(reduce_all(x, kind))
                r = T.and_(r, c) if kind == "all" else T.or_(r, c)
            return Sc(r)
        if isinstance(v, Seq):
            x = T.new_ix(v.n)
            c = truth_v(v.fn(atom(x)))
            return Sc(T.forall([x], c) if kind == "all" else T.exists([x], c))
        a = to_arr(v)
        if a is None:
            return hcall(kind, v)
        vs = [T.new_ix(d) for d in a.dims]
        c = T.truth(a.fn([atom(x) for x in vs]))
        return Sc(T.forall(vs, c) if kind == "all" else T.exists(vs, c))

    return dist(g, v)


def axis_of(kw, args, pos):
    a = kw.get("axis", args[pos] if len(args) > pos else None)
    if a is None or (isinstance(a, Sc) and a.t is NONE):
        return None
    return a


def reduce_axis(v, axis, keepdims, one):
    """Reduce along axis with one(dim, f)->term."""
    a = to_arr(v)
    if not isinstance(a, Arr):
        return None
    ax = T.as_int(axis.t) if isinstance(axis, Sc) else None
    if ax is None:
        return None
    ax %= a.rank
    dims = a.dims[:ax] + ([ONE] if keepdims else []) + a.dims[ax + 1 :]

    def fn(i):
        rest = i[:ax] + i[ax + (1 if keepdims else 0) :]
        return one(a.dims[ax], lambda k: a.fn(rest[:ax] + [k] + rest[ax:]))

    if not dims:
        return Sc(fn([]))
    return Arr(dims, fn)


def sum_v(v, axis=None, keepdims=False):
    def g(v):
        if isinstance(v, Sc):
            return v
        if isinstance(v, Obj):
            return v if v.t.op == "opaque" else hcall("sum", v, axis if axis is not None else VNONE, sc_int(int(keepdims)))
        if axis is not None:
            r = reduce_axis(v, axis, keepdims, sum_over)
            return r if r is not None else hcall("sum", v, axis, sc_int(int(keepdims)))
        if isinstance(v, LAcc):
            v2 = lacc_value(v)
            if isinstance(v2, LAcc):
                return hcall("sum", v, VNONE, sc_int(int(keepdims)))
            v = v2
        a = to_arr(v)
        if a is None:
            return hcall("sum", v, VNONE, sc_int(int(keepdims)))
        if isinstance(a, Sc):
            return a
        vs = [T.new_ix(d) for d in a.dims]
        return Sc(T.sum_(vs, a.fn([atom(x) for x in vs])))

    return dist(g, v)


def prod_v(v):
    a = to_arr(v)
    if isinstance(a, Arr) and a.rank == 1:
        n = T.as_int(a.dims[0])
        if n is not None and n <= 8:
            r = ONE
            for k in range(n):
                r = T.mul(r, a.fn([T.const(k)]))
            return Sc(r)
        x = T.new_ix(a.dims[0])
        return Sc(T.prod_(x, a.fn([atom(x)])))
    return hcall("prod", v)


def const_small(n):
    k = T.as_int(n)
    return k if k is not None and k <= 4 else None


def close_cond(x, y, rtol, atol):
    return T.le(T.abs_(T.sub(x, y)), T.add(atol, T.mul(rtol, T.abs_(y))))


def num_arg(v):
    if isinstance(v, Sc):
        return v.t
    if isinstance(v, Arr) and v.rank == 0:
        return v.fn([])
    return None


def isclose(a, b, rtol, atol):
    rt, at = num_arg(rtol), num_arg(atol)
    if rt is None or at is None:
        return hcall("isclose", a, b, rtol, atol)
    return map2(lambda x, y: close_cond(x, y, rt, at), a, b, ("isclose", rt, at))


# --------------------------------------------------------------------------------------
def attribute(v, name, L):
    def g(v):
        if isinstance(v, BI):
            return BI(v.name + "." + name, v.recv)
        if isinstance(v, Obj) and v.t.op == "opaque":
            return v
        if isinstance(v, Obj) and name in FIELDS and v.ty == "dataset":
            return field(v, name)
        if name == "shape":
            d = dims_of(v)
            if d is not None:
                return Tup([Sc(x) for x in d])
            return Obj(mk("shape", reify(v)), ("shape", v))
        if name == "ndim":
            d = dims_of(v)
            return sc_int(len(d)) if d is not None else Obj(mk("hcall", "ndim", reify(v)))
        if name == "size":
            d = dims_of(v)
            if d is not None:
                r = ONE
                for x in d:
                    r = T.mul(r, x)
                return Sc(r)
        if name == "T":
            return transpose_v(v)
        if name == "real":
            return map1(T.real_, v, "real")
        if name == "imag":
            return map1(T.imag_, v, "imag")
        if name in ("dtype",):
            return BI("dtype")
        if isinstance(v, Obj) and isinstance(v.ty, str) and v.ty == "dataset":
            return field(v, name)
        return BI("." + name, v)

    return dist(g, v)


def shape_arg(args, kwargs=None):
    if len(args) == 1 and isinstance(args[0], Tup):
        return args[0].items
    return args


def full(shape, fill, nd=True):
    if isinstance(shape, Tup):
        items = shape.items
    elif isinstance(shape, (Sc,)):
        items = [shape]
    else:
        if isinstance(shape, Obj):
            return Obj(mk("hcall", "full", shape.t, fill))
        return ob("shape")
    dims = [num_arg(scal(x)) for x in items]
    if any(d is None for d in dims):
        return hcall("full", shape, Sc(fill))
    return Arr(dims, lambda idx: fill, nd)


def to_int(t):
    return T.rnd("trunc", T.num_of(t)) if not T.is_int(t) else T.num_of(t)


INT_NAMES = ("int", "int_", "int64", "int32", "intp", "i8", "long")
REAL_NAMES = ("float", "float_", "float64", "double", "f8")


def dtype_sort(dt, default=None):
    """'f' | 'i' | None for a dtype argument."""
    if dt is None or isinstance(dt, Sc) and dt.t is NONE:
        return default
    name = dt.name if isinstance(dt, BI) else (dt.t.args[0] if isinstance(dt, Sc) and dt.t.op == "str" else "")
    tail = name.split(".")[-1]
    return "i" if tail in INT_NAMES else "f" if tail in REAL_NAMES else None


def cast_term(t, dt):
    if t.op == "ite":
        return T.ite(T.cond_atom(t.args[0]), cast_term(t.args[1], dt), cast_term(t.args[2], dt))
    if t.op != "poly":
        return t
    if T.known_complex(t):
        t = T.real_(t)
    if dt == "i" and T.is_real(t) and not T.is_int(t):
        t = to_int(t)
    return t


def cast_store(v, dt):
    """A value as an array of element type dt keeps it."""
    if dt is None or isinstance(v, Obj):
        return v
    if isinstance(v, Sc):
        return Sc(cast_term(v.t, dt))
    if isinstance(v, Arr):
        return Arr(v.dims, lambda idx: cast_term(v.fn(idx), dt), v.nd)
    return v


def full_of(shape, fill, dt):
    r = full(shape, fill)
    if isinstance(r, Arr):
        r.dt = dt
    return r


def astype(v, dt):
    name = dt.name if isinstance(dt, BI) else (dt.t.args[0] if isinstance(dt, Sc) and dt.t.op == "str" else "")
    tail = name.split(".")[-1]
    if tail in INT_NAMES:
        return map1(to_int, v, "toint")
    if tail in ("float", "float_", "float64", "double", "complex", "complex_", "complex128", "cdouble", "dtype", "intc"):
        if isinstance(v, Obj):
            return v
        r = map1(T.num_of, v, "tonum")
        return cast_store(r, "f") if tail in REAL_NAMES else r
    if tail in ("bool", "bool_"):
        return map1(T.truth, v, "tobool")
    return hcall("astype:" + tail, v)


def array_copy(v, dt=None):
    """np.array(v, dtype)"""
    def g(v):
        if isinstance(v, Obj):
            return v
        a = to_arr(v)
        if a is None:
            w = lacc_value(v) if isinstance(v, LAcc) else v
            return Obj(mk("hcall", "array", reify(w))) if reify(w).op != "opaque" else Obj(reify(w))
        if isinstance(a, Sc):
            return a
        return Arr(a.dims, a._fn, True, term=a.term)

    r = dist(g, v)
    if dt is not None:
        r = astype(r, dt)
    return r


# --------------------------------------------------------------------------------------
def arg(args, kwargs, pos, name, default=None):
    if name in kwargs:
        return kwargs[name]
    if pos < len(args):
        return args[pos]
    return default


RT = Sc(T.const(1e-5))
AT = Sc(T.const(1e-8))


# what the models below understand, besides the first positional arguments; anything else leaves the call uninterpreted
_IDLE_KW = {"dtype", "optimize", "copy", "order"}
_KW = {
    "allclose": {"rtol", "atol"}, "isclose": {"rtol", "atol"}, "around": {"decimals"}, "round": {"decimals"}, "round_": {"decimals"},
    "sum": {"axis", "keepdims"}, "mean": {"axis"}, "prod": {"axis"}, "all": {"axis"}, "any": {"axis"}, "max": {"axis"}, "min": {"axis"},
    "amax": {"axis"}, "amin": {"axis"}, "transpose": {"axes"}, "tensordot": {"axes"}, "trace": {"axis1", "axis2"}, "zeros": {"shape"},
    "empty": {"shape"}, "ones": {"shape"}, "full": {"shape", "fill_value"}, "meshgrid": {"indexing"}, "take": {"axis"},
    "clip": {"a_min", "a_max", "min", "max"}, "concatenate": {"axis"}, "vstack": set(), "stack": {"axis"}, "linalg.norm": {"axis", "keepdims", "ord"},
    "linalg.svd": {"compute_uv"}, "random.default_rng": {"seed"}, "random.RandomState": {"seed"}, "expand_dims": {"axis"}, "linalg.qr": set(),
    "tile": {"reps"}, "repeat": {"repeats", "axis"}, "flip": {"axis"}, "roll": {"shift", "axis"}, "argsort": {"kind", "axis"},
}
_POS = {"array": 2, "asarray": 2, "sum": 2, "mean": 2, "prod": 2, "all": 2, "any": 2, "conj": 1, "transpose": 2, "eye": 2, "zeros": 2, "ones": 2, "concatenate": 2, "stack": 2,
        "linalg.eigh": 1, "linalg.eig": 1, "linalg.qr": 1, "linalg.inv": 1, "linalg.det": 1, "linalg.norm": 3, "allclose": 4, "isclose": 4, "ravel": 1, "clip": 3, "flip": 2, "roll": 3, "tile": 2, "repeat": 3, "argsort": 1, "hstack": 1, "vstack": 1, "broadcast_to": 2}


def understood(short, args, kwargs):
    ok = _IDLE_KW | _KW.get(short, set())
    if short in ("ravel", "reshape", "flatten"):
        ok -= {"order"}
    return all(k in ok for k in kwargs) and len(args) <= _POS.get(short, 99)


def call(L, f, args, kwargs, n, env, fr):
    name = f.name
    if name.startswith("."):
        return method(L, f.recv, name[1:], args, kwargs, n, env, fr)
    if name.startswith("numpy."):
        short = name[len("numpy.") :]
        h = NP.get(short)
        if h is not None and understood(short, args, kwargs):
            r = h(L, args, kwargs)
            if r is not None:
                return r
        return generic(name, args, kwargs)
    h = PY.get(name)
    if h is not None:
        r = h(L, args, kwargs, n, env, fr)
        if r is not None:
            return r
    e = L.ext.get(name)
    if e is not None:
        return e(args, kwargs)
    if name in ("warnings.warn",):
        from .lift import Event

        fr.events.append(Event("warn", "", fr.pc, getattr(n, "lineno", 0)))
        return VNONE
    return generic(name, args, kwargs)


def generic(name, args, kwargs):
    ts = [reify(a) for a in args] + [reify(v) for _, v in sorted(kwargs.items())]
    for t in ts:
        if t.op == "opaque":
            return Obj(t)
    kws = tuple((k, reify(v)) for k, v in sorted(kwargs.items()))
    return Obj(mk("hcall", name, tuple(reify(a) for a in args), kws))


def method(L, v, name, args, kwargs, n, env, fr):
    if isinstance(v, IteV):
        return merge(v.c, method(L, v.a, name, args, kwargs, n, env, fr), method(L, v.b, name, args, kwargs, n, env, fr))
    if isinstance(v, Obj) and v.t.op == "opaque":
        return v
    if isinstance(v, LAcc):
        v = lacc_value(v)
    if name == "copy" and not isinstance(v, (Sc,)):
        return v
    if name in ("astype",):
        return astype(v, args[0] if args else kwargs.get("dtype"))
    if name == "tolist":
        a = to_arr(v)
        if isinstance(a, Arr):
            return Arr(a.dims, a._fn, False, term=a.term)
        return v
    if name == "item" and not args:
        return v if isinstance(v, Sc) else ob("item")
    if name == "get" and isinstance(v, (Dct, DAcc)):
        c, w = dict_lookup(v, args[0])
        d = args[1] if len(args) > 1 else VNONE
        return merge(c, w, d)
    if name == "items" and isinstance(v, Dct):
        return Tup([Tup([k, x]) for k, x in v.kv], True)
    if name == "keys" and isinstance(v, Dct):
        return Tup([k for k, _ in v.kv], True)
    if name == "values" and isinstance(v, Dct):
        return Tup([x for _, x in v.kv], True)
    if name in ("issubset", "issuperset") and len(args) == 1 and not kwargs:
        x, y = (v, args[0]) if name == "issubset" else (args[0], v)
        bx, by = entries_of(x), entries_of(y)
        if bx is not None and by is not None:
            i, j = T.new_ix(bx[0]), T.new_ix(by[0])
            return Sc(T.forall([i], T.exists([j], eq_v(Sc(bx[1](atom(i))), Sc(by[1](atom(j)))))))
    if name == "index" and not isinstance(v, Sc):
        s = as_seq(v)
        if s is not None and len(args) == 1:
            if T.as_int(s[0]) == 0:
                L.raise_event(fr, "ValueError", T.TRUE, n, env, True)
                return sc_int(0)
            x = T.new_ix(s[0])
            c = eq_v(s[1](atom(x)), args[0])
            if c.op == "opaque":
                return Obj(c)
            L.raise_event(fr, "ValueError", T.not_(T.exists([x], c)), n, env, True)
            return Sc(T.first(x, c))
    if name == "count" and len(args) == 1 and not isinstance(v, Sc):
        s = as_seq(v)
        if s is not None:
            x = T.new_ix(s[0])
            return Sc(T.sum_([x], T.ite(eq_v(s[1](atom(x)), args[0]), ONE, ZERO)))
    if name in ("format",):
        return sstr("<str>")
    if name in ("startswith", "endswith", "lstrip", "strip", "replace", "split", "lower", "upper") and isinstance(v, Sc):
        if name == "startswith" and len(args) == 1:
            w = args[0].elts if isinstance(args[0], Tup) else [args[0]]
            if w and all(isinstance(x, Sc) and x.t.op == "str" and x.t.args[0] for x in w):
                r = FALSE
                for x in w:
                    y = TRUE
                    for i, ch in enumerate(x.t.args[0]):
                        y = T.and_(y, eq_v(str_item(v, [sc_int(i)]), sstr(ch)))
                    r = T.or_(r, y)
                return Sc(r)
        return generic("str." + name, [v] + args, kwargs)
    if name in ("dot",):
        return dist(dot, v, args[0])
    if name == "transpose":
        return transpose_v(v, (args[0] if isinstance(args[0], Tup) else Tup(args)) if args else None)
    if name in ("conj", "conjugate"):
        return map1(T.conj, v, "conj")
    if name in ("reshape",) and not kwargs:
        return reshape(v, shape_arg(args))
    if name in ("flatten", "ravel") and not args and not kwargs:
        return reshape(v, [sc_int(-1)])
    if name == "swapaxes":
        return swapaxes(v, args[0], args[1])
    if name in ("sum", "all", "any", "trace", "mean", "max", "min", "prod", "round", "nonzero", "diagonal", "clip", "argsort", "argmax", "argmin"):
        h = NP.get(name)
        if h and understood(name, [v] + args, kwargs):
            r = h(L, [v] + args, kwargs)
            if r is not None:
                return r
        return generic("numpy." + name, [v] + args, kwargs)
    return generic("." + name, [v] + args, kwargs)


# ------------------------------------------------------------------ numpy table
NP: dict = {}


def np_(*names):
    def deco(f):
        for x in names:
            NP[x] = f
        return f

    return deco


def _el1(name, f):
    @np_(name)
    def g(L, a, k, f=f, name=name):
        if len(a) >= 1 and "out" not in k and "where" not in k:
            return map1(f, a[0], name)


for _n, _f in {
    "conj": T.conj,
    "conjugate": T.conj,
    "exp": T.exp_,
    "cos": lambda t: T.fun1("cos", t),
    "sin": lambda t: T.fun1("sin", t),
    "arccos": lambda t: T.fun1("arccos", t),
    "arcsin": lambda t: T.fun1("arcsin", t),
    "tan": lambda t: T.fun1("tan", t),
    "sqrt": lambda t: T.power(t, Fr(1, 2)),
    "abs": T.abs_,
    "absolute": T.abs_,
    "real": T.real_,
    "imag": T.imag_,
    "rint": lambda t: T.rnd("rint", t),
    "floor": lambda t: T.rnd("floor", t),
    "ceil": lambda t: T.rnd("ceil", t),
    "trunc": lambda t: T.rnd("trunc", t),
    "angle": lambda t: T.fun1("angle", t),
    "square": lambda t: T.mul(t, t),
    "negative": T.neg,
    "sign": lambda t: T.fun1("sign", t),
    "logical_not": T.not_,
    "int_": to_int,
    "int64": to_int,
    "int32": to_int,
    "float_": T.num_of,
    "float64": T.num_of,
    "complex_": T.num_of,
    "complex128": T.num_of,
    "bool_": T.truth,
    "log": lambda t: T.fun1("log", t),
    "reciprocal": T.recip,
}.items():
    _el1(_n, _f)


def _el2(name, f):
    @np_(name)
    def g(L, a, k, f=f, name=name):
        if len(a) == 2:
            return map2(f, a[0], a[1], name)


for _n, _f in {
    "remainder": T.mod,
    "mod": T.mod,
    "fmod": lambda x, y: T.sub(x, T.mul(y, T.rnd("trunc", T.div(x, y)))),
    "add": T.add,
    "subtract": T.sub,
    "multiply": T.mul,
    "divide": T.div,
    "true_divide": T.div,
    "power": T.pow_term,
    "arctan2": lambda x, y: T.funn_ordered("arctan2", x, y),
    "minimum": lambda x, y: T.funn("min", x, y),
    "maximum": lambda x, y: T.funn("max", x, y),
    "equal": T.eq,
    "not_equal": lambda x, y: T.not_(T.eq(x, y)),
    "less": T.lt,
    "less_equal": T.le,
    "greater": lambda x, y: T.lt(y, x),
    "greater_equal": lambda x, y: T.le(y, x),
    "logical_and": lambda x, y: T.and_(T.truth(x), T.truth(y)),
    "logical_or": lambda x, y: T.or_(T.truth(x), T.truth(y)),
    "logical_xor": lambda x, y: T.not_(T.eq(T.truth(x), T.truth(y))),
}.items():
    _el2(_n, _f)


@np_("around", "round", "round_")
def _around(L, a, k):
    dec = arg(a, k, 1, "decimals")
    if dec is None or (isinstance(dec, Sc) and T.as_int(dec.t) == 0):
        return map1(round_c, a[0], "rint")
    return hcall("around", a[0], dec)


def round_c(t):
    return T.rnd("rint", t)


@np_("dot")
def _dot(L, a, k):
    return dist(dot, a[0], a[1])


@np_("matmul")
def _matmul(L, a, k):
    return dist(matmul, a[0], a[1])


@np_("vdot")
def _vdot(L, a, k):
    return dist(lambda x, y: dot(map1(T.conj, x), y), a[0], a[1])


@np_("inner")
def _inner(L, a, k):
    x, y = to_arr(a[0]), to_arr(a[1])
    if isinstance(x, Arr) and isinstance(y, Arr) and x.rank == 1 == y.rank:
        return dot(x, y)


@np_("outer")
def _outer(L, a, k):
    x, y = to_arr(a[0]), to_arr(a[1])
    if isinstance(x, Arr) and isinstance(y, Arr) and x.rank == 1 == y.rank:
        return Arr(x.dims + y.dims, lambda i: T.mul(x.fn(i[:1]), y.fn(i[1:])))


@np_("kron")
def _kron(L, a, k):
    x, y = to_arr(a[0]), to_arr(a[1])
    if isinstance(x, Arr) and isinstance(y, Arr) and x.rank == 2 == y.rank:
        return Arr(
            [T.mul(p, q) for p, q in zip(x.dims, y.dims)],
            lambda i: T.mul(
                x.fn([T.floordiv(i[0], y.dims[0]), T.floordiv(i[1], y.dims[1])]),
                y.fn([T.mod(i[0], y.dims[0]), T.mod(i[1], y.dims[1])]),
            ),
        )


@np_("einsum")
def _einsum(L, a, k):
    r = None
    if not any(isinstance(x, IteV) for x in a):
        r = einsum(a)
    if r is not None:
        return r
    ts = [reify(x) for x in a]
    for t in ts:
        if t.op == "opaque":
            return Obj(t)
    return Obj(mk("hcall", "numpy.einsum", tuple(ts)), ("arr", "complex"))


@np_("tensordot")
def _tensordot(L, a, k):
    x, y = to_arr(a[0]), to_arr(a[1])
    axes = arg(a, k, 2, "axes")
    if isinstance(x, Arr) and isinstance(y, Arr) and axes is not None:
        if isinstance(axes, Sc):
            m = T.as_int(axes.t)
            if m is None:
                return None
            ax, ay = list(range(x.rank - m, x.rank)), list(range(m))
        else:
            if not isinstance(axes, Tup) or len(axes.items) != 2:
                return None
            def lst(q):
                if isinstance(q, Sc):
                    return [T.as_int(q.t)]
                return [T.as_int(z.t) for z in q.items]
            ax, ay = lst(axes.items[0]), lst(axes.items[1])
            if None in ax or None in ay:
                return None
            ax = [z % x.rank for z in ax]
            ay = [z % y.rank for z in ay]
        fx = [z for z in range(x.rank) if z not in ax]
        fy = [z for z in range(y.rank) if z not in ay]
        dims = [x.dims[z] for z in fx] + [y.dims[z] for z in fy]

        def fn(i):
            vs = [T.new_ix(x.dims[z]) for z in ax]
            xi = [None] * x.rank
            yi = [None] * y.rank
            for q, z in enumerate(fx):
                xi[z] = i[q]
            for q, z in enumerate(fy):
                yi[z] = i[len(fx) + q]
            for v, zx, zy in zip(vs, ax, ay):
                xi[zx] = atom(v)
                yi[zy] = atom(v)
            return T.sum_(vs, T.mul(x.fn(xi), y.fn(yi)))

        return Arr(dims, fn) if dims else Sc(fn([]))


@np_("trace")
def _trace(L, a, k):
    def g(v):
        x = to_arr(v)
        if isinstance(x, Arr) and x.rank == 2 and len(a) == 1 and not k:
            return Sc(sum_over(pdim(x.dims[0], x.dims[1]), lambda i: x.fn([i, i])))
        if isinstance(x, Arr) and x.rank == 3:
            p, q = arg(a, k, 2, "axis1"), arg(a, k, 3, "axis2")
            if isinstance(p, Sc) and isinstance(q, Sc) and {(T.as_int(p.t) or 0) % 3, (T.as_int(q.t) or 0) % 3} == {1, 2}:
                return Arr(x.dims[:1], lambda i: sum_over(pdim(x.dims[1], x.dims[2]), lambda j: x.fn([i[0], j, j])))
        p, q = arg(a, k, 2, "axis1"), arg(a, k, 3, "axis2")
        if isinstance(p, Sc) and isinstance(q, Sc) and {T.as_int(p.t), T.as_int(q.t)} in ({1, 2}, {-1, -2}):
            return hcall("numpy.einsum", sstr("ijj->i"), v)
        return hcall("trace", v)

    return dist(g, a[0])


@np_("diag")
def _diag(L, a, k):
    x = to_arr(a[0])
    if isinstance(x, Arr) and len(a) == 1 and not k:
        if x.rank == 1:
            return Arr([x.dims[0], x.dims[0]], lambda i: T.ite(T.eq(i[0], i[1]), x.fn([i[0]]), ZERO))
        if x.rank == 2:
            return Arr([x.dims[0]], lambda i: x.fn([i[0], i[0]]))


@np_("diagonal")
def _diagonal(L, a, k):
    x = to_arr(a[0])
    if isinstance(x, Arr) and x.rank == 2 and len(a) == 1 and not k:
        return Arr([x.dims[0]], lambda i: x.fn([i[0], i[0]]))


@np_("eye", "identity")
def _eye(L, a, k):
    n = num_arg(scal(a[0]))
    if n is None or len(a) > 1:
        return None
    return Arr([n, n], lambda i: T.ite(T.eq(i[0], i[1]), ONE, ZERO), dt=dtype_sort(k.get("dtype"), "f"))


@np_("zeros", "empty")
def _zeros(L, a, k):
    sh = arg(a, k, 0, "shape")
    dt = arg(a, k, 1, "dtype")
    fill = FALSE if isinstance(dt, BI) and dt.name.split(".")[-1] in ("bool", "bool_") else ZERO
    return full_of(sh, fill, dtype_sort(dt, "f"))


@np_("ones")
def _ones(L, a, k):
    dt = arg(a, k, 1, "dtype")
    fill = TRUE if isinstance(dt, BI) and dt.name.split(".")[-1] in ("bool", "bool_") else ONE
    return full_of(arg(a, k, 0, "shape"), fill, dtype_sort(dt, "f"))


@np_("full")
def _full(L, a, k):
    fv = arg(a, k, 1, "fill_value")
    if isinstance(fv, Sc):
        return full_of(arg(a, k, 0, "shape"), fv.t, dtype_sort(arg(a, k, 2, "dtype")))


def like_sort(x, dt):
    if dt is not None:
        return dtype_sort(dt)
    if isinstance(x, Arr) and x.dt is not None:
        return x.dt
    ty = typeof(x)
    return {"int": "i", "real": "f"}.get(ty[2]) if ty[0] == "arr" and isinstance(x, Arr) and x.term is not None else None


@np_("zeros_like", "empty_like")
def _zeros_like(L, a, k):
    d = dims_of(a[0])
    if d is None:
        if reify(a[0]).op == "opaque":
            return a[0]
        return full(attribute(a[0], "shape", L), ZERO)
    return Arr(d, lambda i: ZERO, dt=like_sort(a[0], arg(a, k, 1, "dtype")))


@np_("ones_like")
def _ones_like(L, a, k):
    d = dims_of(a[0])
    if d is not None:
        return Arr(d, lambda i: ONE)


@np_("arange")
def _arange(L, a, k):
    return range_v(a)


def range_v(a):
    ts = [num_arg(scal(x)) for x in a]
    if any(t is None for t in ts):
        for x in a:
            if isinstance(x, Obj) and x.t.op == "opaque":
                return x
        return None
    if len(ts) == 1:
        return Arr([ts[0]], lambda i: i[0], True)
    if len(ts) >= 2:
        st = ONE if len(ts) == 2 else ts[2]
        c = T.as_int(st)
        if c == 1:
            return Arr([T.sub(ts[1], ts[0])], lambda i: T.add(ts[0], i[0]), True)
        if c == -1:
            return Arr([T.sub(ts[0], ts[1])], lambda i: T.sub(ts[0], i[0]), True)
        if c is not None and c > 0:
            return Arr(
                [T.rnd("ceil", T.div(T.sub(ts[1], ts[0]), st))], lambda i: T.add(ts[0], T.mul(st, i[0])), True
            )
    return None


@np_("array", "asarray", "asanyarray", "ascontiguousarray", "copy")
def _array(L, a, k):
    return array_copy(a[0], arg(a, k, 1, "dtype"))


@np_("transpose")
def _transpose(L, a, k):
    return transpose_v(a[0], arg(a, k, 1, "axes"))


@np_("swapaxes")
def _swapaxes(L, a, k):
    return swapaxes(a[0], a[1], a[2])


@np_("moveaxis")
def _moveaxis(L, a, k):
    x = to_arr(a[0])
    s, d = (T.as_int(z.t) if isinstance(z, Sc) else None for z in a[1:3])
    if isinstance(x, Arr) and s is not None and d is not None:
        order = [z for z in range(x.rank) if z != s % x.rank]
        order.insert(d % x.rank, s % x.rank)
        return transpose_v(x, Tup([sc_int(z) for z in order]))


@np_("reshape")
def _reshape(L, a, k):
    return reshape(a[0], shape_arg(a[1:]))


@np_("ravel")
def _ravel(L, a, k):
    return reshape(a[0], [sc_int(-1)])


@np_("sum")
def _sum(L, a, k):
    kd = k.get("keepdims")
    return sum_v(a[0], axis_of(k, a, 1), kd is not None and isinstance(kd, Sc) and kd.t is TRUE)


@np_("count_nonzero")
def _cnz(L, a, k):
    if len(a) == 1 and not k:
        return sum_v(map1(lambda t: T.num_of(T.truth(t)), a[0]))


@np_("mean")
def _mean(L, a, k):
    ax = axis_of(k, a, 1)
    x = to_arr(a[0])
    if isinstance(x, Arr) and ax is None:
        n = ONE
        for d in x.dims:
            n = T.mul(n, d)
        return map1(lambda t: T.div(t, n), sum_v(x))
    if isinstance(x, Arr) and isinstance(ax, Sc) and T.as_int(ax.t) is not None:
        kd = k.get("keepdims")
        n = x.dims[T.as_int(ax.t) % x.rank]
        return map1(lambda t: T.div(t, n), sum_v(x, ax, kd is not None and isinstance(kd, Sc) and kd.t is TRUE))


@np_("prod")
def _prod(L, a, k):
    if axis_of(k, a, 1) is None:
        return prod_v(a[0])


@np_("all")
def _all(L, a, k):
    ax = axis_of(k, a, 1)
    if ax is None:
        return reduce_all(a[0], "all")
    return reduce_axis(a[0], ax, False, lambda d, f: _q(d, f, T.forall))


@np_("any")
def _any(L, a, k):
    ax = axis_of(k, a, 1)
    if ax is None:
        return reduce_all(a[0], "any")
    return reduce_axis(a[0], ax, False, lambda d, f: _q(d, f, T.exists))


def _q(d, f, Q):
    v = T.new_ix(d)
    return Q([v], T.truth(f(atom(v))))


def _extr(name):
    @np_(name, "a" + name)
    def g(L, a, k):
        ax = axis_of(k, a, 1)
        x = to_arr(a[0])
        if isinstance(x, Arr) and ax is None and len(a) == 1:
            vs = [T.new_ix(d) for d in x.dims]
            return Sc(T.extremum(name + "_over", vs, x.fn([atom(v) for v in vs])))


_extr("max")
_extr("min")


@np_("allclose")
def _allclose(L, a, k):
    r = isclose(a[0], a[1], arg(a, k, 2, "rtol", RT), arg(a, k, 3, "atol", AT))
    return reduce_all(r, "all")


@np_("isclose")
def _isclose(L, a, k):
    return isclose(a[0], a[1], arg(a, k, 2, "rtol", RT), arg(a, k, 3, "atol", AT))


@np_("array_equal")
def _array_equal(L, a, k):
    return Sc(eq_v(a[0], a[1]))


@np_("isscalar", "iscomplexobj", "isrealobj")
def _isx(L, a, k):
    return None


@np_("where")
def _where(L, a, k):
    if len(a) == 3:
        c = a[0]
        def g(c, x, y):
            c, x, y = [to_arr(z) for z in (c, x, y)]
            if any(z is None for z in (c, x, y)):
                return hcall("where", *a)
            dims = []
            for z in (c, x, y):
                dims = bshape(dims, z.dims if isinstance(z, Arr) else [])
            def at(z, i):
                return z.t if isinstance(z, Sc) else z.fn(bidx(z.dims, i))
            f = lambda i: T.ite(T.truth(at(c, i)), at(x, i), at(y, i))
            return Arr(dims, f) if dims else Sc(f([]))
        return dist(g, *a)
    if len(a) == 1:
        return _nonzero(L, a, k)


@np_("nonzero", "flatnonzero")
def _nonzero(L, a, k):
    x = to_arr(a[0])
    if isinstance(x, Arr) and x.rank == 1:
        v = T.new_ix(x.dims[0])
        c = T.truth(x.fn([atom(v)]))
        n, f = select(v, c)
        return Tup([Arr([n], lambda i: f(i[0]))])


NP["flatnonzero"] = lambda L, a, k: (lambda r: r.items[0] if r is not None else None)(_nonzero(L, a, k))


@np_("argwhere")
def _argwhere(L, a, k):
    return None


@np_("meshgrid")
def _meshgrid(L, a, k):
    xs = [to_arr(PY_range(z)) for z in a]
    if len(xs) == 2 and all(isinstance(z, Arr) and z.rank == 1 for z in xs):
        ij = k.get("indexing")
        if ij is not None and isinstance(ij, Sc) and ij.t.op == "str" and ij.t.args[0] == "ij":
            d = [xs[0].dims[0], xs[1].dims[0]]
            return Tup([Arr(d, lambda i: xs[0].fn([i[0]])), Arr(d, lambda i: xs[1].fn([i[1]]))])
        d = [xs[1].dims[0], xs[0].dims[0]]
        return Tup([Arr(d, lambda i: xs[0].fn([i[1]])), Arr(d, lambda i: xs[1].fn([i[0]]))])


def PY_range(z):
    return z


@np_("ix_")
def _ix(L, a, k):
    xs = [to_arr(z) for z in a]
    if all(isinstance(z, Arr) and z.rank == 1 for z in xs):
        n = len(xs)
        out = []
        for q, z in enumerate(xs):
            dims = [ONE] * n
            dims[q] = z.dims[0]
            out.append(Arr(dims, lambda i, q=q, z=z: z.fn([i[q]])))
        return Tup(out)


@np_("take")
def _take(L, a, k):
    ax = axis_of(k, a, 2)
    x = to_arr(a[0])
    if isinstance(x, Arr) and ax is not None and T.as_int(ax.t) is not None:
        p = T.as_int(ax.t) % x.rank
        return getitem(x, [("slice", None, None, None)] * p + [a[1]], L)


@np_("clip")
def _clip(L, a, k):
    lo = arg(a, k, 1, "a_min", k.get("min"))
    hi = arg(a, k, 2, "a_max", k.get("max"))
    v = a[0]
    if lo is not None and not (isinstance(lo, Sc) and lo.t is NONE):
        v = map2(lambda x, y: T.funn("max", x, y), v, lo, "max")
    if hi is not None and not (isinstance(hi, Sc) and hi.t is NONE):
        v = map2(lambda x, y: T.funn("min", x, y), v, hi, "min")
    return v


def join(xs, p=0):
    """Arrays joined along axis p."""
    if not xs or not all(isinstance(z, Arr) and z.rank == xs[0].rank for z in xs) or not -xs[0].rank <= p < xs[0].rank:
        return None
    p %= xs[0].rank
    n = ZERO
    offs = []
    for z in xs:
        offs.append(n)
        n = T.add(n, z.dims[p])

    def fn(i):
        at = lambda q: xs[q].fn(list(i[:p]) + [T.sub(i[p], offs[q])] + list(i[p + 1 :]))
        r = at(len(xs) - 1)
        for q in range(len(xs) - 2, -1, -1):
            r = T.ite(T.lt(i[p], offs[q + 1]), at(q), r)
        return r

    return Arr(xs[0].dims[:p] + [n] + xs[0].dims[p + 1 :], fn)


@np_("hstack")
def _hstack(L, a, k):
    if isinstance(a[0], Tup):
        xs = [to_arr(z) for z in a[0].items]
        if xs and all(isinstance(z, Arr) for z in xs):
            return join(xs, 0 if xs[0].rank == 1 else 1)


def int_list(v):
    """A literal integer or tuple of integers."""
    items = v.items if isinstance(v, Tup) else [v]
    r = [T.as_int(z.t) if isinstance(z, Sc) else None for z in items]
    return None if any(z is None for z in r) else r


@np_("tile")
def _tile(L, a, k):
    x, reps = to_arr(a[0]), arg(a, k, 1, "reps")
    rs = [z for z in (reps.items if isinstance(reps, Tup) else [reps])]
    if not isinstance(x, Arr) or not rs or not all(isinstance(z, Sc) for z in rs):
        return None
    n = max(x.rank, len(rs))
    dims = [ONE] * (n - x.rank) + list(x.dims)
    ts = [ONE] * (n - len(rs)) + [z.t for z in rs]

    def fn(i):
        return x.fn([T.mod(z, d) if t is not ONE else z for z, d, t in zip(i, dims, ts)][n - x.rank :])

    return Arr([T.mul(d, t) for d, t in zip(dims, ts)], fn)


@np_("repeat")
def _repeat(L, a, k):
    x, ax, reps = to_arr(a[0]), axis_of(k, a, 2), arg(a, k, 1, "repeats")
    if not isinstance(x, Arr) or not isinstance(reps, Sc):
        return None
    p = 0 if ax is None and x.rank == 1 else T.as_int(ax.t) if isinstance(ax, Sc) else None
    if p is None or not -x.rank <= p < x.rank:
        return None
    p %= x.rank
    return Arr(x.dims[:p] + [T.mul(x.dims[p], reps.t)] + x.dims[p + 1 :], lambda i: x.fn(list(i[:p]) + [T.floordiv(i[p], reps.t)] + list(i[p + 1 :])))


@np_("flipud")
def _flipud(L, a, k):
    return _flip(L, [a[0], sc_int(0)], {})


@np_("fliplr")
def _fliplr(L, a, k):
    return _flip(L, [a[0], sc_int(1)], {})


@np_("flip")
def _flip(L, a, k):
    x, ax = to_arr(a[0]), axis_of(k, a, 1)
    ps = int_list(ax) if ax is not None else None
    if not isinstance(x, Arr) or (ps is None and ax is not None):
        return None
    ps = {z % x.rank for z in ps} if ps is not None else set(range(x.rank))
    return Arr(x.dims, lambda i: x.fn([T.sub(T.sub(x.dims[q], ONE), z) if q in ps else z for q, z in enumerate(i)]))


@np_("roll")
def _roll(L, a, k):
    x, ax, sh = to_arr(a[0]), axis_of(k, a, 2), arg(a, k, 1, "shift")
    if not isinstance(x, Arr) or not isinstance(sh, Sc):
        return None
    p = 0 if ax is None and x.rank == 1 else T.as_int(ax.t) if isinstance(ax, Sc) else None
    if p is None or not -x.rank <= p < x.rank:
        return None
    p %= x.rank
    return Arr(x.dims, lambda i: x.fn([T.mod(T.sub(z, sh.t), x.dims[p]) if q == p else z for q, z in enumerate(i)]))


@np_("broadcast_to")
def _broadcast_to(L, a, k):
    d = shape_arg([a[1]]) if len(a) == 2 else None
    x = to_arr(a[0])
    if d is None or not isinstance(x, Arr) or not all(isinstance(z, Sc) for z in d) or len(d) < x.rank:
        return None
    off = len(d) - x.rank
    return Arr([z.t for z in d], lambda i: x.fn([ZERO if x.dims[q] is ONE else z for q, z in enumerate(i[off:])]))


@np_("concatenate", "vstack")
def _concatenate(L, a, k):
    ax = axis_of(k, a, 1)
    if ax is not None and not (isinstance(ax, Sc) and T.as_int(ax.t) == 0) or (ax is None and ("axis" in k or len(a) > 1)):
        p = T.as_int(ax.t) if isinstance(ax, Sc) else None
        return join([to_arr(z) for z in a[0].items], p) if p is not None and isinstance(a[0], Tup) else None
    v = a[0]
    if isinstance(v, Tup):
        r = join([to_arr(z) for z in v.items])
        if r is not None:
            return r
    x = to_arr(v)
    if isinstance(x, Arr) and x.rank >= 2:
        return reshape(x, [Sc(T.mul(x.dims[0], x.dims[1]))] + [Sc(d) for d in x.dims[2:]])


@np_("stack")
def _stack(L, a, k):
    ax = axis_of(k, a, 1)
    if ax is None or (isinstance(ax, Sc) and T.as_int(ax.t) == 0):
        return array_copy(a[0])
    p = T.as_int(ax.t) if isinstance(ax, Sc) else None
    x = to_arr(a[0])
    if p is not None and isinstance(x, Arr) and -x.rank <= p < x.rank:
        p %= x.rank
        order = list(range(1, x.rank))
        order.insert(p, 0)
        return transpose_v(x, Tup([sc_int(z) for z in order]))


def _ufn(name, v, outs):
    """Uninterpreted matrix function with typed outputs [(rank, sort)] sharing the matrix dimension."""
    x = to_arr(v)
    if not isinstance(x, Arr):
        return None
    t = reify(x)
    if t.op == "opaque":
        return Obj(t)
    node = mk("hcall", name, t)
    n = x.dims[-1]
    res = []
    for q, (rank, sort) in enumerate(outs):
        p = T.aproj(node, q, sort)
        res.append(Arr([n] * rank, lambda i, p=p: T.el(p, i), True, term=p))
    return Tup(res) if len(res) > 1 else res[0]


@np_("argsort")
def _argsort(L, a, k):
    x, kind = to_arr(a[0]), k.get("kind")
    if not isinstance(x, Arr) or x.rank != 1 or set(k) - {"kind", "axis"} or len(a) > 1:
        return None
    stable = isinstance(kind, Sc) and kind.t.op == "str" and kind.t.args[0] in ("stable", "mergesort")
    v = T.new_ix(x.dims[0])
    kt = x.fn([atom(v)])
    if kt.opaque or (v not in kt.fv and stable):
        return None if kt.opaque else Arr(x.dims, lambda i: i[0])
    P = T._mk_binder("perm", [v], [x.dims[0]], kt, NONE if stable else mk("str", "unstable"))
    return Arr(x.dims, lambda i: atom(mk("permat", P, i[0])))


@np_("linalg.inv")
def _inv(L, a, k):
    def g(v):
        x = to_arr(v)
        if not isinstance(x, Arr) or x.rank != 2:
            return hcall("inv", v)
        t = T.inv_arr(reify(x))
        return Arr(x.dims, lambda i: T.el(t, i), True, term=t)

    return dist(g, a[0])


@np_("linalg.det")
def _det(L, a, k):
    def g(v):
        x = to_arr(v)
        if not isinstance(x, Arr):
            return hcall("det", v)
        t = reify(x)
        return Obj(t) if t.op == "opaque" else Sc(atom(mk("det", t)))

    return dist(g, a[0])


@np_("linalg.norm")
def _norm(L, a, k):
    ax = axis_of(k, a, 2)
    if len(a) > 1 or "ord" in k:
        return None

    def g(v):
        x = to_arr(v)
        if not isinstance(x, Arr):
            kd = k.get("keepdims")
            return hcall("norm", v, ax if ax is not None else VNONE, sc_int(int(kd is not None and isinstance(kd, Sc) and kd.t is TRUE)))
        sq = lambda t: T.mul(t, T.conj(t))
        if ax is None:
            vs = [T.new_ix(d) for d in x.dims]
            return Sc(T.power(T.sum_(vs, sq(x.fn([atom(z) for z in vs]))), Fr(1, 2)))
        kd = k.get("keepdims")
        return reduce_axis(
            x, ax, kd is not None and isinstance(kd, Sc) and kd.t is TRUE, lambda d, f: T.power(sum_over(d, lambda q: sq(f(q))), Fr(1, 2))
        )

    return dist(g, a[0])


@np_("linalg.eigh")
def _eigh(L, a, k):
    return _ufn("eigh", a[0], [(1, "real"), (2, "complex")])


@np_("linalg.eig")
def _eig(L, a, k):
    return _ufn("eig", a[0], [(1, "complex"), (2, "complex")])


@np_("linalg.qr")
def _qr(L, a, k):
    x = to_arr(a[0])
    if isinstance(x, Arr) and x.rank == 2:
        t = reify(x)
        if t.op == "opaque":
            return Obj(t)
        node = mk("hcall", "qr", t)
        q = T.aproj(node, 0, "complex")
        r = T.aproj(node, 1, "complex")
        m = T.funn("min", x.dims[0], x.dims[1])
        return Tup([Arr([x.dims[0], m], lambda i: T.el(q, i), True, term=q), Arr([m, x.dims[1]], lambda i: T.el(r, i), True, term=r)])


@np_("linalg.svd")
def _svd(L, a, k):
    uv = k.get("compute_uv")
    x = to_arr(a[0])
    if isinstance(x, Arr) and uv is not None and isinstance(uv, Sc) and uv.t is FALSE:
        t = reify(x)
        if t.op == "opaque":
            return Obj(t)
        node = mk("hcall", "svdvals", t)
        s = T.aproj(node, 0, "real")
        return Arr([T.funn("min", x.dims[0], x.dims[1])], lambda i: T.el(s, i), True, term=s)


@np_("random.default_rng", "random.RandomState")
def _rng(L, a, k):
    return Rng(ZERO)


@np_("ndim")
def _ndim(L, a, k):
    d = dims_of(a[0])
    return sc_int(len(d)) if d is not None else None


@np_("shape")
def _shape(L, a, k):
    return attribute(a[0], "shape", L)


@np_("issubdtype")
def _iss(L, a, k):
    return None


@np_("expand_dims")
def _expand(L, a, k):
    ax = axis_of(k, a, 1)
    x = to_arr(a[0])
    if isinstance(x, Arr) and isinstance(ax, Sc) and T.as_int(ax.t) is not None:
        p = T.as_int(ax.t) % (x.rank + 1)
        return getitem(x, [("slice", None, None, None)] * p + [VNONE], L)


# ------------------------------------------------------------------ python builtins
PY: dict = {}


def py_(*names):
    def deco(f):
        for x in names:
            PY[x] = f
        return f

    return deco


@py_("len")
def _len(L, a, k, n, env, fr):
    return len_v(a[0])


@py_("range")
def _range(L, a, k, n, env, fr):
    r = range_v(a)
    if r is None:
        return ob("range")
    if isinstance(r, Arr):
        return Arr(r.dims, r._fn, False)
    return r


@py_("enumerate")
def _enumerate(L, a, k, n, env, fr):
    start = num_arg(arg(a, k, 1, "start", sc_int(0)))
    def of(d):
        if d[0] == "static":
            return Tup([Tup([Sc(T.add(start, T.const(q))), x]) for q, x in enumerate(d[1])], True)
        if d[0] == "sym":
            return Seq(d[1], lambda i: Tup([Sc(T.add(start, i)), d[2](i)]))
        if d[0] == "cond":
            return merge(d[1], of(d[2]), of(d[3]))
        return ob("enumerate")
    return of(domain(a[0]))


@py_("zip")
def _zip(L, a, k, n, env, fr):
    ds = [domain(x) for x in a]
    for q, d in enumerate(ds):
        if d[0] == "cond":
            def val(dd):
                return _dom_value(dd)
            x, y = list(a), list(a)
            x[q], y[q] = _dom_value(d[2]), _dom_value(d[3])
            return merge(d[1], _zip(L, x, k, n, env, fr), _zip(L, y, k, n, env, fr))
    if any(d[0] == "opaque" for d in ds):
        return ob("zip")
    if all(d[0] == "static" for d in ds):
        return Tup([Tup(list(t)) for t in zip(*[d[1] for d in ds])], True)
    ns = [d[1] if d[0] == "sym" else T.const(len(d[1])) for d in ds]
    nn = ns[0]
    for z in ns[1:]:
        if z is not nn:
            c = [q for q in (nn, z) if T.as_int(q) is not None]
            nn = pdim(nn, z)
    def at(d, i):
        return d[2](i) if d[0] == "sym" else pick_v(d[1], i)
    return Seq(nn, lambda i: Tup([at(d, i) for d in ds]))


def _dom_value(d):
    if d[0] == "static":
        return Tup(d[1], True)
    if d[0] == "sym":
        return Seq(d[1], d[2])
    if d[0] == "cond":
        return merge(d[1], _dom_value(d[2]), _dom_value(d[3]))
    return ob("domain")


@py_("itertools.product")
def _product(L, a, k, n, env, fr):
    rep = k.get("repeat")
    args = list(a)
    if rep is not None:
        r = T.as_int(rep.t) if isinstance(rep, Sc) else None
        if r is None:
            return None
        args = args * r
    ds = [domain(x) for x in args]
    if any(d[0] in ("opaque", "cond") for d in ds):
        return None
    ss = [(d[1], d[2]) if d[0] == "sym" else (T.const(len(d[1])), (lambda i, d=d: pick_v(d[1], i))) for d in ds]
    tot = ONE
    for m, _ in ss:
        tot = T.mul(tot, m)

    def at(i):
        out = []
        r = i
        for m, f in reversed(ss[1:]):
            out.append(f(T.mod(r, m)))
            r = T.floordiv(r, m)
        out.append(ss[0][1](r))
        return Tup(out[::-1])

    return Seq(tot, at)


@py_("list")
def _list(L, a, k, n, env, fr):
    return as_list(a[0]) if a else Tup([], True)


@py_("tuple")
def _tuple(L, a, k, n, env, fr):
    if not a:
        return Tup([])
    v = a[0]
    if isinstance(v, Tup):
        return Tup(v.items)
    return as_list(v)


@py_("set", "frozenset")
def _set(L, a, k, n, env, fr):
    if not a:
        return Obj(mk("hcall", "set", mk("emptylist")))
    t = reify(a[0])
    if t.op == "opaque":
        return Obj(t)
    if isinstance(a[0], Obj) and isinstance(a[0].ty, tuple) and a[0].ty[0] == "setof":
        return a[0]
    ty = typeof(a[0])
    e = ("sc", ty[2]) if ty and ty[0] == "arr" and ty[1] == 1 else ty[1] if ty and ty[0] == "seq" else None
    return Obj(mk("hcall", "set", t), ("setof", e))


@py_("dict")
def _dict(L, a, k, n, env, fr):
    if not a and not k:
        return DAcc(None, [])
    if len(a) == 1 and not k:
        d = domain(a[0])
        if d[0] == "static":
            return Dct([(component(x, 0, 2), component(x, 1, 2)) for x in d[1]])
        if d[0] == "sym":
            def gen(i):
                x = d[2](i)
                return TRUE, component(x, 0, 2), component(x, 1, 2)
            return DAcc(None, [("gen", d[1], gen)])
    if not a or isinstance(a[0], Dct):
        kv = [(q, v) for q, v in (a[0].kv if a else []) if not (isinstance(q, Sc) and q.t.op == "str" and q.t.args[0] in k)]
        return Dct(kv + [(sstr(q), v) for q, v in k.items()])


@py_("functools.partial")
def _partial(L, a, k, n, env, fr):
    return BI("#partial", (a[0], tuple(a[1:]), dict(k)))


@py_("functools.reduce")
def _reduce(L, a, k, n, env, fr):
    s = as_seq(a[1])
    if s is None or k:
        return None
    nn, f = s
    init, rest = (a[2], a[1]) if len(a) > 2 else (f(ZERO), Seq(T.sub(nn, ONE), lambda i: f(T.add(i, ONE))))
    e = env.fork()
    e["#f"], e["#acc"], e["#xs"] = a[0], init, rest
    acc = ast.Name("#acc", ast.Load())
    step = ast.Assign([ast.Name("#acc", ast.Store())], ast.Call(ast.Name("#f", ast.Load()), [acc, ast.Name("#x", ast.Load())], []))
    loop = ast.For(ast.Name("#x", ast.Store()), ast.Name("#xs", ast.Load()), [step], [])
    out, _ = L.exec_stmt(ast.fix_missing_locations(ast.copy_location(loop, n)), e, getattr(fr, "pc", TRUE), fr)
    return out.get("#acc") or ob("reduce")


@py_("iter")
def _iter(L, a, k, n, env, fr):
    if len(a) == 1 and as_seq(a[0]) is not None:
        return as_list(a[0])


@py_("map")
def _map(L, a, k, n, env, fr):
    if len(a) > 2:
        z = PY["zip"](L, a[1:], {}, n, env, fr)
        d = domain(z) if z is not None else ("opaque",)
        if d[0] == "static":
            return Tup([L.call(a[0], x.items, {}, n, env, fr) for x in d[1]], True)
        if d[0] == "sym":
            x = T.new_ix(d[1])
            return build_seq(x, d[1], TRUE, L.call(a[0], d[2](atom(x)).items, {}, n, env, fr))
    if len(a) == 2:
        d = domain(a[1])
        if d[0] == "static":
            return Tup([L.call(a[0], [x], {}, n, env, fr) for x in d[1]], True)
        if d[0] == "sym":
            x = T.new_ix(d[1])
            v = L.call(a[0], [d[2](atom(x))], {}, n, env, fr)
            return build_seq(x, d[1], TRUE, v)


@py_("filter")
def _filter(L, a, k, n, env, fr):
    if len(a) == 2:
        d = domain(a[1])
        if d[0] == "sym":
            x = T.new_ix(d[1])
            e = d[2](atom(x))
            c = truth_v(L.call(a[0], [e], {}, n, env, fr))
            return build_seq(x, d[1], c, e)


@py_("any")
def _pany(L, a, k, n, env, fr):
    return reduce_all(a[0], "any")


@py_("all")
def _pall(L, a, k, n, env, fr):
    return reduce_all(a[0], "all")


@py_("sum")
def _psum(L, a, k, n, env, fr):
    r = sum_v(a[0])
    if len(a) > 1:
        r = binop("Add", r, a[1], L)
    return r


@py_("min", "max")
def _pmin(L, a, k, n, env, fr):
    return None


def _mm(op):
    def f(L, a, k, n, env, fr):
        if len(a) >= 2 and not k:
            r = a[0]
            for x in a[1:]:
                r = map2(lambda p, q: T.funn(op, p, q), r, x, op)
            return r
        if len(a) == 1 and isinstance(a[0], Tup) and not k:
            return f(L, a[0].items, k, n, env, fr) if len(a[0].items) > 1 else a[0].items[0]
        return None

    return f


PY["min"] = _mm("min")
PY["max"] = _mm("max")


@py_("abs")
def _pabs(L, a, k, n, env, fr):
    return map1(T.abs_, a[0], "abs")


@py_("int")
def _pint(L, a, k, n, env, fr):
    return map1(to_int, a[0], "toint") if not (isinstance(a[0], Sc) and a[0].t.op in ("str", "strsym")) else None


@py_("float", "complex")
def _pfloat(L, a, k, n, env, fr):
    return map1(T.num_of, a[0], "tonum") if len(a) == 1 and not isinstance(a[0], Obj) else (a[0] if len(a) == 1 else None)


@py_("bool")
def _pbool(L, a, k, n, env, fr):
    return Sc(L.boolify(truth_v(a[0])))


@py_("round")
def _pround(L, a, k, n, env, fr):
    if len(a) == 1:
        return map1(round_c, a[0], "rint")


@py_("pow")
def _ppow(L, a, k, n, env, fr):
    return binop("Pow", a[0], a[1], L)


@py_("divmod")
def _pdivmod(L, a, k, n, env, fr):
    return Tup([binop("FloorDiv", a[0], a[1], L), binop("Mod", a[0], a[1], L)])


@py_("sorted")
def _psorted(L, a, k, n, env, fr):
    return sorted_v(a[0], k.get("key"), k.get("reverse"), L)


@py_("reversed")
def _preversed(L, a, k, n, env, fr):
    return reversed_v(a[0])


@py_("str", "repr", "format")
def _pstr(L, a, k, n, env, fr):
    return sstr("<str>")


@py_("print", "warnings.simplefilter", "warnings.filterwarnings")
def _pprint(L, a, k, n, env, fr):
    return VNONE


@py_("slice")
def _pslice(L, a, k, n, env, fr):
    return None


@py_("isinstance")
def _pisinst(L, a, k, n, env, fr):
    return None


@py_("next")
def _pnext(L, a, k, n, env, fr):
    v = a[0]
    s = as_seq(v)
    if s is None:
        return None
    nn, f = s
    x = f(ZERO)
    if n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in env:
        # what is left of the iterator
        c = T.as_int(nn)
        rest = Tup([f(T.const(q)) for q in range(1, c)], True) if c is not None and c <= 32 else Seq(T.funn("max", T.sub(nn, ONE), ZERO) if len(a) == 2 else T.sub(nn, ONE), lambda i: f(T.add(i, ONE)))
        L.mutate(n.args[0].id, rest, env)
    if len(a) == 2:
        # empty?
        if nn.op == "poly" and len(nn.args[0]) == 1 and nn.args[0][0][0] and nn.args[0][0][0][0][0].op == "count":
            vs, body = T.open_binder(nn.args[0][0][0][0][0].args[0])
            return merge(T.exists(vs, body), x, a[1])
        return merge(T.lt(ZERO, nn), x, a[1])
    return x


@py_("ValueError", "KeyError", "RuntimeError", "TypeError", "AssertionError", "IndexError", "NotImplementedError")
def _pexc(L, a, k, n, env, fr):
    return Obj(mk("arr", "exception", "obj", ()))


for _m in ("cos", "sin", "sqrt", "exp", "floor", "ceil", "acos"):
    PY["math." + _m] = (lambda L, a, k, n, env, fr, _m={"acos": "arccos"}.get(_m, _m): NP[_m](L, a, k))
PY["math.isclose"] = lambda L, a, k, n, env, fr: None


CONSTS = {
    "numpy.pi": lambda: Sc(T.PI),
    "math.pi": lambda: Sc(T.PI),
    "numpy.newaxis": lambda: VNONE,
    "numpy.inf": lambda: Obj(mk("arr", "inf", "real", ())),
}

_attr0 = attribute


def attribute(v, name, L):  # noqa: F811
    if isinstance(v, BI) and (v.name + "." + name) in CONSTS:
        return CONSTS[v.name + "." + name]()
    return _attr0(v, name, L)
