"""Value-number terms: hash-consed, canonical by construction.

A *scalar* term is a decision diagram (``ite`` over ordered atomic conditions) whose leaves are
``poly`` (multivariate polynomials with exact complex-rational coefficients over atoms) or the
Booleans TRUE/FALSE or a ``none`` leaf.  An *array* term is either a named array or a ``lam`` (a comprehension over index
variables).  Binders (``lam``, ``sum``, ``forall``, ...) are closed with height-based names, so
alpha-equivalent terms are the same object.
"""
from __future__ import annotations

import hashlib
import itertools
import time
from fractions import Fraction as Fr

_TABLE: dict = {}


class Budget(BaseException):
    """The analysis of one function exceeded its budget (never an alarm)."""


#: [nodes left, deadline]
LIMIT = [1 << 60, None]


def set_budget(nodes, seconds):
    LIMIT[0] = nodes
    LIMIT[1] = time.time() + seconds


_UID = itertools.count(1)


class N:
    __slots__ = ("op", "args", "dg", "fv", "h", "hard", "opaque", "_real", "_int")

    def __repr__(self):
        return show(self)


def _digest_arg(a):
    if isinstance(a, N):
        return a.dg
    if isinstance(a, tuple):
        return "(" + ",".join(_digest_arg(x) for x in a) + ")"
    return repr(a)


def _walk(a, out):
    if isinstance(a, N):
        out.append(a)
    elif isinstance(a, tuple):
        for x in a:
            _walk(x, out)


#: node kinds for which equality of values is not fully captured by equality of terms
HARD = {"fold", "hcall", "flatten", "recseq", "while", "reshape", "scatter", "listcat", "dictv", "perm", "last"}


def mk(op, *args) -> N:
    key = (op, args)
    n = _TABLE.get(key)
    if n is not None:
        return n
    LIMIT[0] -= 1
    if LIMIT[0] & 255 == 0 and (LIMIT[0] <= 0 or (LIMIT[1] is not None and time.time() > LIMIT[1])):
        raise Budget("nodes" if LIMIT[0] <= 0 else "time")
    n = N()
    n.op, n.args = op, args
    n.dg = hashlib.blake2b((op + "|" + _digest_arg(args)).encode(), digest_size=10).hexdigest()
    kids: list[N] = []
    _walk(args, kids)
    fv: frozenset = frozenset()
    h = 0
    opaque = op == "opaque"
    hard = op in HARD
    for k in kids:
        if k.fv:
            fv = fv | k.fv
        if k.h > h:
            h = k.h
        opaque = opaque or k.opaque
        hard = hard or k.hard
    if op in ("ix", "st"):
        fv = frozenset([n])
    if op == "bv":
        h = 0
    n.fv, n.h, n.opaque, n.hard = fv, h, opaque, hard
    n._real = None
    n._int = None
    _TABLE[key] = n
    return n


# --------------------------------------------------------------------------------------
# leaves
TRUE = mk("true")
FALSE = mk("false")
NONE = mk("none")


def new_ix(bound=None) -> N:
    """Fresh index variable; ranges over 0 <= ix < bound (a scalar term) if given."""
    return mk("ix", next(_UID), bound)


def new_st(kind: str, sort: str = "real") -> N:
    """Fresh loop-carried state symbol."""
    return mk("st", next(_UID), kind, sort)


def opaque(why: str) -> N:
    return mk("opaque", why)


# --------------------------------------------------------------------------------------
# sorts of atoms
_INT_OPS = {"ix", "bv", "dim", "first", "last", "nth", "count", "int", "floor", "ceil", "rint", "trunc", "floordiv", "lenof", "size", "retdim", "permat"}
_REAL_OPS = _INT_OPS | {"pi", "e", "abs", "real", "imag", "norm", "angle", "arctan2", "cosr", "sign"}


def atom_int(a: N) -> bool:
    if a._int is None:
        a._int = _atom_int(a)
    return a._int


def _atom_int(a):
    if a.op in _INT_OPS:
        return True
    if a.op == "sym":
        return a.args[1] in ("int", "bit")
    if a.op in ("st",):
        return a.args[2] in ("int", "bit")
    if a.op == "el":
        return arr_sort(a.args[0]) in ("int", "bool", "bit")
    if a.op == "aproj":
        return a.args[2] in ("int", "bool", "bit")
    if a.op == "sum":
        return a.args[3] == "int"
    if a.op in ("mod", "min", "max"):
        return all(is_int(x) for x in a.args)
    if a.op == "fn":
        return a.args[0] in ("sumhard_int",)
    return False


def atom_real(a: N) -> bool:
    if a._real is None:
        a._real = _atom_real(a)
    return a._real


def _atom_real(a):
    if a.op in _REAL_OPS:
        return True
    if a.op == "sym":
        return a.args[1] in ("int", "real", "bool", "bit")
    if a.op == "st":
        return a.args[2] in ("int", "real", "bool", "bit")
    if a.op == "el":
        return arr_sort(a.args[0]) in ("int", "real", "bool", "bit")
    if a.op == "aproj":
        return a.args[2] in ("int", "real", "bool", "bit")
    if a.op == "sum":
        return a.args[3] in ("int", "real")
    if a.op in ("exp", "sin", "cos", "arccos"):
        return is_real(a.args[0])
    if a.op == "pow":
        return False
    if a.op in ("mod", "min", "max", "clip"):
        return all(is_real(x) for x in a.args if isinstance(x, N))
    if a.op == "inv1":
        return is_real(a.args[0])
    return False


#: element sort of the arrays / lists returned by analysed functions
CALL_SORTS: dict = {}
#: functions declared to return a complex array
COMPLEX_CALLS: set = set()


def arr_sort(t: N) -> str:
    if t.op in ("arr",):
        return t.args[1]
    if t.op == "st":
        return t.args[2]
    if t.op in ("inv",):
        s = arr_sort(t.args[0])
        return "real" if s in ("int", "bool", "real", "bit") else "complex"
    if t.op == "lam":
        return term_sort(t.args[1])
    if t.op in ("aproj", "item"):
        return t.args[2]
    if t.op == "call":
        return CALL_SORTS.get(t.args[0], "complex")
    if t.op == "hcall":
        return "complex"
    if t.op in ("fold", "recseq"):
        return t.args[-1] if isinstance(t.args[-1], str) else "complex"
    return "complex"


def term_sort(t: N) -> str:
    if is_bool(t):
        return "bool"
    if is_int(t):
        return "int"
    if is_real(t):
        return "real"
    return "complex"


def is_bool(t: N) -> bool:
    if t.op in ("true", "false"):
        return True
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    return False


def is_real(t: N) -> bool:
    if t.op == "poly":
        return all(
            c[1] == 0 and all(atom_real(a) for a, _ in m) for m, c in t.args[0]
        )
    if t.op == "ite":
        return is_real(t.args[1]) and is_real(t.args[2])
    if t.op in ("true", "false"):
        return True
    return False


def is_int(t: N) -> bool:
    if t.op == "poly":
        return all(
            c[1] == 0 and c[0].denominator == 1 and all(atom_int(a) and e >= 0 and e.denominator == 1 for a, e in m)
            for m, c in t.args[0]
        )
    if t.op == "ite":
        return is_int(t.args[1]) and is_int(t.args[2])
    if t.op in ("true", "false"):
        return True
    return False


def known_complex(t: N) -> bool:
    """The term has a component declared complex and does not equal its own conjugate."""
    if t.op == "ite":
        return known_complex(t.args[1]) or known_complex(t.args[2])
    if t.op != "poly" or is_real(t):
        return False
    if not any(c[1] != 0 or any(_atom_complex(a) for a, _ in m) for m, c in t.args[0]):
        return False
    return conj(t) is not t


def _atom_complex(a):
    if a.op == "sym":
        return a.args[1] == "complex"
    if a.op == "el":
        h = a.args[0]
        if h.op == "arr":
            return h.args[1] == "complex"
        if h.op == "item":
            return h.args[2] == "complex"
        return h.op == "call" and h.args[0] in COMPLEX_CALLS
    if a.op == "exp":
        return not is_real(a.args[0]) and purely_imag(a.args[0])
    if a.op == "sum":
        return any(known_complex(x) for x in a.args if isinstance(x, N))
    return False


# --------------------------------------------------------------------------------------
# polynomials
def _cmul(a, b):
    if not a[1] and not b[1]:
        return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def poly_from(d: dict) -> N:
    items = [(m, c) for m, c in d.items() if c[0] != 0 or c[1] != 0]
    items.sort(key=lambda mc: [(a.dg, e) for a, e in mc[0]])
    return mk("poly", tuple(items))


def const(x) -> N:
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, complex):
        c = (num(x.real), num(x.imag))
    else:
        c = (num(x), Fr(0))
    return poly_from({(): c})


def num(x) -> Fr:
    if isinstance(x, float):
        return Fr(repr(x))
    return Fr(x)


ZERO = const(0)
ONE = const(1)


def atom(a: N, e=1) -> N:
    return poly_from({((a, Fr(e)),): (Fr(1), Fr(0))})


PI = atom(mk("pi"))
J = poly_from({(): (Fr(0), Fr(1))})


def as_const(t: N):
    """(re, im) Fractions if t is a constant polynomial."""
    if t.op == "poly":
        if not t.args[0]:
            return (Fr(0), Fr(0))
        if len(t.args[0]) == 1 and t.args[0][0][0] == ():
            return t.args[0][0][1]
    return None


def as_int(t: N):
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    c = as_const(t)
    if c is not None and c[1] == 0 and c[0].denominator == 1:
        return int(c[0])
    return None


def _padd(a: N, b: N) -> N:
    d = dict(a.args[0])
    for m, c in b.args[0]:
        if m in d:
            o = d[m]
            d[m] = (o[0] + c[0], o[1] + c[1])
        else:
            d[m] = c
    return poly_from(d)


def _scale(a: N, c) -> N:
    return poly_from({m: _cmul(k, c) for m, k in a.args[0]})


def _mono_mul(m1, m2):
    """Product of monomials -> (monomial, extra poly factor or None)."""
    d: dict = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, Fr(0)) + e
    exps = [(a, e) for a, e in d.items() if a.op == "exp" and e != 0]
    extra = None
    if len(exps) > 1 or (len(exps) == 1 and exps[0][1] != 1):
        tot = ZERO
        for a, e in exps:
            tot = add(tot, _scale_any(a.args[0], (e, Fr(0))))
            del d[a]
        extra = exp_(tot)
    # collapse sqrt(x)^2
    pows = [(a, e) for a, e in d.items() if a.op == "pow" and e.denominator == 1 and abs(e) >= 1]
    for a, e in pows:
        base, q = a.args
        qq = q * e
        if qq.denominator == 1 and qq > 0:
            del d[a]
            p = power(base, int(qq))
            extra = p if extra is None else mul(extra, p)
    mono = tuple(sorted(((a, e) for a, e in d.items() if e != 0), key=lambda ae: (ae[0].dg, ae[1])))
    return mono, extra


def _scale_any(t: N, c) -> N:
    return lift1(lambda p: _scale(p, c), t)


def _pmul(a: N, b: N) -> N:
    if not a.args[0] or not b.args[0]:
        return ZERO
    acc: dict = {}
    extras = []
    for m1, c1 in a.args[0]:
        for m2, c2 in b.args[0]:
            m, ex = _mono_mul(m1, m2)
            c = _cmul(c1, c2)
            if ex is None:
                o = acc.get(m)
                acc[m] = c if o is None else (o[0] + c[0], o[1] + c[1])
            else:
                extras.append((m, c, ex))
    res = poly_from(acc)
    for m, c, ex in extras:
        res = add(res, mul(poly_from({m: c}), ex))
    return res


# --------------------------------------------------------------------------------------
# decision diagrams
_memo1: dict = {}


def mk_ite(c: N, a: N, b: N) -> N:
    """c is an atomic condition."""
    if a is b:
        return a
    return mk("ite", c, a, b)


def top(*ts):
    best = None
    for t in ts:
        if t.op == "ite" and (best is None or t.args[0].dg < best.dg):
            best = t.args[0]
    return best


def cof(t: N, c: N, val: bool) -> N:
    if t.op == "ite" and t.args[0] is c:
        return t.args[1] if val else t.args[2]
    return t


def lift1(f, t: N) -> N:
    if t.op != "ite":
        return f(t)
    memo: dict = {}

    def go(x):
        r = memo.get(x)
        if r is None:
            if x.op == "ite":
                r = _ite_atom(x.args[0], go(x.args[1]), go(x.args[2]))
            else:
                r = f(x)
            memo[x] = r
        return r

    return go(t)


def lift2(f, a: N, b: N) -> N:
    c = top(a, b)
    if c is None:
        return f(a, b)
    return _ite_atom(c, lift2(f, cof(a, c, True), cof(b, c, True)), lift2(f, cof(a, c, False), cof(b, c, False)))


def liftn(f, ts) -> N:
    c = top(*ts)
    if c is None:
        return f(*ts)
    return _ite_atom(c, liftn(f, [cof(t, c, True) for t in ts]), liftn(f, [cof(t, c, False) for t in ts]))


_ite_memo: dict = {}


def ite(c: N, a: N, b: N) -> N:
    """General ite: c any Boolean decision diagram."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op != "ite":
        if c.op == "opaque":
            return mk("opaque", "condition")
        return opaque("non-boolean condition " + c.op)
    key = (c, a, b)
    r = _ite_memo.get(key)
    if r is None:
        v = top(c, a, b)
        r = mk_ite(
            v,
            ite(cof(c, v, True), cof(a, v, True), cof(b, v, True)),
            ite(cof(c, v, False), cof(a, v, False), cof(b, v, False)),
        )
        _ite_memo[key] = r
    return r


def _ite_atom(c: N, a: N, b: N) -> N:
    """ite on an atomic condition, keeping the diagram ordered."""
    if a is b:
        return a
    if (a.op != "ite" or c.dg < a.args[0].dg) and (b.op != "ite" or c.dg < b.args[0].dg):
        return mk("ite", c, a, b)
    return ite(mk("ite", c, TRUE, FALSE), a, b)


def is_opaque_leaf(t):
    return t.op == "opaque"


def not_(c: N) -> N:
    c = truth(c)
    if c.op == "opaque":
        return c
    return ite(c, FALSE, TRUE)


def and_(a: N, b: N) -> N:
    a, b = truth(a), truth(b)
    if a.op == "opaque":
        return a if b is not FALSE else FALSE
    return ite(a, b, FALSE)


def or_(a: N, b: N) -> N:
    a, b = truth(a), truth(b)
    if a.op == "opaque":
        return a if b is not TRUE else TRUE
    return ite(a, TRUE, b)


def truth(t: N) -> N:
    """Python truth value of a scalar term."""
    if is_bool(t):
        return t

    def f(p):
        if p in (TRUE, FALSE):
            return p
        if p is NONE:
            return FALSE
        if p.op == "poly":
            return not_(eq0(p))
        return opaque("truth of " + p.op)

    return lift1(f, t)


def cond_atom(a: N) -> N:
    """Decision diagram for an atomic condition."""
    return mk_ite(a, TRUE, FALSE)


def num_of(t: N) -> N:
    """Coerce Booleans to 0/1."""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    if t.op == "ite" and is_bool(t):
        return lift1(num_of, t)
    return t


def _bin(f):
    def g(a: N, b: N) -> N:
        def leaf(x, y):
            x, y = num_of(x), num_of(y)
            if x.op != "poly" or y.op != "poly":
                if x.op == "opaque":
                    return x
                if y.op == "opaque":
                    return y
                return opaque(f"arith on {x.op},{y.op}")
            return f(x, y)

        return lift2(leaf, a, b)

    return g


add = _bin(_padd)
mul = _bin(_pmul)


def neg(a: N) -> N:
    return mul(const(-1), a)


def sub(a: N, b: N) -> N:
    return add(a, neg(b))


def scale(a: N, q) -> N:
    return mul(const(q), a)


def _un(f):
    def g(a: N) -> N:
        def leaf(x):
            x = num_of(x)
            if x.op != "poly":
                return x if x.op == "opaque" else opaque("arith on " + x.op)
            return f(x)

        return lift1(leaf, a)

    return g


def _inv(p: N) -> N:
    if len(p.args[0]) == 1:
        m, c = p.args[0][0]
        n2 = c[0] * c[0] + c[1] * c[1]
        inv_c = (c[0] / n2, -c[1] / n2)
        res = poly_from({(): inv_c})
        for a, e in m:
            if a.op == "exp":
                res = mul(res, exp_(_scale_any(a.args[0], (-e, Fr(0)))))
            elif a.op == "inv1":
                res = mul(res, power(a.args[0], int(e))) if e.denominator == 1 else mul(res, atom(a, -e))
            else:
                res = mul(res, atom(a, -e))
        return res
    if not p.args[0]:
        return opaque("division by zero")
    # normalise leading coefficient to 1
    lead = p.args[0][0][1]
    n2 = lead[0] ** 2 + lead[1] ** 2
    ic = (lead[0] / n2, -lead[1] / n2)
    q = _scale(p, ic)
    return _scale(atom(mk("inv1", q)), ic)


recip = _un(_inv)


def div(a: N, b: N) -> N:
    return mul(a, recip(b))


def power(a: N, n) -> N:
    """a ** n for rational constant n."""
    n = Fr(n)
    if n.denominator == 1:
        k = int(n)
        if k < 0:
            return recip(power(a, -k))
        if k > 6:
            return lift1(lambda p: atom(mk("pow", p, n)), a)
        r = ONE
        for _ in range(k):
            r = mul(r, a)
        return r

    def f(p):
        c = as_const(p)
        if c is not None and c[1] == 0 and c[0] > 0:
            # exact roots
            q = c[0]
            if n.denominator == 2:
                import math

                rn, rd = math.isqrt(q.numerator), math.isqrt(q.denominator)
                if rn * rn == q.numerator and rd * rd == q.denominator:
                    return power(const(Fr(rn, rd)), n.numerator)
        if c == (Fr(0), Fr(0)):
            return ZERO
        if n == Fr(1, 2) and len(p.args[0]) == 1:
            # root of a product with a size
            m, k = p.args[0][0]
            out = [(a, e) for a, e in m if a.op != "pow" and e in (1, -1) and root_out(a)]
            if out and (len(out) < len(m) or k != (1, 0)) and k[1] == 0 and k[0] > 0:
                r = power(poly_from({tuple(x for x in m if x not in out): k}), n)
                for a, e in out:
                    q = atom(mk("pow", atom(a), n))
                    r = mul(r, q if e == 1 else recip(q))
                return r
        return atom(mk("pow", p, n))

    return _un(f)(a)


def root_out(a: N) -> bool:
    """A size (non-negative): sqrt(a * x) = sqrt(a) * sqrt(x)."""
    return a.op in ("lenof", "dim") or (a.op == "sym" and atom_nonneg(a)) or (a.op in ("min", "max") and all(isinstance(x, N) and _nonneg(x) for x in a.args))


def pow_term(a: N, e: N) -> N:
    c = as_const(e)
    if c is not None and c[1] == 0:
        return power(a, c[0])

    def f(x, y):
        return atom(mk("powt", x, y))

    return _bin(f)(a, e)


def exp_(t: N) -> N:
    def f(p):
        if not p.args[0]:
            return ONE
        # constant imaginary multiples of pi
        if len(p.args[0]) == 1:
            m, c = p.args[0][0]
            if len(m) == 1 and m[0][0].op == "pi" and m[0][1] == 1 and c[0] == 0:
                q = c[1] % 2
                tab = {Fr(0): ONE, Fr(1): const(-1), Fr(1, 2): J, Fr(3, 2): neg(J)}
                if q in tab:
                    return tab[q]
                return atom(mk("exp", poly_from({m: (Fr(0), q)})))
        return atom(mk("exp", p))

    return _un(f)(t)


def conj(t: N) -> N:
    def f(p):
        if all(c[1] == 0 and all(atom_real(a) for a, _ in m) for m, c in p.args[0]):
            return p
        res = ZERO
        for m, c in p.args[0]:
            term = poly_from({(): (c[0], -c[1])})
            for a, e in m:
                term = mul(term, _conj_atom(a, e))
            res = add(res, term)
        return res

    return _un(f)(t)


def _conj_atom(a: N, e) -> N:
    if atom_real(a):
        return atom(a, e)
    if a.op == "conj":
        return atom(a.args[0], e)
    if a.op == "exp":
        return exp_(_scale_any(conj(a.args[0]), (e, Fr(0))))
    if a.op == "sum" and e == 1:
        vs, body = open_binder(a)
        return sum_(vs, conj(body))
    if a.op == "inv1" and e == 1:
        return recip(conj(a.args[0]))
    return atom(mk("conj", a), e)


def _sign_norm(p: N):
    """Return (sign, p') with p' having positive leading coefficient part."""
    c = p.args[0][0][1]
    if c[0] < 0 or (c[0] == 0 and c[1] < 0):
        return -1, _scale(p, (Fr(-1), Fr(0)))
    return 1, p


def abs_(t: N) -> N:
    def f(p):
        if not p.args[0]:
            return p
        c = as_const(p)
        if c is not None and c[1] == 0:
            return const(abs(c[0]))
        if _nonneg(p):
            return p
        # pull out modulus-one exponentials and positive constants from monomials
        if len(p.args[0]) == 1:
            m, c = p.args[0][0]
            res = ONE
            if c[1] == 0:
                res = const(abs(c[0]))
            elif c[0] == 0:
                res = const(abs(c[1]))
            else:
                return atom(mk("abs", _sign_norm(p)[1]))
            for a, e in m:
                if a.op == "exp" and purely_imag(a.args[0]):
                    continue
                if a.op == "abs" or (atom_real(a) and atom_nonneg(a)):
                    res = mul(res, atom(a, e))
                else:
                    res = mul(res, atom(mk("abs", atom(a)), e))
            return res
        return atom(mk("abs", _sign_norm(p)[1]))

    return _un(f)(t)


def purely_imag(t: N) -> bool:
    return t.op == "poly" and is_real(mul(J, t))


def real_(t: N) -> N:
    def f(p):
        if is_real(p):
            return p
        res = ZERO
        rest: dict = {}
        for m, c in p.args[0]:
            if all(atom_real(a) for a, _ in m):
                res = add(res, poly_from({m: (c[0], Fr(0))}))
            else:
                rest[m] = c
        if rest:
            r = poly_from(rest)
            s, r = _sign_norm(r)
            res = add(res, scale(atom(mk("real", r)), s))
        return res

    return _un(f)(t)


def imag_(t: N) -> N:
    def f(p):
        if is_real(p):
            return ZERO
        res = ZERO
        rest: dict = {}
        for m, c in p.args[0]:
            if all(atom_real(a) for a, _ in m):
                res = add(res, poly_from({m: (c[1], Fr(0))}))
            else:
                rest[m] = c
        if rest:
            r = poly_from(rest)
            s, r = _sign_norm(r)
            res = add(res, scale(atom(mk("imag", r)), s))
        return res

    return _un(f)(t)


def rnd(kind: str, t: N) -> N:
    """rint / floor / ceil / trunc."""

    def f(p):
        if is_int(p):
            return p
        c = as_const(p)
        if c is not None and c[1] == 0:
            import math

            q = c[0]
            v = {"rint": round(q), "floor": math.floor(q), "ceil": math.ceil(q), "trunc": int(q)}[kind]
            return const(v)
        if not is_real(p):
            return atom(mk(kind + "c", p))
        if kind == "rint":
            # rint(x mod 1) = rint(x) + (x mod 1 - x)  (ties aside)
            for m, c in p.args[0]:
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "mod" and c[1] == 0 and c[0].denominator == 1:
                    a = m[0][0]
                    if as_const(a.args[1]) == (1, 0):
                        d = scale(sub(atom(a), a.args[0]), c[0])
                        return add(rnd("rint", sub(p, d)), d)
            # rint(-x) = -rint(x); integer parts stay (ties aside, which are measure-zero / symmetric)
            s, q = _sign_norm(p)
            return scale(atom(mk("rint", q)), s)
        # floor(x + n) = floor(x) + n
        ip: dict = {}
        fp: dict = {}
        for m, c in p.args[0]:
            one = poly_from({m: c})
            (ip if is_int(one) else fp)[m] = c
        if kind in ("floor", "ceil"):
            return add(poly_from(ip), atom(mk(kind, poly_from(fp))))
        return atom(mk(kind, p))

    return _un(f)(t)


def fun1(name: str, t: N) -> N:
    def f(p):
        if name == "cos":
            if not p.args[0]:
                return ONE
            return atom(mk("cos", _sign_norm(p)[1]))
        if name == "sin":
            if not p.args[0]:
                return ZERO
            s, q = _sign_norm(p)
            return scale(atom(mk("sin", q)), s)
        return atom(mk(name, p))

    return _un(f)(t)


def funn(name: str, *ts: N) -> N:
    def f(*ps):
        ps = [num_of(p) for p in ps]
        for p in ps:
            if p.op == "opaque":
                return p
        if name in ("min", "max"):
            if all(as_const(p) is not None for p in ps):
                vals = [as_const(p)[0] for p in ps]
                return const(min(vals) if name == "min" else max(vals))
            uniq = sorted(set(ps), key=lambda p: p.dg)
            if len(uniq) == 1:
                return uniq[0]
            ps = uniq
        return atom(mk(name, *ps))

    return liftn(f, list(ts))


def funn_ordered(name: str, *ts: N) -> N:
    def f(*ps):
        ps = [num_of(p) for p in ps]
        for p in ps:
            if p.op == "opaque":
                return p
        return atom(mk(name, *ps))

    return liftn(f, list(ts))


def floordiv(a: N, b: N) -> N:
    def f(x, y):
        if as_const(y) == (1, 0):
            return rnd("floor", x)
        q = _pmul(x, _inv(y)) if y.args[0] else None
        if q is not None and q.op == "poly" and is_int(q):
            return q
        cx, cy = as_int(x), as_int(y)
        if cx is not None and cy:
            return const(cx // cy)
        return atom(mk("floordiv", x, y))

    return _bin(f)(a, b)


def mod(a: N, b: N) -> N:
    def f(x, y):
        cx, cy = as_const(x), as_const(y)
        if cx and cy and cx[1] == 0 == cy[1] and cy[0] != 0:
            return const(cx[0] % cy[0])
        if cy and cy[1] == 0 and cy[0].denominator == 1 and is_int(x):
            # drop multiples
            d = {m: (Fr(c[0] % cy[0]), Fr(0)) for m, c in x.args[0]}
            x = poly_from(d)
            if as_const(x) is not None:
                return const(as_const(x)[0] % cy[0])
        if x.op == "poly" and x.args[0] and x is y:
            return ZERO
        if cy and cy[1] == 0 and cy[0] != 0 and x.op == "poly" and not is_int(x):
            return sub(x, mul(y, rnd("floor", div(x, y))))
        return atom(mk("mod", x, y))

    return _bin(f)(a, b)


# --------------------------------------------------------------------------------------
# comparisons
def atom_nonneg(a: N) -> bool:
    return a.op in ("ix", "bv", "dim", "abs", "nth", "permat", "first", "last", "count", "lenof", "pi", "norm", "size", "retdim") or atom_bit(a) or (
        a.op == "exp" and is_real(a.args[0])
    ) or (a.op == "sum" and len(a.args) > 4 and a.args[4] == "nn") or (a.op == "mod" and True) or (a.op == "sym" and a.args[1] == "int" and a.args[2:] == ("nn",))


def atom_bit(a: N) -> bool:
    if a.op in ("sym",):
        return a.args[1] == "bit"
    if a.op == "st":
        return a.args[2] == "bit"
    if a.op == "el":
        return arr_sort(a.args[0]) == "bit"
    if a.op == "aproj":
        return a.args[2] == "bit"
    return False


def atom_pos(a: N) -> bool:
    return a.op in ("pi",) or (a.op == "exp" and is_real(a.args[0]))


def _nonneg(p: N) -> bool:
    return p.op == "poly" and all(
        c[1] == 0 and c[0] > 0 and all(atom_nonneg(a) or e % 2 == 0 and atom_real(a) for a, e in m) for m, c in p.args[0]
    )


def _bounded_upper(p: N):
    """Try to bound p above by replacing index variables (coef>0) by bound-1."""
    if p.op != "poly":
        return None
    q = p
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == "ix" and c[1] == 0 and c[0] > 0:
            b = m[0][0].args[1]
            if b is not None and b.op == "poly":
                q = add(q, _scale(sub(sub(b, ONE), atom(m[0][0])), c))
    return q if q is not p else None


_lt0_memo: dict = {}
_eq0_memo: dict = {}


def lt0(t: N) -> N:
    def f(p):
        r = _lt0_memo.get(p)
        if r is None:
            r = _lt0_memo[p] = f_(p)
        return r

    def f_(p):
        if not p.args[0]:
            return FALSE
        c = as_const(p)
        if c is not None:
            return TRUE if c[0] < 0 else FALSE
        if _nonneg(p):
            return FALSE
        np_ = _scale(p, (Fr(-1), Fr(0)))
        # -p >= 1 for integers => p < 0
        if is_int(p) and _nonneg(_padd(np_, const(-1))):
            return TRUE
        up = _bounded_upper(p)
        if up is not None and up.op == "poly":
            c = as_const(up)
            if c is not None and c[0] < 0:
                return TRUE
            if is_int(up) and _nonneg(_padd(_scale(up, (Fr(-1), Fr(0))), const(-1))):
                return TRUE
        lo = _bounded_upper(np_)
        if lo is not None and lo.op == "poly":
            # -p <= lo ; if lo <= 0 then p >= 0
            c = as_const(lo)
            if c is not None and c[0] <= 0:
                return FALSE
            if _nonneg(_scale(lo, (Fr(-1), Fr(0)))):
                return FALSE
        # normalise: divide by |leading coefficient|, strip positive common factors
        lead = abs(p.args[0][0][1][0]) or abs(p.args[0][0][1][1])
        q = _scale(p, (1 / lead, Fr(0)))
        # cannot keep integrality under scaling; use primitive integer form when possible
        if is_int(p):
            from math import gcd

            g = 0
            for _, cc in p.args[0]:
                g = gcd(g, int(cc[0]))
            q = poly_from({m: (cc[0] / g, Fr(0)) for m, cc in p.args[0]}) if all(
                m for m, _ in p.args[0]
            ) else p
            alt = _padd(_scale(q, (Fr(-1), Fr(0))), const(-1))
            if alt.dg < q.dg:
                return not_(cond_atom(mk("lt0", alt)))
            return cond_atom(mk("lt0", q))
        return cond_atom(mk("lt0", q))

    def g(p):
        p = num_of(p)
        if p.op != "poly":
            return p if p.op == "opaque" else opaque("compare " + p.op)
        return f(p)

    return lift1(g, t)


def lt(a: N, b: N) -> N:
    return lt0(sub(a, b))


def le(a: N, b: N) -> N:
    return not_(lt(b, a))


def eq0(t: N) -> N:
    def g(p):
        r = _eq0_memo.get(p)
        if r is None:
            r = _eq0_memo[p] = g_(p)
        return r

    def g_(p):
        p = num_of(p)
        if p is NONE:
            return FALSE
        if p.op != "poly":
            return p if p.op == "opaque" else opaque("compare " + p.op)
        if not p.args[0]:
            return TRUE
        if as_const(p) is not None:
            return FALSE
        # {0, 1}-valued symbol against a constant
        vs_ = [(m, c) for m, c in p.args[0] if m]
        if len(vs_) == 1 and len(vs_[0][0]) == 1 and vs_[0][0][0][1] == 1 and atom_bit(vs_[0][0][0][0]):
            m, c = vs_[0]
            k = dict(p.args[0]).get((), (Fr(0), Fr(0)))
            if c[1] == 0 == k[1]:
                v = -k[0] / c[0]
                if v == 1:
                    return not_(cond_atom(mk("eq0", poly_from({m: (Fr(1), Fr(0))}))))
                if v != 0:
                    return FALSE
        # index variable against its bounds
        if lt0(p) is TRUE or lt0(_scale(p, (Fr(-1), Fr(0)))) is TRUE:
            return FALSE
        lead = p.args[0][0][1]
        n2 = lead[0] ** 2 + lead[1] ** 2
        q = _scale(p, (lead[0] / n2, -lead[1] / n2))
        return cond_atom(mk("eq0", q))

    return lift1(g, t)


def eq(a: N, b: N) -> N:
    def leaf(x, y):
        if x is y:
            return TRUE
        bx, by = x in (TRUE, FALSE), y in (TRUE, FALSE)
        if x is NONE or y is NONE:
            return FALSE
        if x.op == "str" or y.op == "str":
            if x.op == "str" and y.op == "str":
                return FALSE
            lo, hi = sorted([x, y], key=lambda n: n.dg)
            return cond_atom(mk("eqv", lo, hi))
        return eq0(sub(num_of(x), num_of(y)))

    return lift2(leaf, a, b)


# --------------------------------------------------------------------------------------
# binders
BINDERS = {"lam", "sum", "prod", "forall", "sel", "min_over", "max_over", "first", "last", "flatten", "perm"}


def bv(h, bound=None):
    return mk("bv", h)


def close(vs, body, canonical_order=False):
    """Rename index variables vs in body to height-named bound variables."""
    h = body.h
    names = [mk("bv", h + 1 + k) for k in range(len(vs))]
    return subst(body, dict(zip(vs, names))), h + len(vs)


def _mk_binder(op, vs, bounds, body, *extra):
    """Node (op, bounds, closed body, height, *extra)."""
    h0 = max([body.h] + [b.h for b in bounds if isinstance(b, N)])
    names = [mk("bv", h0 + 1 + k) for k in range(len(vs))]
    m = Ren(zip(vs, names))
    cb = subst(body, m)
    n = mk(op, tuple(subst(b, m) if isinstance(b, N) else b for b in bounds), cb, tuple(names), *extra)
    n.h = max(n.h, h0 + len(vs))
    return n


def open_binder(n: N):
    """-> (fresh index variables, body)"""
    bounds, body, names = n.args[0], n.args[1], n.args[2]
    vs = []
    m: dict = Ren()
    for b, nm in zip(bounds, names):
        bb = subst(b, m) if isinstance(b, N) else b
        v = new_ix(bb)
        vs.append(v)
        m[nm] = atom(v)
    return vs, subst(body, m)


def lam(vs, body) -> N:
    """Array comprehension; eta-reduced."""
    bounds = [v.args[1] for v in vs]
    # eta
    if body.op == "poly" and len(body.args[0]) == 1:
        m, c = body.args[0][0]
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1 and m[0][0].op == "el":
            e = m[0][0]
            idx = e.args[1]
            if len(idx) == len(vs) and all(i is atom(v) for i, v in zip(idx, vs)) and not (
                e.args[0].fv & set(vs)
            ):
                return e.args[0]
    if body.op == "item" and len(vs) == 1 and body.args[1] is atom(vs[0]) and vs[0] not in body.args[0].fv:
        return body.args[0]
    return _mk_binder("lam", vs, bounds, body)


def el(arr: N, idx) -> N:
    """Element of an array term as a scalar."""
    idx = tuple(idx)
    c = top(*idx) if idx else None
    if c is not None:
        return _ite_atom(c, el(arr, [cof(i, c, True) for i in idx]), el(arr, [cof(i, c, False) for i in idx]))
    for i in idx:
        if i.op == "opaque":
            return i
    if arr.op == "opaque":
        return arr
    if arr.op == "lam" and len(arr.args[0]) == len(idx):
        return subst(arr.args[1], dict(zip(arr.args[2], idx)))
    if arr.op == "ite":
        return ite(cond_atom(arr.args[0]), el(arr.args[1], idx), el(arr.args[2], idx))
    return atom(mk("el", arr, idx))


def item(t: N, i: N, sort: str) -> N:
    """Element (itself an array or object) of a list term."""
    if i.op == "ite":
        return ite(cond_atom(i.args[0]), item(t, i.args[1], sort), item(t, i.args[2], sort))
    if i.op == "opaque":
        return i
    if t.op == "opaque":
        return t
    if t.op == "lam" and len(t.args[0]) == 1:
        return subst(t.args[1], {t.args[2][0]: i})
    if t.op == "ite":
        return ite(cond_atom(t.args[0]), item(t.args[1], i, sort), item(t.args[2], i, sort))
    return mk("item", t, i, sort)


def _sum_sort(body):
    s = term_sort(body)
    return {"bool": "int"}.get(s, s)


def sum_(vs, body: N) -> N:
    """Sum of body over index variables vs."""
    if not vs:
        return body
    vset = set(vs)
    # hoist independent conditions
    body = num_of(body)
    conds = []

    def find(t):
        if t.op == "ite":
            if not (t.args[0].fv & vset):
                return t.args[0]
            r = find(t.args[1])
            return r if r is not None else find(t.args[2])
        return None

    c = find(body)
    if c is not None:
        return ite(cond_atom(c), sum_(vs, restrict(body, c, True)), sum_(vs, restrict(body, c, False)))
    if body.op == "ite":
        # delta elimination
        for v in vs:
            d = _delta(body, v)
            if d is not None:
                e, hit = d
                if not (e.fv & {v}):
                    return sum_([w for w in vs if w is not v], hit)
        # distribute constants out only; keep as one node
        if body.opaque:
            return _first_opaque(body)
        for v in vs:
            k = as_int(v.args[1]) if isinstance(v.args[1], N) else None
            if k is not None and k <= 4 and _splits_on(body, v):
                rest = [w for w in vs if w is not v]
                if not any(isinstance(w.args[1], N) and v in w.args[1].fv for w in rest):
                    total = ZERO
                    for i in range(k):
                        total = add(total, sum_(rest, subst(body, {v: const(i)})))
                    return total
        parts = _outer_parts(vset, body)
        if parts is None:
            return _sum_node(vs, body)
        total = ZERO
        for m, cf, part in parts:
            total = add(total, mul(poly_from({m: cf}), sum_(vs, part)))
        return total
    if body.op == "opaque":
        return body
    if body.op != "poly":
        return opaque("sum of " + body.op)
    total = ZERO
    for m, cf in body.args[0]:
        total = add(total, _sum_mono(vs, m, cf))
    return total


def _splits_on(body, v):
    """A case distinction by the value of v alone."""
    seen, st = set(), [body]
    while st:
        t = st.pop()
        if t in seen or t.op != "ite":
            continue
        seen.add(t)
        c = t.args[0]
        if c.op in ("eq0", "lt0") and c.args[0].op == "poly" and all(a is v for m, _ in c.args[0].args[0] for a, _e in m):
            return True
        st += [t.args[1], t.args[2]]
    return False


def _outer_parts(vset, body):
    """A piecewise summand as combination of its factors without the summation indices; None if there are none."""
    leaves: dict = {}

    def walk(t):
        if t.op == "ite":
            walk(t.args[1])
            walk(t.args[2])
        elif t not in leaves:
            leaves[t] = t.op == "poly"

    walk(body)
    if not all(leaves.values()):
        return None
    groups: dict = {}
    for t in leaves:
        for m, _cf in t.args[0]:
            groups.setdefault(tuple(x for x in m if not (x[0].fv & vset)), None)
    out = []
    for o in sorted(groups, key=lambda m: tuple((a.dg, str(e)) for a, e in m)):
        os_ = set(o)
        memo: dict = {}
        lead = []

        def part(t):
            r = memo.get(t)
            if r is None:
                if t.op == "ite":
                    a, b = part(t.args[1]), part(t.args[2])
                    r = mk_ite(t.args[0], a, b) if a is not b else a
                else:
                    r = poly_from({
                        tuple(x for x in m if x not in os_): cf
                        for m, cf in t.args[0]
                        if tuple(x for x in m if not (x[0].fv & vset)) == o
                    })
                    if not lead and r.args[0]:
                        lead.append(r.args[0][0][1])
                memo[t] = r
            return r

        p = part(body)
        l = lead[0] if lead else (Fr(1), Fr(0))
        out.append((o, l, p))
    if len(out) == 1 and not out[0][0] and out[0][1] == (Fr(1), Fr(0)):
        return None
    return [(o, l, lift1(lambda q, k=_cinv(l): _scale(q, k), p)) for o, l, p in out]


def _cinv(c):
    d = c[0] * c[0] + c[1] * c[1]
    return (c[0] / d, -c[1] / d)


def _first_opaque(t):
    if t.op == "opaque":
        return t
    for k in subnodes(t):
        if k.op == "opaque":
            return k
    return opaque("?")


def kids(t):
    out: list = []
    _walk(t.args, out)
    return out


def subnodes(t, seen=None):
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        kids: list = []
        _walk(x.args, kids)
        stack.extend(kids)


def _delta(body, v):
    """body == ite(v == e, hit, 0)?"""
    if body.op != "ite":
        return None
    c, a, b = body.args
    if c.op == "eq0" and v in c.fv:
        p = c.args[0]
        other = b
        if other is ZERO:
            # solve v
            co = None
            rest = {}
            for m, cf in p.args[0]:
                if m == ((v, Fr(1)),):
                    co = cf
                else:
                    rest[m] = cf
            if co is not None and co[1] == 0:
                e = _scale(poly_from(rest), (-1 / co[0], Fr(0)))
                if v not in e.fv:
                    return e, subst(a, {v: e})
    return None


def restrict_all(t: N, c: N, val: bool) -> N:
    return restrict(t, c, val)


def restrict(t: N, c: N, val: bool) -> N:
    if t.op != "ite":
        return t
    if t.args[0] is c:
        return restrict(t.args[1] if val else t.args[2], c, val)
    return mk_ite(t.args[0], restrict(t.args[1], c, val), restrict(t.args[2], c, val))


def _contract(v, m):
    """X[i, v] * inv(X)[v, j] (or the other way round) summed over v -> (other factors, i, j)."""
    fs = [(a, e) for a, e in m if v in a.fv]
    if len(fs) != 2 or any(e != 1 or a.op != "el" or len(a.args[1]) != 2 for a, e in fs):
        return None
    (x, _), (y, _) = fs
    if x.args[0].op != "inv":
        x, y = y, x
    if x.args[0].op != "inv" or x.args[0].args[0] is not y.args[0]:
        return None
    vv = atom(v)
    for p, q in ((0, 1), (1, 0)):
        if x.args[1][p] is vv and y.args[1][q] is vv:
            i, j = x.args[1][q], y.args[1][p]
            if v not in i.fv and v not in j.fv:
                return tuple(t for t in m if t[0] is not x and t[0] is not y), i, j
    return None


def _sum_mono(vs, m, cf) -> N:
    vset = set(vs)
    outside = []
    inside = []
    for a, e in m:
        if a.op == "sum" and e == 1 and (a.fv & vset):
            ws, b = open_binder(a)
            rest = [x for x in m if x[0] is not a]
            inner = mul(poly_from({tuple(rest): cf}), b)
            return sum_(list(vs) + ws, inner)
        (inside if a.fv & vset else outside).append((a, e))
    for v in vs:
        d = _contract(v, m)
        if d is not None:
            rest, i, j = d
            return sum_([w for w in vs if w is not v], mul(poly_from({rest: cf}), ite(eq(i, j), ONE, ZERO)))
    coef = poly_from({tuple(outside): cf})
    # connected components
    comps: list = []
    for a, e in inside:
        vv = set(a.fv & vset)
        items = [(a, e)]
        keep = []
        for cv, ci in comps:
            if cv & vv:
                vv |= cv
                items = ci + items
            else:
                keep.append((cv, ci))
        keep.append((vv, items))
        comps = keep
    used = set().union(*[cv for cv, _ in comps]) if comps else set()
    # bounds dependencies
    res = coef
    for v in vs:
        if v not in used:
            b = v.args[1]
            if b is None:
                res = mul(res, atom(mk("opaque_len")))
            elif b.fv & vset:
                return mul(coef, _sum_node(vs, poly_from({tuple(inside): (Fr(1), Fr(0))})))
            else:
                res = mul(res, b)
    for cv, items in comps:
        # split exponentials of sums that separate? exp(p) with p over disjoint vars
        items = tuple(sorted(items, key=lambda ae: (ae[0].dg, ae[1])))
        body = poly_from({items: (Fr(1), Fr(0))})
        cvl = [v for v in vs if v in cv]
        # single index with atom eq only
        res = mul(res, _sum_node(cvl, body))
    return res


def shash(t, colors: dict, memo: dict):
    """Structural hash that ignores the identity of uncoloured variables and the order of commutative parts."""
    if isinstance(t, tuple):
        return hash(tuple(shash(x, colors, memo) for x in t))
    if not isinstance(t, N):
        return hash(("lit", str(t)))
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if t in colors:
        r = colors[t]
    elif op in ("ix", "st"):
        r = hash(op)
    elif not t.fv and not any(_contains(t, colors, memo) for _ in (0,)):
        r = hash(t.dg)
    elif op == "poly":
        r = hash(("poly", tuple(sorted(hash((tuple(sorted(hash((shash(a, colors, memo), e)) for a, e in m)), c[0] ** 2 + c[1] ** 2)) for m, c in t.args[0]))))
    elif op == "lt0" and t.args[0].op == "poly":
        r = hash(("lt0", tuple(sorted(hash(tuple(sorted(hash((shash(a, colors, memo), e)) for a, e in m))) for m, c in t.args[0].args[0] if m))))
    elif op == "ite":
        cs, ls = set(), set()
        st, seen = [t], set()
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                cs.add(shash(x.args[0], colors, memo))
                st += [x.args[1], x.args[2]]
            else:
                ls.add(shash(x, colors, memo))
        r = hash(("ite", tuple(sorted(cs)), tuple(sorted(ls))))
    elif op in ("sum", "forall", "min_over", "max_over"):
        r = hash((op, tuple(sorted(shash(b, colors, memo) if isinstance(b, N) else 0 for b in t.args[0])), shash(t.args[1], colors, memo)))
    elif op in ("oeq", "min", "max", "eqv") or (op == "hcall" and t.args[0] in ("Add", "Mult")):
        r = hash((op, tuple(sorted(shash(x, colors, memo) for x in t.args))))
    elif op == "inv":
        r = hash((op, shash(t.args[0], colors, memo)))
    elif op == "bv":
        r = hash("bv")
    else:
        r = hash((op,) + tuple(shash(x, colors, memo) for x in t.args))
    memo[t] = r
    return r


def _orders(vs, bounds, body):
    """Orders of commuting bound variables to be tried: variables told apart by their occurrences are fixed."""
    if len(vs) <= 1:
        return [tuple(vs)]
    col = {v: hash(("v", shash(b, {}, {}) if isinstance(b, N) else 0)) for v, b in zip(vs, bounds)}
    for _ in range(2):
        new = {}
        for v in vs:
            c2 = dict(col)
            c2[v] = hash(("self", col[v]))
            new[v] = hash((col[v], shash(body, c2, {})))
        if len(set(new.values())) == len(set(col.values())):
            col = new
            break
        col = new
        if len(set(col.values())) == len(vs):
            break
    groups: dict = {}
    for v in vs:
        groups.setdefault(col[v], []).append(v)
    res = [()]
    for k in sorted(groups):
        g = groups[k]
        ps = list(itertools.permutations(g)) if len(g) <= 5 else [tuple(g)]
        if len(res) * len(ps) > 200:
            ps = ps[:1]
        res = [a + p for a in res for p in ps]
    return res


def _sum_node(vs, body) -> N:
    best = None
    srt = _sum_sort(body)
    nn = "nn" if body.op == "poly" and _nonneg(body) else ""
    perms = _orders(vs, [v.args[1] for v in vs], body)
    for p in perms:
        n = _mk_binder("sum", list(p), [v.args[1] for v in p], body, srt, nn)
        if best is None or n.dg < best.dg:
            best = n
    return atom(best)


def prod_(v, body: N) -> N:
    if body is ONE:
        return ONE
    return atom(_mk_binder("prod", [v], [v.args[1]], body))


def extremum(op, vs, body):
    return atom(_mk_binder(op, vs, [v.args[1] for v in vs], body))


def forall(vs, cond: N) -> N:
    cond = truth(cond)
    if cond in (TRUE, FALSE) or not vs:
        return cond
    if cond.op == "opaque" or cond.opaque:
        return _first_opaque(cond)
    vset = set(vs)
    # hoist independent conditions
    def find(t):
        if t.op == "ite":
            if not (t.args[0].fv & vset):
                return t.args[0]
            r = find(t.args[1])
            return r if r is not None else find(t.args[2])
        return None

    c = find(cond)
    if c is not None:
        return ite(cond_atom(c), forall(vs, restrict(cond, c, True)), forall(vs, restrict(cond, c, False)))
    # one-point rule: forall v. (v == e -> P)
    if cond.op == "ite" and cond.args[0].op == "eq0" and cond.args[2] is TRUE:
        for v in vs:
            if v in cond.args[0].fv:
                d = _delta(mk_ite(cond.args[0], cond.args[1], ZERO), v)
                if d is not None:
                    return forall([w for w in vs if w is not v], d[1])
    # merge nested forall directly below
    while cond.op == "ite" and cond.args[0].op == "forall" and cond.args[1] is TRUE and cond.args[2] is FALSE:
        ws, b = open_binder(cond.args[0])
        return forall(list(vs) + ws, b)
    # conjunction split: forall (a and b) = forall a and forall b
    if cond.op == "ite" and cond.args[2] is FALSE:
        return and_(forall(vs, cond_atom(cond.args[0])), forall(vs, cond.args[1])) if cond.args[1] is not TRUE else _forall_node(vs, cond)
    if cond.op == "ite" and cond.args[1] is FALSE:
        if cond.args[2] is not TRUE:
            return and_(forall(vs, not_(cond_atom(cond.args[0]))), forall(vs, cond.args[2]))
    used = [v for v in vs if v in cond.fv or any(v in (w.args[1].fv if w.args[1] is not None else ()) for w in vs)]
    return _forall_node(used, cond)


def _forall_node(vs, cond) -> N:
    vs = [v for v in vs if v in cond.fv or any(w.args[1] is not None and v in w.args[1].fv for w in vs)]
    # constant bounds small + single var: leave quantified
    best = None
    for p in _orders(vs, [w.args[1] for w in vs], cond):
        n = _mk_binder("forall", list(p), [v.args[1] for v in p], cond)
        if best is None or n.dg < best.dg:
            best = n
    return cond_atom(best)


def exists(vs, cond: N) -> N:
    return not_(forall(vs, not_(cond)))


def first(v, cond: N, kind="first") -> N:
    """Least (greatest) index satisfying cond."""
    cond = truth(cond)
    if cond.op == "ite" and cond.args[0].op == "eq0" and cond.args[2] is FALSE and v in cond.args[0].fv:
        d = _delta(mk_ite(cond.args[0], ONE, ZERO), v)
        if d is not None:
            return d[0]
    if cond is TRUE:
        return ZERO if kind == "first" else sub(v.args[1], ONE)
    if cond.op == "opaque":
        return cond
    if kind == "last" and _lookup(cond, v):
        kind = "first"  # keys of a lookup are distinct
    return atom(_mk_binder(kind, [v], [v.args[1]], cond))


def _lookup(cond: N, v) -> bool:
    """Nothing but equality of the v-th entry with something: a search for a key."""
    while cond.op == "ite":
        a = cond.args[0]
        if cond.args[2] is not FALSE:
            return False
        if a.op == "forall":
            if not _lookup(a.args[1], None):
                return False
        elif a.op not in ("eq0", "oeq", "eqv"):
            return False
        cond = cond.args[1]
    return cond is TRUE


def sel(v, cond: N) -> N:
    """Selection (filter) of the index range of v by cond, as an array-like term."""
    return _mk_binder("sel", [v], [v.args[1]], cond)


# --------------------------------------------------------------------------------------
# substitution (rebuild through smart constructors)
class Ren(dict):
    """Injective renaming of variables (no re-normalisation of binders needed)."""


def _var_of(x):
    if x.op in ("ix", "bv", "st"):
        return x
    if x.op == "poly" and len(x.args[0]) == 1:
        m, c = x.args[0][0]
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("ix", "bv", "st"):
            return m[0][0]
    return None


def subst(t, m: dict):
    if not m:
        return t
    memo: dict = {}
    keys = set(m)
    bvkeys = any(k.op not in ("ix", "st") for k in keys)
    if isinstance(m, Ren):
        bare = {}
        for k, v in m.items():
            x = _var_of(v)
            bare[k] = x
        memo["ren"] = True
    return _subst(t, m, memo, keys, bvkeys)


def _contains(t: N, keys, memo):
    r = memo.get(("c", t))
    if r is None:
        if t in keys:
            r = True
        else:
            kids: list = []
            _walk(t.args, kids)
            r = any(_contains(k, keys, memo) for k in kids)
        memo[("c", t)] = r
    return r


def _subst(t, m, memo, keys, bvkeys):
    if isinstance(t, tuple):
        return tuple(_subst(x, m, memo, keys, bvkeys) for x in t)
    if not isinstance(t, N):
        return t
    if t in m:
        return m[t]
    if not bvkeys and not (t.fv & keys):
        return t
    if bvkeys and not _contains(t, keys, memo):
        return t
    r = memo.get(t)
    if r is not None:
        return r
    go = lambda x: _subst(x, m, memo, keys, bvkeys)
    if "ren" in memo and (t.op in BINDERS or t.op in CLOSED_H):
        r = _rename_binder(t, go)
    else:
        r = _rebuild(t, go, m)
    memo[t] = r
    return r


def _rename_binder(t: N, s):
    """Rename free variables of a closed binder; bound names stay (heights do not change)."""
    new = [s(x) if isinstance(x, (N, tuple)) else x for x in t.args]
    if t.op in ("sum", "forall") and len(t.args[2]) > 1:
        names = t.args[2]
        bounds, body = new[0], new[1]
        best = None
        pos = {nm: k for k, nm in enumerate(names)}
        for q in _orders(list(names), bounds, body):
            p = tuple(pos[x] for x in q)
            # variable p[k] takes the k-th name
            if p == tuple(range(len(names))):
                nb, bb = bounds, body
            else:
                r = Ren({names[p[k]]: names[k] for k in range(len(names))})
                nb = tuple(subst(bounds[p[k]], r) if isinstance(bounds[p[k]], N) else bounds[p[k]] for k in range(len(names)))
                bb = subst(body, r)
            n = mk(t.op, nb, bb, names, *new[3:])
            if best is None or n.dg < best.dg:
                best = n
        n = best
    else:
        n = mk(t.op, *new)
    if n.h < t.h:
        n.h = t.h
    return n


def _as_poly(x: N) -> N:
    """Substitution may map an atom (ix/bv/st) to a poly; wrap atoms."""
    if x.op in ("poly", "ite", "true", "false", "none", "opaque", "str"):
        return x
    return atom(x)


def _rebuild(t: N, s, m):
    op = t.op
    if op == "poly":
        # fast path: atoms map to atoms
        d: dict | None = {}
        for mono, c in t.args[0]:
            mm: dict = {}
            for a, e in mono:
                p = _as_poly(s(a))
                if p.op != "poly" or len(p.args[0]) != 1:
                    d = None
                    break
                m1, c1 = p.args[0][0]
                if c1 != (1, 0) or len(m1) != 1 or m1[0][1] != 1 or m1[0][0].op in ("exp", "pow", "inv1") or m1[0][0] in mm:
                    d = None
                    break
                mm[m1[0][0]] = e
            if d is None:
                break
            key = tuple(sorted(mm.items(), key=lambda ae: (ae[0].dg, ae[1])))
            if key in d:
                o = d[key]
                d[key] = (o[0] + c[0], o[1] + c[1])
            else:
                d[key] = c
        if d is not None:
            return poly_from(d)
        res = ZERO
        for mono, c in t.args[0]:
            term = poly_from({(): c})
            for a, e in mono:
                a2 = s(a)
                p = _as_poly(a2)
                if e == 1:
                    term = mul(term, p)
                elif e.denominator == 1:
                    term = mul(term, power(p, int(e)))
                else:
                    term = mul(term, power(p, e))
            res = add(res, term)
        return res
    if op == "ite":
        c = s(t.args[0])
        cd = c if (is_bool(c) or c.op == "opaque") else cond_atom(c)
        return ite(cd, s(t.args[1]), s(t.args[2]))
    if op == "ix":
        return t
    if op == "el":
        arr = s(t.args[0])
        return el(arr, s(t.args[1]))
    if op == "item":
        return item(s(t.args[0]), s(t.args[1]), t.args[2])
    if op == "aproj":
        return aproj(s(t.args[0]), t.args[1], t.args[2])
    if op == "dim":
        return dim(s(t.args[0]), t.args[1])
    if op == "lenof":
        return lenof(s(t.args[0]))
    if op == "exp":
        return exp_(s(t.args[0]))
    if op == "conj":
        return conj(_as_poly(s(t.args[0])))
    if op == "abs":
        return abs_(s(t.args[0]))
    if op == "real":
        return real_(s(t.args[0]))
    if op == "imag":
        return imag_(s(t.args[0]))
    if op in ("rint", "floor", "ceil", "trunc"):
        return rnd(op, s(t.args[0]))
    if op in ("sin", "cos", "arccos", "angle"):
        return fun1(op, s(t.args[0]))
    if op == "eq0":
        return eq0(s(t.args[0]))
    if op == "lt0":
        return lt0(s(t.args[0]))
    if op == "eqv":
        return eq(s(t.args[0]), s(t.args[1]))
    if op == "inv1":
        return recip(s(t.args[0]))
    if op == "pow":
        return power(s(t.args[0]), t.args[1])
    if op == "powt":
        return pow_term(s(t.args[0]), s(t.args[1]))
    if op == "mod":
        return mod(s(t.args[0]), s(t.args[1]))
    if op == "floordiv":
        return floordiv(s(t.args[0]), s(t.args[1]))
    if op in ("min", "max"):
        return funn(op, *[s(x) for x in t.args])
    if op == "arctan2":
        return funn_ordered(op, *[s(x) for x in t.args])
    if op == "inv":
        return inv_arr(s(t.args[0]))
    if op in BINDERS:
        vs, body = open_binder(t)
        # after opening, bound names are fresh ix; substitute in bounds and body
        vs2 = []
        mm: dict = {}
        for v in vs:
            b = v.args[1]
            nb = s(subst(b, mm)) if isinstance(b, N) else b
            if nb is not b:
                w = mk("ix", v.args[0], nb)
                mm[v] = atom(w)
                vs2.append(w)
            else:
                vs2.append(v)
        if mm:
            body = subst(body, mm)
        body = s(body)
        if op == "lam":
            return lam(vs2, body)
        if op == "sum":
            return sum_(vs2, body)
        if op == "forall":
            return forall(vs2, body)
        if op == "sel":
            return sel(vs2[0], body)
        if op == "prod":
            return prod_(vs2[0], body)
        if op in ("first", "last"):
            return first(vs2[0], body, op)
        return _mk_binder(op, vs2, [v.args[1] for v in vs2], body, *t.args[3:])
    new = tuple(s(x) for x in t.args)
    if op == "oeq":
        new = tuple(sorted(new, key=lambda x: x.dg))
    elif op == "hcall" and len(new) == 3 and new[0] in ("Add", "Mult") and new[2].dg < new[1].dg:
        new = (new[0], new[2], new[1])
    n = mk(op, *new)
    if op in CLOSED_H:
        n.h = max(n.h, t.h)
    return n


_cdg_memo: dict = {}


def cdg(t: N) -> str:
    """Digest that does not depend on the identity of free index / state variables."""
    if not t.fv:
        return t.dg
    r = _cdg_memo.get(t)
    if r is None:
        m = Ren()
        for v in t.fv:
            m[v] = atom(mk("ix", 0, None)) if v.op == "ix" else mk("st", 0, v.args[1], v.args[2])
        r = _cdg_memo[t] = subst(t, m).dg
    return r


CLOSED_H = {"fold", "recseq", "while"}


def close_state(op, vs, parts, *extra):
    """Generic closing of state/index symbols vs over a tuple of terms -> hard node."""
    h0 = max([p.h for p in parts if isinstance(p, N)] + [0])
    names = [mk("bv", h0 + 1 + k) for k in range(len(vs))]
    mm = Ren()
    for v, nm in zip(vs, names):
        mm[v] = nm
    cb = tuple(subst(p, mm) if isinstance(p, N) else p for p in parts)
    n = mk(op, cb, tuple(names), *extra)
    n.h = max(n.h, h0 + len(vs))
    return n


# --------------------------------------------------------------------------------------
def inv_arr(a: N):
    """Matrix inverse of an array term; returns array term."""
    if a.op == "inv":
        return a.args[0]
    # transpose orientation
    at = transpose(a)
    if at.op == "inv":
        return transpose(at.args[0])
    if at.dg < a.dg:
        return transpose(mk("inv", at))
    return mk("inv", a)


def transpose(a: N):
    if a.op == "lam":
        vs, b = open_binder(a)
        if len(vs) != 2:
            return opaque("transpose rank")
        return lam([vs[1], vs[0]], b)
    i, j = new_ix(None), new_ix(None)
    d = getattr(a, "args")
    i = mk("ix", i.args[0], dim(a, 1))
    j = mk("ix", j.args[0], dim(a, 0))
    return lam([i, j], el(a, [atom(j), atom(i)]))


def aproj(t: N, path, sort: str) -> N:
    if t.op == "ite":
        return ite(cond_atom(t.args[0]), aproj(t.args[1], path, sort), aproj(t.args[2], path, sort))
    if t.op == "opaque":
        return t
    if t.op == "tup" and isinstance(path, int) and path < len(t.args):
        return t.args[path]
    return mk("aproj", t, path, sort)


def lenof(t: N) -> N:
    if t.op == "lam":
        return dim(t, 0)
    if t.op == "arr" and isinstance(t.args[-1], tuple) and t.args[-1]:
        return t.args[-1][0]
    if t.op == "ite":
        return ite(cond_atom(t.args[0]), lenof(t.args[1]), lenof(t.args[2]))
    if t.op == "opaque":
        return t
    return atom(mk("lenof", t))


def dim(a: N, axis: int) -> N:
    if a.op == "ite":
        return ite(cond_atom(a.args[0]), dim(a.args[1], axis), dim(a.args[2], axis))
    if a.op == "opaque":
        return a
    if a.op == "lam" and axis < len(a.args[0]):
        b = a.args[0][axis]
        if isinstance(b, N):
            return b
    if a.op == "inv":
        return dim(a.args[0], axis)
    if a.op in ("arr", "aproj") and isinstance(a.args[-1], tuple) and axis < len(a.args[-1]):
        return a.args[-1][axis]
    return atom(mk("dim", a, axis))


# --------------------------------------------------------------------------------------
def show(t, limit=None) -> str:
    """Readable rendering; with a limit, parts beyond the budget are elided (terms are DAGs)."""
    return _show(t, [limit if limit is not None else 1 << 60])


def _show(t, B) -> str:
    if isinstance(t, tuple):
        return "(" + ", ".join(_show(x, B) for x in t) + ")"
    if not isinstance(t, N):
        return str(t)
    B[0] -= 1
    if B[0] < 0:
        return "~"
    o = t.op
    if o == "poly":
        if not t.args[0]:
            return "0"
        out = []
        for m, c in t.args[0]:
            cs = _cstr(c)
            ms = "*".join(_show(a, B) + ("" if e == 1 else f"^{e}") for a, e in m)
            if not ms:
                out.append(cs)
            elif cs == "1":
                out.append(ms)
            else:
                out.append(cs + "*" + ms)
        return "(" + " + ".join(out) + ")" if len(out) > 1 else out[0]
    if o == "ite":
        return f"if[{_show(t.args[0], B)}]{{{_show(t.args[1], B)}}}{{{_show(t.args[2], B)}}}"
    if o == "ix":
        return f"i{t.args[0]}"
    if o == "bv":
        return f"b{t.args[0]}"
    if o == "st":
        return f"s{t.args[0]}"
    if o in ("sym", "arr"):
        return str(t.args[0])
    if o == "el":
        return f"{_show(t.args[0], B)}[{', '.join(_show(x, B) for x in t.args[1])}]"
    if o in BINDERS:
        bs = ",".join(f"{_show(n, B)}<{_show(b, B)}" for n, b in zip(t.args[2], t.args[0]))
        return f"{o}[{bs}]({_show(t.args[1], B)})"
    if o == "eq0":
        return f"{_show(t.args[0], B)}==0"
    if o == "lt0":
        return f"{_show(t.args[0], B)}<0"
    if o in ("true", "false", "none"):
        return o
    return f"{o}(" + ", ".join(_show(x, B) for x in t.args) + ")"


def _cstr(c):
    r, i = c
    if i == 0:
        return str(r)
    if r == 0:
        return f"{i}j"
    return f"({r}+{i}j)"
