"""Three-valued comparison of two value-number terms (reference ``s`` against code ``c``).

EQ    the two terms are the same value number;
DIFF  the terms align structurally and the remaining mismatch is between quantities that are algebraically
      independent (inputs, indices, coefficients, swapped operators, dropped conditions, ...), so that the two
      functions provably differ as functions of their inputs;
UND   the normal forms differ but no definite difference was isolated (never reported).
"""
from __future__ import annotations

import itertools
import math
import os
from fractions import Fraction as Fr

from . import terms as T
from .terms import N

EQ, DIFF, UND = "EQ", "DIFF", "UND"


def hkey(t):
    """Hash of a term up to the names of its variables and the order of commutative parts."""
    if t is None or isinstance(t, (str, int)):
        return t
    return T.shash(t, {}, _HK)


_HK: dict = {}


def covers(c: N) -> bool:
    """range(n) included in the elements of an n-element list: then they are equal."""
    if c.args[0] not in ("LtE", "GtE"):
        return False
    a, b = c.args[1:] if c.args[0] == "LtE" else (c.args[2], c.args[1])
    sets = []
    for x in (a, b):
        if not (isinstance(x, N) and x.op == "hcall" and x.args[0] == "set" and len(x.args) >= 2):
            return False
        y = x.args[1]
        y = y[0] if isinstance(y, tuple) and len(y) == 1 else y
        if not (isinstance(y, N) and y.op == "lam"):
            return False
        sets.append(y)
    a, b = sets
    if len(a.args[0]) != 1 or len(b.args[0]) != 1 or a.args[0] != b.args[0]:
        return False
    vs, body = T.open_binder(a)
    return body is T.atom(vs[0])


def control(t):
    """Whether a part of a loop is absent (a constant truth value)."""
    return t if t in (T.TRUE, T.FALSE) else t.op == "tup" and any(x in (T.TRUE, T.FALSE) for x in t.args) if isinstance(t, N) else None


class R:
    __slots__ = ("v", "why", "_roots")

    def __init__(self, v, why=(), roots=None):
        self.v, self.why = v, tuple(why)[:6]
        self._roots = roots

    @property
    def roots(self):
        if self._roots is None:
            self._roots = frozenset()
        return self._roots

    def at(self, where):
        return R(self.v, [(where + w if w.startswith("[") or not where else where + " > " + w) for w in self.why], self.roots)

    def __repr__(self):
        return f"{self.v}{list(self.why)}"


E = R(EQ)


def und(why):
    return R(UND, [why])


def dif(why, s=None, c=None, roots=None):
    if roots is None:
        roots = frozenset() if s is None and c is None else frozenset([(hkey(s), hkey(c))])
    return R(DIFF, [why], roots)


def allroots(rs):
    out = frozenset()
    for r in rs:
        out |= r.roots
    return out


def sh(t, n=160):
    n = int(os.environ.get("SHOW", n))
    s = T.show(t, max(200, n)) if isinstance(t, (N, tuple)) else str(t)
    return s if len(s) <= n else s[: n - 3] + "..."


def any_of(rs):
    """Independent observables: one definite difference suffices."""
    d = [r for r in rs if r.v == DIFF]
    if d:
        return R(DIFF, [w for r in d for w in r.why], allroots(d))
    u = [r for r in rs if r.v == UND]
    if u:
        return R(UND, [w for r in u for w in r.why])
    return E


def only_one(rs, what):
    """Interacting parts: definite only if exactly one part differs."""
    bad = [r for r in rs if r.v != EQ]
    if not bad:
        return E
    if len(bad) == 1:
        return bad[0]
    if all(r.v == DIFF for r in bad):
        common = frozenset.intersection(*[r.roots for r in bad])
        if common:
            return R(DIFF, [w for r in bad for w in r.why], common)
    return R(UND, [f"{what}: {len(bad)} interacting parts differ"] + [w for r in bad for w in r.why])


_FREE_ATOMS = {"sym", "ix", "bv", "st", "pi", "e"}
_FREE_ARRS = {"arr", "st", "bv", "ix"}


def free_arr(t: N) -> bool:
    if t.op in _FREE_ARRS:
        return True
    if t.op == "aproj":
        return free_arr(t.args[0]) or t.args[0].op == "call"
    if t.op == "item":
        return free_arr(t.args[0]) and isinstance(t.args[1], N) and free_poly(t.args[1])
    if t.op in ("call",):
        return True
    return False


def free_atom(a: N) -> bool:
    if a.op in _FREE_ATOMS:
        return True
    if a.op == "el":
        return free_arr(a.args[0]) and all(free_poly(i) for i in a.args[1])
    if a.op in ("dim", "lenof"):
        return free_arr(a.args[0])
    if a.op == "aproj":
        return free_arr(a)
    if a.op == "conj":
        return free_poly(a.args[0]) if a.args[0].op == "poly" else free_atom(a.args[0])
    return False


def free_poly(p: N) -> bool:
    return p.op == "poly" and all(free_atom(a) for m, _ in p.args[0] for a, _e in m)


def calls_in(t, out):
    if t.op == "call":
        out.setdefault(t.args[0], set()).add(t)
        return
    if t.op in ("poly", "el", "aproj", "item", "dim", "lenof", "conj"):
        for x in T.kids(t):
            calls_in(x, out)


def clash(*ts):
    """Two results of one function with different arguments: independent only if the arguments are."""
    out: dict = {}
    for t in ts:
        if isinstance(t, N):
            calls_in(t, out)
    return any(len(v) > 1 for v in out.values())


def atoms_of(p: N):
    return {a for m, _ in p.args[0] for a, _e in m}


#: node kinds whose normal form is complete enough for two different forms to be two different functions
_PLAIN = {
    "poly", "sym", "ix", "bv", "pi", "e", "el", "arr", "dim", "lenof", "conj", "real", "imag", "abs", "rint", "floor",
    "ceil", "trunc", "mod", "exp", "sin", "cos", "arccos", "arcsin", "arctan2", "angle", "pow", "sum", "forall", "lam",
    "ite", "true", "false", "none", "eq0", "lt0", "oeq", "min", "max", "min_over", "max_over", "first", "last", "count",
    "sel", "nth", "str", "strsym", "char", "eqv", "tup", "rintc", "sign", "norm",
}  # fmt: skip
#: kinds related to each other by identities: both sides have to use the same ones (or one side none at all)
_RELATED = (
    {"exp", "sin", "cos", "arccos", "arcsin", "arctan2", "angle"},
    {"trunc", "rintc", "floor"},
    {"forall", "first", "last", "count", "sel", "nth", "min_over", "max_over"},
    {"min", "max", "abs", "sign"},
)
_INVERSE = {"arccos", "arcsin", "arctan2", "angle"}
VETO = "left open: "


def parts_beyond(t, out, seen):
    """Maximal subterms that are not of a plain kind."""
    if isinstance(t, tuple):
        for x in t:
            parts_beyond(x, out, seen)
        return
    if not isinstance(t, N) or t in seen:
        return
    seen.add(t)
    if t.op == "el" and any((T.as_int(i) or 0) < 0 for i in t.args[1] if isinstance(i, N)):
        out.add(("wrapped", t))
    elif t.op not in _PLAIN:
        out.add(hkey(t))
    else:
        for x in T.kids(t):
            parts_beyond(x, out, seen)


def closed_forms(s, c):
    """Both sides are plain expressions over the same remaining parts."""
    if s.opaque or c.opaque:
        return False
    a, b = set(), set()
    sa, sb = set(), set()
    parts_beyond(s, a, sa)
    parts_beyond(c, b, sb)
    if a != b:
        return False
    fl = {"rint": "floor", "ceil": "floor", "mod": "floor"}
    ka, kb = {fl.get(x.op, x.op) for x in sa}, {fl.get(x.op, x.op) for x in sb}
    for g in _RELATED:
        x, y = ka & g, kb & g
        if x != y and ((x and y) or (x | y) & _INVERSE):
            return False
    return True


def spread(t, cap=3000):
    """Sums over short constant ranges written out; None if that gets too large."""
    for _ in range(4):
        m = {}
        for x in T.subnodes(t):
            if x.op != "sum":
                continue
            ks = [T.as_int(b) if isinstance(b, N) else None for b in x.args[0]]
            n = 1
            for k in ks:
                n *= k if k is not None and k <= 4 else 1
            if all(k is None or k > 4 for k in ks):
                continue
            if n > 81:
                return None
            vs, body = T.open_binder(x)
            fixed = [v for v, k in zip(vs, ks) if k is not None and k <= 4]
            rest = [v for v in vs if v not in fixed]
            if any(isinstance(v.args[1], N) and v.args[1].fv & set(fixed) for v in rest):
                return None
            total = T.ZERO
            for p in itertools.product(*[range(T.as_int(v.args[1])) for v in fixed]):
                total = T.add(total, T.sum_(rest, T.subst(body, {v: T.const(i) for v, i in zip(fixed, p)})))
                if total.op == "poly" and len(total.args[0]) > cap:
                    return None
            m[x] = total
        if not m:
            return t
        t = T.subst(t, m)
    return t


def equal_expanded(s, c):
    """Equal once short sums are written out? (None: not decided)"""
    a, b = spread(s), spread(c)
    if a is None or b is None:
        return None
    return a is b or by_floor(a) is by_floor(b)


def by_floor(t):
    """Every rounding in terms of floor."""
    for _ in range(4):
        m = {}
        for x in T.subnodes(t):
            if x.op == "mod":
                m[x] = T.sub(x.args[0], T.mul(x.args[1], T.rnd("floor", T.div(x.args[0], x.args[1]))))
            elif x.op == "ceil":
                m[x] = T.neg(T.rnd("floor", T.neg(x.args[0])))
            elif x.op == "rint":
                m[x] = T.rnd("floor", T.add(x.args[0], T.const(Fr(1, 2))))
        if not m:
            break
        t = T.subst(t, m)
    return t


def only_sizes(t, seen=None):
    """Nothing but sizes of arrays and counts: these may be related to each other."""
    if t.op in ("dim", "lenof", "count"):
        return True
    if t.op == "sym":
        return t.args[1] == "int"
    return t.op in ("poly", "min", "max") and all(only_sizes(x) for x in T.kids(t))


def indices_below(t):
    """n if t is the set of 0, ..., n - 1."""
    if t.op != "hcall" or t.args[0] != "set":
        return None
    r = t.args[1]
    if isinstance(r, N) and r.op == "lam" and len(r.args[0]) == 1:
        vs, body = T.open_binder(r)
        if body is T.atom(vs[0]):
            return vs[0].args[1]
    return None


def by_determinant(s, c):
    """c looks at matrices only through their determinants, s at each of their entries."""
    if any(x.op == "det" for x in T.subnodes(s)):
        return False
    seen = []

    def go(x):
        if not isinstance(x, N):
            return all(go(y) for y in x) if isinstance(x, (tuple, list)) else True
        if x.op == "det":
            seen.append(x)
            return True
        if x.op in ("el", "call", "arr", "fold", "aproj", "item", "while", "recseq", "hcall"):
            return False
        return all(go(y) for y in T.kids(x))

    return go(T.open_binder(c)[1]) and bool(seen)


def rows_of_table(x):
    """The set of the entries of one row or column of a multiplication table."""
    r = x.args[1]
    if not isinstance(r, N) or r.op != "lam" or len(r.args[0]) != 1:
        return False
    vs, body = T.open_binder(r)
    a = single_atom(body) if body.op == "poly" else body
    return a is not None and a.op == "el" and a.args[0].op == "call" and a.args[0].args[0] == "get_cayley_table" and body is T._as_poly(a)


def permutation_row(a):
    """The condition that a row of a multiplication table contains every index."""
    if a.op != "oeq":
        return False
    return any(indices_below(y) is not None and x.op == "hcall" and x.args[0] == "set" and rows_of_table(x) for x, y in (a.args, a.args[::-1]))


def all_rows(a):
    """The condition that one row, or every row, of a multiplication table is a permutation."""
    if a.op == "forall" and len(a.args[0]) == 1:
        a = T.open_binder(a)[1]
        if a.op != "ite" or a.args[1] is not T.TRUE or a.args[2] is not T.FALSE:
            return False
        a = a.args[0]
    return permutation_row(a)


def entrywise_bounds(t):
    """A condition that bounds the entries of a multiplication table one by one, or their sum: it does not make a row a permutation."""
    rows = {x for x in T.subnodes(t) if x.op == "el" and x.args[0].op == "call" and x.args[0].args[0] == "get_cayley_table"}
    ok = {"poly", "ite", "true", "false", "el", "call", "arr", "sym", "bv", "ix", "lt0", "none", "sum", "forall", "eq0"}
    if len(rows) != 1 or t.opaque:
        return False

    def go(x):
        if not isinstance(x, N) or x in rows or x.op == "floordiv" and not any(y in rows for y in T.subnodes(x)):
            return True
        if x.op not in ok:
            return False
        if x.op == "sum":
            return not any(y.op == "ite" for y in T.subnodes(x))
        if x.op == "eq0":
            return not any(y in rows and not inside_sum(x, y) for y in T.subnodes(x)) and all(go(y) for y in T.kids(x))
        return all(go(y) for y in T.kids(x))

    return go(t)


def inside_sum(t, y):
    """Every occurrence of y in t is inside a sum."""
    if t is y:
        return False
    if t.op == "sum":
        return True
    return all(inside_sum(x, y) for x in T.kids(t))


def symbolic(t):
    """An expression that certainly changes with the size of some input."""
    return bool(atoms_of(t)) and all(a.op in ("sym", "min", "max") and not any(T.as_int(x) is not None for x in a.args) for a in atoms_of(t)) and len(t.args[0]) <= 2


def used_vars(t):
    return {x for x in T.subnodes(t) if x.op == "bv"} if isinstance(t, N) else set()


class Diff:
    def __init__(self, assume=None):
        self.memo: dict = {}
        self.budget = 40000

    # ------------------------------------------------------------------
    def diff(self, s, c) -> R:
        if s is c:
            return E
        if isinstance(s, str) or isinstance(c, str) or s is None or c is None:
            return E if s == c else und(f"{s!r} / {c!r}")
        if isinstance(s, tuple) and isinstance(c, tuple):
            if len(s) != len(c):
                return und("arity")
            return any_of([self.diff(a, b) for a, b in zip(s, c)])
        if not isinstance(s, N) or not isinstance(c, N):
            return E if s == c else und(f"{sh(s)} / {sh(c)}")
        k = (s, c)
        r = self.memo.get(k)
        if r is None:
            self.budget -= 1
            if self.budget < 0:
                return und("budget")
            self.memo[k] = und("cycle")
            r = self._diff(s, c)
            if r.v == UND:
                if only_sizes(s) and only_sizes(c):
                    if any(T.as_int(x) is not None and y.op == "poly" and symbolic(y) for x, y in ((s, c), (c, s))):
                        r = dif(f"{sh(c)} instead of {sh(s)}", s, c)
                    else:
                        r = und(VETO + sh(c) + " / " + sh(s))
                elif one_real(s, c):
                    r = dif(f"{sh(c)} instead of {sh(s)}", s, c)
                elif matrix_values(s, c):
                    r = dif(f"matrix products differ: {sh(c)} instead of {sh(s)}", s, c)
                elif not any(VETO in w for w in r.why) and closed_forms(s, c):
                    same = equal_expanded(s, c)
                    if same:
                        r = E
                    elif same is not None:
                        r = dif("(closed form) " + (r.why[0] if r.why else ""), s, c)
            self.memo[k] = r
        return r

    def _diff(self, s: N, c: N) -> R:
        if s.op == "opaque" or c.op == "opaque":
            return und("opaque: " + sh(c if c.op == "opaque" else s))
        if s.op == "ite" or c.op == "ite":
            return self.ite(s, c)
        for a, b in ((s, c), (c, s)):
            if b.op == "hcall" and b.args[0] == "around" and b.args[1][0] is a and (a.op in ("arr", "st", "bv", "call", "lam") or a.op == "aproj") and not a.opaque:
                return dif(("rounded: " if b is c else "not rounded: ") + sh(c), s, c)
        bs, bc = s in (T.TRUE, T.FALSE), c in (T.TRUE, T.FALSE)
        if bs and bc:
            return dif(f"{sh(c)} instead of {sh(s)}", s, c)
        if bs != bc and (s.op == "poly" or c.op == "poly"):
            return self.diff(T.num_of(s), T.num_of(c))
        if s is T.NONE or c is T.NONE:
            return dif(f"{sh(c)} instead of {sh(s)}", s, c)
        if s.op == "str" or c.op == "str":
            if s.op == c.op:
                return dif(f"{sh(c)} instead of {sh(s)}", s, c)
            return und(f"{sh(c)} / {sh(s)}")
        if s.op == "poly" and c.op == "poly":
            return self.poly(s, c)
        if s.op == "poly" or c.op == "poly":
            # wrapped atoms
            return self.poly(T._as_poly(s), T._as_poly(c))
        if s.op == "tup" and c.op == "tup":
            if len(s.args) != len(c.args):
                return dif(f"{len(c.args)} components instead of {len(s.args)}", s, c)
            return any_of([self.diff(a, b).at(f"[{i}]") for i, (a, b) in enumerate(zip(s.args, c.args))])
        if c.op == "emptylist" and s.op in ("lam", "aproj", "listcat", "fold"):
            return dif(f"empty list instead of {sh(s)}", s, c)
        if s.op == "emptylist" and c.op in ("lam", "aproj", "listcat", "fold", "call"):
            return dif(f"{sh(c)} instead of an empty list", s, c)
        if s.op == "lam" and c.op != "lam" and c.op in ("arr", "aproj", "item", "inv", "call", "st", "bv", "fold"):
            return self.lam_vs(s, c, False)
        if c.op == "lam" and s.op != "lam" and s.op in ("arr", "aproj", "item", "inv", "call", "st", "bv", "fold"):
            return self.lam_vs(c, s, True)
        return self.atom(s, c)

    # ------------------------------------------------------------------
    def lam_vs(self, lam: N, other: N, swap: bool) -> R:
        vs, body = T.open_binder(lam)
        o = T.el(other, [T.atom(v) for v in vs])
        r = self.diff(o, body) if swap else self.diff(body, o)
        return r if r.v != DIFF or free_arr(other) or independent(other) or other.op == "inv" else R(UND, r.why)

    def bounds(self, bs, bc) -> R:
        rs = []
        for a, b in zip(bs, bc):
            if a is b:
                continue
            if not isinstance(a, N) or not isinstance(b, N):
                rs.append(und("bound"))
                continue
            if a.op == "poly" and b.op == "poly":
                cs = single_atom(a)
                if cs is not None and cs.op == "count" and cs.args[0].op == "sel" and cs.args[0].args[0][0] is b:
                    rs.append(dif(f"selection {sh(cs.args[0])} dropped", cs, 0))
                    continue
                if capped(a, b) or capped(b, a):
                    rs.append(dif(f"range {sh(b)} instead of {sh(a)}", a, b))
                    continue
                if free_poly(a) and free_poly(b) and atoms_of(b) <= atoms_of(a) and not clash(a, b):
                    rs.append(dif(f"range {sh(b)} instead of {sh(a)}", a, b))
                else:
                    r = self.diff(a, b)
                    rs.append(r if r.v != DIFF else r)
                continue
            rs.append(self.diff(a, b))
        return any_of(rs)

    def open2(self, s: N, c: N, perm=None):
        vs, sb = T.open_binder(s)
        names = c.args[2]
        m = T.Ren()
        order = perm or range(len(vs))
        for k, p in enumerate(order):
            m[names[k]] = T.atom(vs[p])
        return vs, sb, T.subst(c.args[1], m), m

    def binder(self, s: N, c: N) -> R:
        if len(s.args[0]) != len(c.args[0]):
            if s.op == "forall" and any(isinstance(b, N) and single_atom(b) is not None and single_atom(b).op == "min" and any((T.as_int(k) or 0) > 1 for k in T.kids(single_atom(b))) for b in c.args[0]) \
                    and all(isinstance(b, N) and single_atom(b) is not None and single_atom(b).op == "sym" for b in s.args[0]):
                return dif(f"{s.op}: a limited number of entries instead of all", s, c)
            if s.op == "forall" and len(c.args[0]) < len(s.args[0]) and by_determinant(s, c):
                return dif("a condition on determinants instead of one on every entry", s, c)
            if s.op == "forall":
                q = T.open_binder(s)[1]
                if q.op == "ite" and permutation_row(q.args[0]) and q.args[1] is T.TRUE and entrywise_bounds(T.open_binder(c)[1]):
                    return dif(f"rows are not required to be permutations: {sh(T.open_binder(c)[1])}", s, c)
            return und(f"{s.op}: {len(c.args[0])} indices instead of {len(s.args[0])}")
        r = self._binder(s, c)
        if r.v == UND and s.op in ("forall", "sum"):
            x = self.shifted(s, c)
            if x is not None:
                return x
        if r.v == UND and s.op == "lam" and self.permuted(s, c):
            return dif(f"order changed: {sh(T.open_binder(c)[1])}", s, c)
        if r.v != EQ and s.op in ("lam", "sum"):
            x = self.expanded(s, c)
            if x is not None and (s.op == "lam" or x.v != UND):
                return x
        return r

    def permuted(self, s: N, c: N):
        """The same entries in an order that the input decides."""
        if len(s.args[0]) != 1 or len(c.args[0]) != 1:
            return False
        vs, sb, cb, m = self.open2(s, c)
        i = T.atom(vs[0])
        for x in T.subnodes(cb):
            if x.op == "permat" and T._as_poly(x.args[1]) is i and reorders(x.args[0]) and T.subst(sb, {vs[0]: T.atom(x)}) is cb:
                return True
        return False

    def shifted(self, s: N, c: N):
        """The same terms except for a few at the start of the range."""
        n = len(s.args[0])
        off = []
        for a, b in zip(s.args[0], c.args[0]):
            d = T.as_int(T.sub(a, b)) if isinstance(a, N) and isinstance(b, N) and a.op == b.op == "poly" else None
            off.append(0 if a is b else d)
        if None in off or sum(k != 0 for k in off) != 1 or not all(abs(k) <= 4 for k in off):
            return None
        (p,) = [q for q in range(n) if off[q]]
        k = off[p]
        a, b = (s, c) if k > 0 else (c, s)
        k = abs(k)
        vs, ab, bb, _m = self.open2(a, b)
        if T.subst(bb, {vs[p]: T.sub(T.atom(vs[p]), T.const(k))}) is not ab:
            return None
        for i in range(k):
            x = T.subst(ab, {vs[p]: T.const(i)})
            if x is not (T.TRUE if s.op == "forall" else T.ZERO) and not x.opaque:
                if not any(y.op in ("el", "item", "call") for y in T.subnodes(x)):
                    return None
                return dif(f"{s.op}: term {i} is {'left out' if a is s else 'extra'}: {sh(x)}", s, c)
        return E

    def expanded(self, s: N, c: N):
        """Compare entry by entry along indices of constant small range."""
        n = len(s.args[0])
        consts = []
        total = 1
        for a, b in zip(s.args[0], c.args[0]):
            k = T.as_int(a) if isinstance(a, N) else None
            if a is not b:
                if k is not None or s.op == "sum":
                    return None
            if k is not None and k >= 1 and total * k <= 27:
                total *= k
                consts.append(k)
            else:
                consts.append(None)
        if total == 1 or (s.op == "sum" and (None in consts or total > 9)):
            return None
        vs, sb, cb, m = self.open2(s, c)
        if any(consts[k] is None and isinstance(c.args[0][k], N) and T.subst(c.args[0][k], m) is not vs[k].args[1] for k in range(n)):
            return None
        rs = []
        ts, tc = T.ZERO, T.ZERO
        for tup in itertools.product(*[range(k) if k is not None else (None,) for k in consts]):
            mm = {v: T.const(k) for v, k in zip(vs, tup) if k is not None}
            a, b = T.subst(sb, mm), T.subst(cb, mm)
            if s.op == "sum":
                ts, tc = T.add(ts, a), T.add(tc, b)
                continue
            r = self.diff(a, b)
            if r.v != EQ:
                rs.append(r.at("[" + ",".join("*" if k is None else str(k) for k in tup) + "] "))
        if s.op == "sum":
            if ts is tc:
                return E
            if ts.op in ("sum", "opaque") or tc.op in ("sum", "opaque"):
                return None
            return self.diff(ts, tc)
        return any_of(rs)

    def _binder(self, s: N, c: N) -> R:
        n = len(s.args[0])
        if s.op in ("sum", "forall", "min_over", "max_over") and 1 < n <= 4:
            perms = list(itertools.permutations(range(n)))
        else:
            perms = [tuple(range(n))]
        best = None
        for p in perms:
            vs, sb, cb, m = self.open2(s, c, p)
            cbounds = [T.subst(b, m) if isinstance(b, N) else b for b in c.args[0]]
            sbounds = [vs[p[k]].args[1] for k in range(n)]
            br = self.bounds(sbounds, cbounds)
            body = self.diff(sb, cb)
            if br.v == EQ and body.v == EQ:
                return E
            if br.v == EQ:
                r = body
            elif body.v == EQ:
                r = br
            elif s.op == "lam" and br.v == DIFF:
                r = br
            elif s.op == "lam" and body.v == DIFF and br.v == UND:
                r = body
            else:
                r = R(UND, br.why + body.why)
            key = {DIFF: 0, UND: 1}[r.v]
            if best is None or (best[0], best[2]) > (key, len(r.why)):
                # a permutation for which nothing definite was found keeps the result undecided only when it is
                # at least as close
                best = (key, r, len(r.why))
        return best[1].at(s.op)

    # ------------------------------------------------------------------
    # polynomials
    def poly(self, s: N, c: N) -> R:
        r = self._poly(s, c)
        return (self.alien(s, c) or r) if r.v == UND else r

    def _poly(self, s: N, c: N) -> R:
        if s is c:
            return E
        # centred residues q - rint(q)
        fs, fc = self.residue(s), self.residue(c)
        if fs is not None and fc is not None and (fs[0], fs[1]) == (fc[0], fc[1]):
            return self.residue_diff(fs[2], fc[2])
        if (fs is None) != (fc is None):
            q = (fs or fc)[2]
            o = c if fs else s
            k = (fs or fc)[0]
            if o is T._scale(q, (k, Fr(0))) and not self.mentions(o, "rint"):
                return dif(f"{sh(c)} instead of {sh(s)} (reduction modulo integers)", roots=frozenset(["rint"]))
        ds, dc = dict(s.args[0]), dict(c.args[0])
        rs = {m: k for m, k in ds.items() if dc.get(m) != k}
        rc = {m: k for m, k in dc.items() if ds.get(m) != k}
        shared = [m for m in rs if m in rc]
        only_s = [m for m in rs if m not in rc]
        only_c = [m for m in rc if m not in rs]
        D = T._padd(s, T._scale(c, (Fr(-1), Fr(0))))
        msg = f"{sh(c)} instead of {sh(s)}"
        if free_poly(D) and not clash(D):
            return dif(msg, s, c)
        if not only_s and not only_c:
            # same monomials, different coefficients
            if len(shared) == 1 or all(self.simple_mono(m) for m in shared):
                return dif(msg, s, c)
            # a common rescaling
            ratios = {self.ratio(rs[m], rc[m]) for m in shared}
            if len(ratios) == 1 and len(shared) == len(ds):
                return dif(msg, s, c)
            return und(msg)
        if shared:
            return und(msg)
        if not only_c:
            # terms missing from the code
            if len(only_s) == 1 and len(dc) + 1 == len(ds):
                return dif("term missing: " + sh(T.poly_from({m: rs[m] for m in only_s})) + " in " + sh(c), T.poly_from({m: rs[m] for m in only_s}), 0)
            return und(msg)
        if not only_s:
            if len(only_c) == 1 and self.visible_mono(only_c[0]):
                return dif("extra term: " + sh(T.poly_from({m: rc[m] for m in only_c})), 0, T.poly_from({m: rc[m] for m in only_c}))
            return und(msg)
        if len(only_s) == len(only_c) <= 4:
            best = None
            for perm in itertools.permutations(only_c):
                rsn = [self.mono(a, rs[a], b, rc[b]) for a, b in zip(only_s, perm)]
                nd = [r for r in rsn if r.v != EQ]
                if not nd:
                    return E
                if len(nd) == 1:
                    r = nd[0]
                elif all(r.v == DIFF for r in nd) and self.same_kind(nd):
                    r = R(DIFF, [w for r in nd for w in r.why], frozenset.intersection(*[r.roots for r in nd]))
                else:
                    r = R(UND, [w for r in nd for w in r.why])
                key = (0 if r.v == DIFF else 1, len(nd))
                if best is None or key < best[0]:
                    best = (key, r)
            return best[1]
        # one against many: a dropped/extra factor distributed over sums
        return und(msg)

    def alien(self, s, c):
        """One side is linear in an input the other side does not mention."""
        for a, b, what in ((c, s, "depends on"), (s, c, "does not depend on")):
            inb = None
            for m, _k in a.args[0]:
                for x, e in m:
                    if x.op != "el" or e != 1 or not independent(x.args[0]) or not all(free_poly(i) for i in x.args[1]):
                        continue
                    if inb is None:
                        inb = set(T.subnodes(b))
                    A = x.args[0]
                    if A in inb or b.opaque or a.opaque:
                        continue
                    hits = [mm for mm, _ in a.args[0] if any(A in set(T.subnodes(y)) for y, _e in mm)]
                    if len(hits) == 1 and self.visible_mono([f for f in hits[0] if f[0] is not x]):
                        return dif(f"{sh(c)} instead of {sh(s)} ({what} {sh(A, 60)})", s, c)
        return None

    def same_kind(self, rs):
        # several monomials changed by the same substitution, e.g. one array swapped for another
        return bool(frozenset.intersection(*[r.roots for r in rs]))

    @staticmethod
    def ratio(a, b):
        n2 = b[0] * b[0] + b[1] * b[1]
        if n2 == 0:
            return None
        return T._cmul(a, (b[0] / n2, -b[1] / n2))

    def simple_mono(self, m):
        return all(free_atom(a) or a.op in ("exp", "sum", "first", "rint", "floor", "abs") for a, _ in m)

    def visible_mono(self, m):
        """Cannot be identically zero / one."""
        return all(free_atom(a) or (a.op in ("exp", "abs", "rint", "floor", "sin", "cos") and free_poly(a.args[0])) for a, _ in m)

    def mentions(self, t, op):
        return any(x.op == op for x in T.subnodes(t))

    def residue(self, p: N):
        """p == k*(q - rint(q)) -> (k, 'rint', q)."""
        for m, cf in p.args[0]:
            if len(m) == 1 and m[0][0].op in ("rint", "floor") and m[0][1] == 1 and cf[1] == 0:
                a = m[0][0]
                q = a.args[0]
                k = -cf[0]
                if T._padd(p, T._scale(T.atom(a), (k, Fr(0)))) is T._scale(q, (k, Fr(0))):
                    return (k, a.op, q)
        return None

    def residue_diff(self, qs, qc):
        D = T._padd(qs, T._scale(qc, (Fr(-1), Fr(0))))
        if T.is_int(D):
            return E
        return self.diff(qs, qc)

    def mono(self, ms, ks, mc, kc) -> R:
        ds, dc = dict(ms), dict(mc)
        os_ = [(a, e) for a, e in ms if dc.get(a) != e]
        oc = [(a, e) for a, e in mc if ds.get(a) != e]
        msg = f"{sh(T.poly_from({mc: kc}))} instead of {sh(T.poly_from({ms: ks}))}"
        if not oc:
            # factor dropped
            if all(a.op in ("dim", "lenof") and not free_arr(a.args[0]) for a, _ in os_):
                return und(msg)
            if ks == kc or True:
                return dif(f"factor {sh(T.poly_from({tuple(os_): (Fr(1), Fr(0))}))} missing in {sh(T.poly_from({mc: kc}))}", T.poly_from({tuple(os_): (Fr(1), Fr(0))}), 1)
        if not os_:
            if all(free_atom(a) or (a.op in ("exp",) and free_poly_deep(a.args[0])) or unbounded(a) for a, _ in oc):
                return dif(f"extra factor {sh(T.poly_from({tuple(oc): (Fr(1), Fr(0))}))} in {sh(T.poly_from({mc: kc}))}", 1, T.poly_from({tuple(oc): (Fr(1), Fr(0))}))
            return und(msg)
        if ks != kc:
            if len(os_) == len(oc) == 1 and os_[0][1] == oc[0][1] and free_atom(os_[0][0]) and free_atom(oc[0][0]) and not clash(os_[0][0], oc[0][0]):
                return dif(msg, T.poly_from({ms: ks}), T.poly_from({mc: kc}))
            return und(msg)
        if len(os_) == len(oc) == 1:
            (a, e), (b, f) = os_[0], oc[0]
            if e != f:
                if a is b:
                    return dif(msg, T.poly_from({ms: ks}), T.poly_from({mc: kc}))
                return und(msg)
            return self.atom(a, b)
        if len(os_) == len(oc) <= 4:
            best = None
            for perm in itertools.permutations(oc):
                if any(e != f for (_a, e), (_b, f) in zip(os_, perm)):
                    continue
                rs = [self.atom(a, b) for (a, _e), (b, _f) in zip(os_, perm)]
                nd = [r for r in rs if r.v != EQ]
                if not nd:
                    return E
                if len(nd) == 1:
                    r = nd[0]
                elif all(r.v == DIFF for r in nd) and all(free_atom(a) for a, _ in os_ + oc) and not clash(*[a for a, _ in os_ + oc]):
                    r = R(DIFF, [msg], allroots(nd))
                elif all(r.v == DIFF for r in nd) and self.same_kind(nd):
                    r = R(DIFF, nd[0].why, frozenset.intersection(*[r.roots for r in nd]))
                else:
                    r = R(UND, [w for r in nd for w in r.why])
                key = (0 if r.v == DIFF else 1, len(nd))
                if best is None or key < best[0]:
                    best = (key, r)
            if best is not None:
                return best[1]
        return und(msg)

    # ------------------------------------------------------------------
    # atoms / generic nodes
    SWAP = [
        {"real", "imag", "abs"},
        {"rint", "floor", "ceil", "trunc"},
        {"first", "last"},
        {"min_over", "max_over"},
        {"sin", "cos"},
        {"min", "max"},
        {"sum", "prod"},
        {"lt0", "eq0"},
    ]

    def atom(self, s: N, c: N) -> R:
        if s is c:
            return E
        k = ("a", s, c)
        r = self.memo.get(k)
        if r is None:
            self.memo[k] = und("cycle")
            r = self.memo[k] = self._atom(s, c)
        return r

    def _atom(self, s: N, c: N) -> R:
        msg = f"{sh(c)} instead of {sh(s)}"
        if s.op == "opaque" or c.op == "opaque":
            return und(msg)
        if s.op == c.op:
            op = s.op
            if op == "el":
                ra = self.arr(s.args[0], c.args[0])
                if len(s.args[1]) != len(c.args[1]):
                    return dif(msg, s, c) if free_atom(s) and free_atom(c) and not clash(s, c) else und(msg)
                ri = [self.diff(a, b) for a, b in zip(s.args[1], c.args[1])]
                if ra.v == EQ:
                    r = any_of(ri)
                    if r.v == DIFF:
                        return R(DIFF, [f"element {sh(c)} instead of {sh(s)}"] + list(r.why), r.roots)
                    return r
                if all(r.v == EQ for r in ri):
                    return ra
                if free_atom(s) and free_atom(c) and not clash(s, c):
                    return dif(msg, s, c)
                return und(msg)
            if op == "item":
                ra, ri = self.diff(s.args[0], c.args[0]), self.diff(s.args[1], c.args[1])
                return only_one([ra, ri], "item")
            if op in ("sym", "arr", "ix", "st", "bv"):
                return dif(msg, s, c)
            if op == "conj":
                a, b = s.args[0], c.args[0]
                return self.diff(a, b)
            if op == "abs":
                return self.modulus(s.args[0], c.args[0])
            if op in ("real", "imag"):
                a, b = s.args[0], c.args[0]
                if T.conj(T._as_poly(a)) is b or T.neg(T._as_poly(a)) is b or T.neg(T.conj(T._as_poly(a))) is b:
                    return E if op in ("abs", "real") and T.conj(T._as_poly(a)) is b else und(msg)
                return self.diff(a, b)
            if op in ("rint", "floor", "ceil", "trunc"):
                return self.diff(s.args[0], c.args[0])
            if op in ("exp", "sin", "cos", "arccos", "angle", "inv1", "norm", "sign"):
                return self.diff(s.args[0], c.args[0]).at(op)
            if op == "pow":
                if s.args[1] != c.args[1]:
                    return dif(msg, s, c) if s.args[0] is c.args[0] else und(msg)
                return self.diff(s.args[0], c.args[0])
            if op in ("lt0", "eq0"):
                return self.cond(s, c)
            if op == "eqv":
                r = only_one([self.diff(a, b) for a, b in zip(s.args, c.args)], op)
                return und(VETO + msg) if r.v == UND else r
            if op in T.BINDERS:
                return self.binder(s, c)
            if op in ("call",):
                return self.call(s, c)
            if op in ("fold", "while", "recseq"):
                return self.loop(s, c)
            if op == "aproj":
                r = self.diff(s.args[0], c.args[0])
                if s.args[1] != c.args[1]:
                    if r.v == EQ:
                        return dif(f"component {c.args[1]} instead of {s.args[1]} of {sh(s.args[0], 80)}", s, c)
                    return und(msg)
                return r
            if op in ("dim", "lenof"):
                if op == "dim" and s.args[1] != c.args[1]:
                    return dif(msg, s, c) if s.args[0] is c.args[0] and free_arr(s.args[0]) else und(msg)
                r = self.diff(s.args[0], c.args[0])
                return r if r.v != DIFF or (free_arr(s.args[0]) and free_arr(c.args[0])) else R(UND, r.why)
            if op == "inv":
                return self.diff(s.args[0], c.args[0]).at("inverse")
            return self.generic(s, c)
        # different heads
        if s.op in ("arr",) and c.op in ("arr",):
            return dif(msg, s, c)
        if free_atom(s) and free_atom(c) and not clash(s, c):
            return dif(msg, s, c)
        if "conj" in (s.op, c.op):
            a, b = (s.args[0], c) if s.op == "conj" else (c.args[0], s)
            if T._as_poly(a) is T._as_poly(b):
                return dif(f"conjugation: {msg}", s, c)
        for grp in self.SWAP:
            if s.op in grp and c.op in grp:
                if s.op in T.BINDERS:
                    if len(s.args[0]) == len(c.args[0]):
                        _vs, sb, cb, _m = self.open2(s, c)
                        if sb is cb:
                            return dif(f"{c.op} instead of {s.op}", s.op, c.op)
                elif s.op in ("lt0", "eq0"):
                    return self.cond(s, c)
                elif s.args == c.args:
                    return dif(f"{c.op} instead of {s.op}: {sh(c)}", s, c)
        if s.op == "oeq" and c.op == "ocmp" and set(s.args) == set(c.args[1:]) and not covers(c):
            return dif("inclusion instead of equality: " + msg, s, c)
        for a, b in ((s, c), (c, s)):
            # one index instead of all of them
            if a.op == "forall" and b.op in ("lt0", "eq0") and len(a.args[0]) == 1:
                vs, body = T.open_binder(a)
                for x in T.subnodes(b):
                    if x.op in ("ix", "bv") and T.subst(body, {vs[0]: T.atom(x)}) in (T.cond_atom(b), T.not_(T.cond_atom(b))):
                        return dif(("all" if a is c else "one") + " instead of " + ("one" if a is c else "all") + ": " + msg, s, c)
            # elements taken in an order that the input decides
            if b.op == "permat" and b.args[1].op == "poly" and T._as_poly(a) is b.args[1] and reorders(b.args[0]):
                return dif("order changed: " + msg, s, c)
            # a position instead of the place where a list contains it
            if places(b) is not None and T._as_poly(a) is places(b):
                return dif("positions exchanged: " + msg, s, c)
        # rint(x) replaced by x and the like
        if s.op in ("inv",) and c.op == "arr" and s.args[0] is c:
            return dif("inverse missing: " + msg, s, c)
        if c.op in ("inv",) and s.op == "arr" and c.args[0] is s:
            return dif("inverse added: " + msg, s, c)
        return und(msg)

    def arr(self, s: N, c: N) -> R:
        if s is c:
            return E
        if s.op == "inv" and c.op != "inv" and s.args[0] is c:
            return dif(f"{sh(c)} instead of its inverse", s, c)
        if c.op == "inv" and s.op != "inv" and c.args[0] is s:
            return dif(f"inverse of {sh(s)} instead of it", s, c)
        return self.diff(s, c)

    def generic(self, s: N, c: N) -> R:
        msg = f"{sh(c)} instead of {sh(s)}"
        if len(s.args) != len(c.args):
            return und(msg)
        rs = []
        for a, b in zip(s.args, c.args):
            if isinstance(a, (N, tuple)) and isinstance(b, (N, tuple)):
                rs.append(self.diff(a, b))
            elif a != b and not isinstance(a, str):
                rs.append(und(msg))
            elif a != b:
                rs.append(und(msg))
        r = only_one(rs, s.op)
        if s.op == "oeq" and r.v == UND and len(s.args) == 2 and (s.args[0] is c.args[1] or s.args[1] is c.args[0]):
            r = self.diff(s.args[1], c.args[0]) if s.args[0] is c.args[1] else self.diff(s.args[0], c.args[1])
        return r.at(s.op + (":" + str(s.args[0]) if s.args and isinstance(s.args[0], str) else ""))

    def call(self, s: N, c: N) -> R:
        if s.args[0] != c.args[0]:
            return und(f"call {c.args[0]} instead of {s.args[0]}")
        ds, dc = dict(s.args[1]), dict(c.args[1])
        rs = []
        for p in ds:
            if p in dc:
                rs.append(self.diff(ds[p], dc[p]).at(f"{s.args[0]}({p}=)"))
            else:
                rs.append(und(f"{s.args[0]}: argument {p} not passed"))
        for p in dc:
            if p not in ds:
                rs.append(und(f"{s.args[0]}: extra argument {p}"))
        return any_of(rs)

    def loop(self, s: N, c: N) -> R:
        if len(s.args[0]) != len(c.args[0]) or len(s.args[1]) != len(c.args[1]):
            return und(f"{s.op}: different loop state")
        if s.args[2:] != c.args[2:]:
            # sorts / projections
            if s.args[0] is c.args[0] and s.args[2:-1] != c.args[2:-1]:
                return und(s.op)
        base = 10**7 + next(T._UID)
        fresh = [T.mk("bv", base * 100 + k) for k in range(len(s.args[1]))]
        ms, mc = T.Ren(zip(s.args[1], fresh)), T.Ren(zip(c.args[1], fresh))
        ps = [T.subst(p, ms) if isinstance(p, N) else p for p in s.args[0]]
        pc = [T.subst(p, mc) if isinstance(p, N) else p for p in c.args[0]]
        rs = [self.diff(a, b).at(f"{s.op}.part{k}") for k, (a, b) in enumerate(zip(ps, pc))]
        if s.op == "while" and [control(x) for x in ps] != [control(x) for x in pc]:
            return und("while: left elsewhere in the body")
        fs = set(fresh)
        for k, (a, b) in enumerate(zip(ps, pc)):
            # loop variables may be related by an invariant: a definite difference has to be one between the same ones
            if rs[k].v == DIFF and fs & used_vars(a) != fs & used_vars(b):
                rs[k] = R(UND, rs[k].why)
        r = only_one(rs, s.op)
        if r.v == UND and s.op == "fold" and s.args[2:] == c.args[2:]:
            x = self.rounds(s, ps, pc, fresh)
            if x is not None:
                return x
        if r.v == UND and s.op == "fold" and ps[0] is not pc[0] and T.ONE in (ps[0], pc[0]):
            # a single round instead of all of them
            z = lambda t: T.subst(t, {fresh[0]: T.ZERO}) if isinstance(t, N) else t
            if all(z(a) is z(b) for a, b in zip(ps[1:], pc[1:])) and s.args[2:] == c.args[2:]:
                return dif(f"{s.op}: {sh(pc[0], 80)} rounds instead of {sh(ps[0], 80)}", ps[0], pc[0])
        if r.v == EQ and s.args[2:] != c.args[2:]:
            return und(s.op + " projection")
        return r

    def rounds(self, s, ps, pc, fresh):
        """A fixed number of rounds, some of which are left out or added."""
        m, n = T.as_int(ps[0]) if isinstance(ps[0], N) else None, T.as_int(pc[0]) if isinstance(pc[0], N) else None
        if m is None or n is None or m == n or max(m, n) > 24 or min(m, n) < 1 or len(ps) < 3:
            return None
        ns = len(fresh) - 1
        if len(ps) < 1 + 2 * ns or len(ps) != len(pc) or any(a is not b for a, b in zip(ps[1 : 1 + ns] + ps[1 + 2 * ns :], pc[1 : 1 + ns] + pc[1 + 2 * ns :])):
            return None
        at = lambda ts, k: tuple(T.subst(t, {fresh[0]: T.const(k)}) if isinstance(t, N) else t for t in ts[1 + ns : 1 + 2 * ns])
        A, B = [at(ps, k) for k in range(m)], [at(pc, k) for k in range(n)]
        long, short = (A, B) if m > n else (B, A)
        extra, i = [], 0
        for x in long:
            if i < len(short) and all(p is q for p, q in zip(x, short[i])):
                i += 1
            else:
                extra.append(x)
        if i < len(short) or not extra:
            return None
        for x in extra:
            if x in short or any(isinstance(t, N) and t.opaque for t in x):
                return None
            if not all(isinstance(t, N) and t.op in ("lam", "listcat", "poly") for t in x):
                return None
        return dif(f"fold: round {'left out' if m > n else 'added'}: {sh(extra[0])}", s, None)

    # ------------------------------------------------------------------
    # conditions
    def cond(self, s: N, c: N) -> R:
        """Atomic conditions lt0/eq0 against each other (same polarity)."""
        p, q = s.args[0], c.args[0]
        msg = f"condition {sh(c)} instead of {sh(s)}"
        if p.op != "poly" or q.op != "poly":
            return self.diff(p, q).at("condition")
        sets = self.int_sets(s, c)
        if sets is not None:
            return E if sets else dif(msg, s, c)
        if s.op != c.op:
            return und(msg)
        if s.op == "lt0" and T._scale(p, (Fr(-1), Fr(0))) is q:
            return dif("inverted " + msg, s, c)
        a, b = self.closeness(p), self.closeness(q)
        if a is not None and b is not None:
            xs, ts, ls = a
            xc, tc, lc = b
            rx = self.modulus(xs, xc)
            if rx.v == EQ:
                rt = self.poly(T._scale(ts, (1 / ls, Fr(0))), T._scale(tc, (1 / lc, Fr(0))))
                if rt.v == DIFF and T.as_const(ts) is not None and T.as_const(tc) is not None and ls != lc:
                    pass
                return R(rt.v, [msg] + list(rt.why), rt.roots)
            return R(rx.v, [msg] + list(rx.why), rx.roots)
        r = self.poly(p, q)
        return R(r.v, [msg] + list(r.why), r.roots)

    def closeness(self, p: N):
        """p == tol - lam*|X| with tol free of other subtracted moduli -> (X, tol, lam)."""
        hit = None
        for m, cf in p.args[0]:
            if len(m) == 1 and m[0][0].op == "abs" and m[0][1] == 1 and cf[1] == 0 and cf[0] < 0:
                if hit is not None:
                    return None
                hit = (m, m[0][0].args[0], -cf[0])
        if hit is None:
            # integer-valued distances, e.g. of matrices of integers
            return None
        tol = T.poly_from({m: cf for m, cf in p.args[0] if m != hit[0]})
        return hit[1], tol, hit[2]

    def modulus(self, x: N, y: N) -> R:
        """|x| against |y|."""
        x, y = T._as_poly(x), T._as_poly(y)
        if x is y or T.neg(x) is y or T.conj(x) is y or T.neg(T.conj(x)) is y:
            return E
        best = None
        for z in (y, T.neg(y), T.conj(y), T.neg(T.conj(y))):
            r = self.diff(x, z)
            if r.v == EQ:
                return E
            key = (0 if r.v == DIFF else 1, len(r.why), sum(map(len, r.why)))
            if best is None or key < best[0]:
                best = (key, r)
        return best[1]

    def int_sets(self, s, c):
        """Both conditions constrain one and the same integer quantity: compare solution sets over 0..40."""
        if (s.op, c.op) == ("lt0", "lt0") or (s.op, c.op) == ("eq0", "eq0") or {s.op, c.op} == {"lt0", "eq0"}:
            try:
                p, q = s.args[0], c.args[0]
                a = atoms_of(p) | atoms_of(q)
                if len(a) != 1:
                    return None
                (x,) = a
                if not T.atom_int(x):
                    return None
                big = max(abs(k[0]) for n in (p, q) for _m, k in n.args[0])
                if big > 2000:
                    return None
                hi = 60 + int(big)
                lo = 1 if x.op == "dim" else (0 if T.atom_nonneg(x) else -hi)

                def ev(n, v):
                    tot = Fr(0)
                    for m, k in n.args[0].args[0]:
                        if k[1] != 0:
                            raise ValueError
                        t = k[0]
                        for _a, e in m:
                            if e.denominator != 1 or e < 0:
                                raise ValueError
                            t *= Fr(v) ** int(e)
                        tot += t
                    return tot < 0 if n.op == "lt0" else tot == 0

                return all(ev(s, v) == ev(c, v) for v in range(lo, hi))
            except ValueError:
                return None
        return None

    # ------------------------------------------------------------------
    # decision diagrams
    def dd_atoms(self, t):
        out = []
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x in seen or x.op != "ite":
                continue
            seen.add(x)
            if x.args[0] not in out:
                out.append(x.args[0])
            st.extend(x.args[1:])
        return out

    def rename(self, t, m):
        memo = {}

        def go(x):
            if x.op != "ite":
                return x
            r = memo.get(x)
            if r is None:
                a = x.args[0]
                g, pol = m.get(a, (a, True))
                cd = T.cond_atom(g)
                if not pol:
                    cd = T.not_(cd)
                r = memo[x] = T.ite(cd, go(x.args[1]), go(x.args[2]))
            return r

        return go(t)

    def three_way(self, s, c, As, Ac):
        """Comparisons of one integer spelt with different pairs out of p < 0, p <= 0, p == 0: in terms of p < 0 and p == 0."""
        every = {*As, *Ac}
        m = {}
        points = [a.args[0] for a in sorted(every, key=lambda x: x.dg) if a.op in ("eq0", "lt0") and a.args[0].op == "poly" and T.is_int(a.args[0])]
        for p in points:
            lo, hi, eq = T.lt0(p), T.lt0(T.sub(p, T.ONE)), T.eq0(p)
            if any(x.op != "ite" or x.args[1] not in (T.TRUE, T.FALSE) or x.args[2] not in (T.TRUE, T.FALSE) for x in (lo, hi, eq)):
                continue
            l, h, e = lo.args[0], hi.args[0], eq.args[0]
            if l is h or l not in every or h not in every or l in m or h in m:
                continue
            if e in every or {l, h} <= set(As) or {l, h} <= set(Ac):
                low = T.or_(lo, eq)
                m[h] = low if hi.args[1] is T.TRUE else T.not_(low)
        # a row of indices below n is a permutation iff its set is everything iff its set has n elements
        for a in every:
            if a.op != "oeq" or (a in As and a in Ac):
                continue
            for x, y in (a.args, a.args[::-1]):
                n = indices_below(y)
                if n is None or x.op != "hcall" or x.args[0] != "set" or not rows_of_table(x):
                    continue
                size = T.lenof(x)
                eq, less = T.eq0(T.sub(size, n)), T.lt0(T.sub(size, n))
                if any(size in T.subnodes(b.args[0]) or T._as_poly(size) in T.subnodes(b.args[0]) or any(at.op == "lenof" and at.args[0] is x for at in T.subnodes(b.args[0])) for b in every if b.op in ("lt0", "eq0")):
                    m[a] = eq
                    if less.op == "ite" and less.args[1] is T.TRUE:
                        m[less.args[0]] = T.not_(eq)
        if not m:
            return None

        def go(x):
            return T.ite(m.get(x.args[0]) or T.cond_atom(x.args[0]), go(x.args[1]), go(x.args[2])) if x.op == "ite" else x

        a, b = go(s), go(c)
        return (a, b) if (a, b) != (s, c) else None

    def ite(self, s: N, c: N) -> R:
        As, Ac = self.dd_atoms(s), self.dd_atoms(c)
        so = [a for a in As if a not in Ac]
        co = [a for a in Ac if a not in As]
        if so and co:
            w = self.three_way(s, c, As, Ac)
            if w is not None:
                return self.diff(*w)
        if len(so) == 1 and permutation_row(so[0]) and co and all(entrywise_bounds(x) for x in co):
            return dif(f"rows are not required to be permutations: {sh(co[0])}", s, c)
        if any(a.opaque for a in co) or any(a.opaque for a in so):
            return und("opaque condition")
        if so and co:
            return self.ite_pair(s, c, so, co)
        # the code is the reference with one of its cases taken always
        plain = 0 < len(so) <= 3 and not co and any(restricted(s, dict(zip(so, vs))) is c for vs in itertools.product((True, False), repeat=len(so)))
        return self.cells(s, c, set(so), set(co), plain)

    def similarity(self, a: N, b: N):
        if a.op != b.op and {a.op, b.op} not in COMPARABLE:
            return 0
        sa, sb = set(T.subnodes(a)), set(T.subnodes(b))
        return 1 + len(sa & sb) / (1 + len(sa | sb))

    def ite_pair(self, s, c, so, co) -> R:
        if len(so) > 6 or len(co) > 6:
            return und("many conditions differ")
        # equal atoms in disguise
        pairs = []
        left_c = list(co)
        for a in so:
            cands = sorted(left_c, key=lambda b: -self.similarity(a, b))
            if cands and self.similarity(a, cands[0]) > 0:
                pairs.append((a, cands[0]))
                left_c.remove(cands[0])
        if not pairs:
            return und(f"condition {sh(co[0])} / {sh(so[0])}")
        best = None
        for pols in itertools.product([True, False], repeat=len(pairs)):
            if len(pairs) > 3 and not all(pols):
                continue
            m = {a: (b, pol) for (a, b), pol in zip(pairs, pols)}
            s2 = self.rename(s, m)
            if s2 is c:
                rs = []
                for (a, b), pol in zip(pairs, pols):
                    if pol:
                        rs.append(self.atom(a, b))
                    else:
                        rs.append(self.negated(a, b))
                r = any_of(rs)
                if best is None or r.v == EQ:
                    best = r
        if best is not None:
            return best
        # conditions that turn out equal can be unified, then compare again
        eqs = {a: (b, True) for a, b in pairs if self.atom(a, b).v == EQ}
        if eqs:
            return self.diff(self.rename(s, eqs), c)
        # try: one pair only, all-positive, plus value differences in a joint cell
        s2 = self.rename(s, {a: (b, True) for a, b in pairs})
        rs = [self.atom(a, b) for a, b in pairs]
        sub = self.diff(s2, c) if s2 is not s else und("conditions")
        if sub.v == EQ:
            return any_of(rs)
        r = only_one(rs + [sub], "conditions")
        if r.v == DIFF and sum(x.v != EQ for x in rs + [sub]) > 1:
            return r
        return R(UND, [w for r in rs for w in r.why][:3] + list(sub.why)[:3])

    def negated(self, a, b) -> R:
        """a holds iff b does not?"""
        if a.op == "lt0" and b.op == "lt0":
            p, q = a.args[0], b.args[0]
            if p.op == "poly" and q.op == "poly":
                np_ = T._scale(p, (Fr(-1), Fr(0)))
                if np_ is q:
                    return und("boundary of " + sh(a))
                r = self.poly(np_, q)
                if r.v == DIFF:
                    return R(DIFF, [f"condition {sh(b)} instead of the complement of {sh(a)}"] + list(r.why), r.roots)
                return r
        if a is b:
            return dif("inverted condition " + sh(a), a, b)
        r = self.atom(a, b)
        if r.v == EQ:
            return dif("inverted condition " + sh(a), a, b)
        return und(f"condition {sh(b)} against complement of {sh(a)}")

    def feasible(self, lits):
        """Cheap consistency check of a set of literals."""
        eqs = []
        for a, val in lits:
            if a.op == "eq0" and val and a.args[0].op == "poly":
                eqs.append(a.args[0])
        lin: dict = {}
        for a, val in lits:
            if a.op in ("eq0", "lt0") and a.args[0].op == "poly":
                p = a.args[0]
                k = dict(p.args[0]).get((), (Fr(0), Fr(0)))
                body = T.poly_from({m: cc for m, cc in p.args[0] if m})
                if not body.args[0]:
                    continue
                if any(cc[1] != 0 for _m, cc in body.args[0]):
                    continue
                lead = body.args[0][0][1][0]
                nb = T._scale(body, (1 / lead, Fr(0)))
                lin.setdefault(nb, []).append((a.op, val, lead, k[0]))
        for nb, cs in lin.items():
            if len(cs) < 2:
                continue
            # sample points: boundaries, midpoints
            pts = {(-k / lead) for (_o, _v, lead, k) in cs}
            pts |= {x + d for x in list(pts) for d in (Fr(-1), Fr(1), Fr(1, 2), Fr(-1, 2))} if not T.is_int(nb) else {
                x + d for x in list(pts) for d in (-1, 1)
            }
            if T.is_int(nb):
                pts = {x for x in pts if x.denominator == 1}
            if T._nonneg(nb):
                pts = {x for x in pts if x >= 0}

            def ok(x):
                for o, v, lead, k in cs:
                    val = lead * x + k
                    t = (val == 0) if o == "eq0" else (val < 0)
                    if t != v:
                        return False
                return True

            if not any(ok(x) for x in pts):
                return False
        # two different equalities to constants of overlapping string comparisons
        sv: dict = {}
        for a, val in lits:
            if a.op == "eqv" and val:
                strs = [x for x in a.args if x.op == "str"]
                oth = [x for x in a.args if x.op != "str"]
                if len(strs) == 1 and oth:
                    if sv.setdefault(oth[0], strs[0]) is not strs[0]:
                        return False
        return quantified_ok(lits)

    def contradicts(self, lits):
        """Literals that become contradictory once the equalities among them are used."""
        for x, v in lits.items():
            if not (v and x.op == "eq0"):
                continue
            m = solve(x.args[0])
            if not m:
                continue
            known: dict = {}
            for y, w in lits.items():
                if y is x:
                    continue
                t = T.subst(T.cond_atom(y), m)
                neg = T.not_(t) if t.op == "ite" or t in (T.TRUE, T.FALSE) else None
                if (t is T.TRUE and not w) or (t is T.FALSE and w):
                    return True
                if known.setdefault(t, w) != w:
                    return True
                if neg is not None and known.setdefault(neg, not w) == w:
                    return True
        return False

    def cells(self, s, c, so, co, plain=False) -> R:
        out = []
        count = [0]
        full = set()  # pairs some feasible path has explored without omission

        outer = set(self.dd_atoms(s)) | set(self.dd_atoms(c))
        outer_q = {q[0] for q in map(string_of, [x for x in outer if x.op == "eqv"]) if q}
        tangled: dict = {}

        def entangled(t):
            """A value that itself depends on the conditions of the cases."""
            r = tangled.get(t)
            if r is None:
                r = tangled[t] = any(
                    x.op == "ite" and (x.args[0] in outer or (x.args[0].op == "eqv" and (string_of(x.args[0]) or (None,))[0] in outer_q))
                    for x in T.subnodes(t)
                )
            return r

        def go(a, b, lits):
            """-> every differing leaf pair below was collected on a feasible path."""
            if a is b or (a, b) in full:
                return True
            count[0] += 1
            if count[0] > 3000 or len(out) > 256:
                return False
            if lits and not self.feasible(lits):
                return False
            t = T.top(a, b)
            if t is None:
                d = dict(lits)
                if self.contradicts(d):
                    return False
                out.append((a, b, d))
                if entangled(a) or entangled(b):
                    return False
                if not so and not co:
                    full.add((a, b))
                return True
            y = go(T.cof(a, t, True), T.cof(b, t, True), lits + [(t, True)])
            n = go(T.cof(a, t, False), T.cof(b, t, False), lits + [(t, False)])
            if y and n and not so and not co:
                full.add((a, b))
            return y and n

        go(s, c, [])
        rs = []
        if count[0] > 3000 or len(out) > 256:
            rs.append(und("too many cases"))
        for a, b, lits in out:
            d = self.diff(a, b)
            if d.v == EQ:
                continue
            # specialise equalities that hold in this cell
            eqs = [x for x, v in lits.items() if v and x.op == "eq0" and (x in so or x in co)]
            if eqs:
                a2, b2 = a, b
                for x in eqs:
                    m = solve(x.args[0])
                    if m:
                        a2, b2 = T.subst(a2, m), T.subst(b2, m)
                if a2 is b2:
                    continue
                d2 = self.diff(a2, b2)
                if d2.v == EQ:
                    continue
                d = d2 if d.v == DIFF else d
            if d.v != EQ and lits:
                a2, b2 = under(a, lits), under(b, lits)
                if a2 is b2:
                    continue
                if (a2 is not a or b2 is not b) and (a2.op != "ite" and b2.op != "ite"):
                    d = self.diff(a2, b2)
                    if d.v == EQ:
                        continue
            if d.v == DIFF and co:
                cl = [x for x in lits if x in co]
                const_leaf = leafy(a) and leafy(b)
                if cl:
                    if const_leaf:
                        # a constant result forced by a condition the reference does not have
                        if any(x.op == "lt0" and int_size_cond(x) for x in cl) and not (a in (T.TRUE, T.FALSE)):
                            d = R(UND, d.why)
                    elif leafy(a) or leafy(b):
                        d = R(UND, d.why)
                    elif any(size_cond(x) for x in cl):
                        d = R(UND, d.why)
            if d.v == DIFF and "emptylist" in (a.op, b.op):
                own = length_atoms(b if a.op == "emptylist" else a)
                if own is None or any(size_cond(x) and atoms_of(x.args[0]) & own for x in lits):
                    d = R(UND, d.why)
            if d.v == DIFF and not (plain and "emptylist" in (a.op, b.op)) and any(x.hard and (x in so or x in co) and not (plain and all_rows(x)) for x in lits):
                d = R(UND, d.why)
            if d.v == DIFF:
                ls = [("" if v else "not ") + sh(x, 90) for x, v in lits.items() if x in so or x in co]
                if ls:
                    rr = frozenset(("cond", hkey(x)) for x in lits if x in so or x in co)
                    d = R(DIFF, [f"when {' and '.join(ls[:3])}: " + w for w in d.why], rr if leafy(a) and leafy(b) else rr | d.roots)
            rs.append(d)
        return any_of(rs)


def reorders(p):
    """Sorting by a key that is arbitrary in the inputs."""
    vs, key = T.open_binder(p)
    moves = lambda i: isinstance(i, N) and vs[0] in i.fv
    return any(
        (x.op == "el" and free_arr(x.args[0]) and any(moves(i) for i in x.args[1])) or (x.op == "item" and x.args[0].op != "lam" and moves(x.args[1]))
        for x in T.subnodes(key)
    )


COMPARABLE = ({"lt0", "eq0"}, {"oeq", "ocmp"}, {"forall", "eq0"}, {"forall", "lt0"})


def independent(A):
    """An input array, or one field of the data set an external program returns."""
    return A.op == "arr" or (A.op == "aproj" and A.args[0].op == "hcall" and str(A.args[0].args[0]).startswith("spglib."))


def one_integer(s, c):
    """Two closed expressions in a single integer parameter: a value at which their constants differ ("": none seen)."""
    if s.opaque or c.opaque or s.fv or c.fv:
        return None
    leaves = {x for t in (s, c) for x in T.subnodes(t) if x.op in ("sym", "arr", "el", "call", "hcall", "item", "aproj", "fold", "while", "recseq")}
    if len(leaves) != 1:
        return None
    (n,) = leaves
    if n.op != "sym" or n.args[1] != "int":
        return None
    for k in (*range(-3, 64), 121, 169, 221, 289, 323, 361, 437, 529, 667, 841, 961):
        try:
            a, b = ev(s, {n: k}), ev(c, {n: k})
        except (ValueError, ZeroDivisionError, OverflowError, TypeError):
            return ""
        if a != b:
            return f"{b} instead of {a} for {n.args[0]} = {k}"
    return ""


def places(t):
    """The index i for "the place of i in a list that comes from the input or from another function"."""
    if t.op == "poly":
        t = single_atom(t)
    if t is None or t.op not in ("first", "last") or len(t.args[0]) != 1:
        return None
    vs, body = T.open_binder(t)
    if body.op == "ite" and body.args[1] is T.TRUE and body.args[2] is T.FALSE:
        body = body.args[0]
    if body.op != "eq0" or body.args[0].op != "poly":
        return None
    els = [x for x in T.subnodes(body) if x.op in ("el", "item") and vs[0] in x.fv]
    if len(els) != 1 or not any(x is T._as_poly(vs[0]) for x in (els[0].args[1] if isinstance(els[0].args[1], tuple) else els[0].args[1:2])):
        return None
    A = els[0].args[0]
    if not (A.op == "arr" or A.op == "aproj" and A.args[0].op in ("call", "arr")) or vs[0] in A.fv:
        return None
    for sign in (1, -1):
        rest = T.add(T._as_poly(els[0]), T.mul(T.const(sign), body.args[0]))
        if rest.op == "poly" and single_atom(rest) is not None and single_atom(rest).op in ("ix", "bv") and vs[0] not in rest.fv:
            return rest
    return None


def one_real(s, c):
    """Two closed expressions in a single cosine of a principal angle: do they differ at every one of some values?"""
    if s.opaque or c.opaque:
        return False
    env = {}
    for t in (s, c):
        for x in outer_leaves(t):
            env[x] = None
    if len(env) != 1 or "svdvals" not in T.show(next(iter(env)), 400):
        return False
    (x,) = env
    if x.op != "el" or x.args[0].op != "aproj" or x.args[0].args[0].op != "hcall" or x.args[0].args[0].args[0] != "svdvals":
        return False
    try:
        return all(abs(ev(s, {x: v}) - ev(c, {x: v})) > 1e-6 for v in (0.3, 0.5, 0.8))
    except (ValueError, ZeroDivisionError, OverflowError, TypeError):
        return False


def outer_leaves(t):
    if not isinstance(t, N):
        return set().union(*[outer_leaves(y) for y in t]) if isinstance(t, (tuple, list)) else set()
    if t.op in ("el", "sym", "arr", "call", "hcall", "aproj", "item", "ix", "bv"):
        return {t}
    return set().union(set(), *[outer_leaves(y) for y in T.kids(t)])


FREE_MATRICES = {"lattice", "reciprocal_lattice", "kpoint", "transformation_matrix"}


def free_matrix(b):
    """A matrix (or vector) that can be any (invertible) one, independently of the others."""
    if b.op == "arr":
        return b.args[0] in FREE_MATRICES
    if b.op == "aproj":
        return b.args[0].op == "hcall" and str(b.args[0].args[0]).startswith("spglib.") and "transformation_matrix" in b.args
    return b.op == "call" and b.args[0] == "get_primitive_transformation_matrix"


def matrix_values(s, c):
    """Two polynomials in the entries of free matrices and of inverses of their products: is the identity refuted at a point?"""
    if not any(x.op == "inv" for t in (s, c) for x in T.subnodes(t)) or s.op not in ("poly", "sum") or c.op not in ("poly", "sum") or s.opaque or c.opaque:
        return False
    if not {x.op for t in (s, c) for x in T.subnodes(t)} - {"hcall", "call", "aproj", "arr", "sym", "tup", "none", "true", "false"} <= {"poly", "sum", "el", "inv", "lam", "bv", "ix", "str", "strsym"}:
        return False
    for seed in (1, 2):
        try:
            mats = {}
            if mat_ev(s, {}, mats, seed) == mat_ev(c, {}, mats, seed):
                return False
        except (ValueError, ZeroDivisionError, TypeError, KeyError, IndexError):
            return False
    return True


def mat_ev(t, env, mats, seed):
    if t in env:
        return env[t]
    if t.op == "poly":
        tot = Fr(0)
        for m, k in t.args[0]:
            if k[1] != 0:
                raise ValueError
            x = Fr(k[0])
            for a, e in m:
                if not isinstance(e, (int, Fr)) or Fr(e).denominator != 1:
                    raise ValueError
                x *= Fr(mat_ev(a, env, mats, seed)) ** int(e)
            tot += x
        return tot
    if t.op == "sum":
        vs, body = T.open_binder(t)
        ks = [T.as_int(b) if isinstance(b, N) else None for b in t.args[0]]
        if any(k is None or k > 9 for k in ks):
            raise ValueError
        return sum((mat_ev(body, {**env, **dict(zip(vs, p))}, mats, seed) for p in itertools.product(*[range(k) for k in ks])), Fr(0))
    if t.op == "el":
        ix = tuple(int(mat_ev(i, env, mats, seed)) for i in (t.args[1] if isinstance(t.args[1], tuple) else t.args[1:]))
        return mat_of(t.args[0], len(ix), mats, seed)[ix]
    if t.op == "ix" and T.as_int(t.args[1]) == 3:
        return seed
    raise ValueError(t.op)


def mat_of(b, rank, mats, seed):
    k = (b, rank)
    if k in mats:
        return mats[k]
    ixs = list(itertools.product(range(3), repeat=rank))
    if b.op == "inv" and rank == 2:
        r = inverse3(mat_of(b.args[0], 2, mats, seed))
    elif b.op == "lam" and len(b.args[0]) == rank and all(T.as_int(x) == 3 for x in b.args[0]):
        vs, body = T.open_binder(b)
        r = {ix: mat_ev(body, dict(zip(vs, map(Fr, ix))), mats, seed) for ix in ixs}
    elif free_matrix(b):
        z = 7 * seed + 11 * sum(1 for x in mats if free_matrix(x[0]))
        r = {}
        for ix in ixs:
            z = (z * 48271 + 12345) % 2147483647
            r[ix] = Fr(z % 19 - 9) or Fr(1)
    else:
        raise ValueError(b.op)
    mats[k] = r
    return r


def inverse3(m):
    cof = lambda i, j: m[(i + 1) % 3, (j + 1) % 3] * m[(i + 2) % 3, (j + 2) % 3] - m[(i + 1) % 3, (j + 2) % 3] * m[(i + 2) % 3, (j + 1) % 3]
    det = sum(m[0, j] * cof(0, j) for j in range(3))
    return {(i, j): cof(j, i) / det for i in range(3) for j in range(3)}


def ev(t, env):
    """Constant folding of a closed integer expression."""
    op = t.op
    if t in env:
        return env[t]
    if t is T.TRUE or t is T.FALSE:
        return t is T.TRUE
    if op == "poly":
        tot = 0
        for m, k in t.args[0]:
            if k[1] != 0:
                raise ValueError
            x = k[0]
            for a, e in m:
                v = ev(a, env)
                x = x * (Fr(v) ** int(e) if e.denominator == 1 and not isinstance(v, float) else v ** float(e))
            tot = tot + x
        return tot
    if op == "ite":
        return ev(t.args[1] if ev(t.args[0], env) else t.args[2], env)
    if op == "eq0":
        return ev(t.args[0], env) == 0
    if op == "lt0":
        return ev(t.args[0], env) < 0
    if op == "mod":
        return ev(t.args[0], env) % ev(t.args[1], env)
    if op == "floordiv":
        return ev(t.args[0], env) // ev(t.args[1], env)
    if op in ("floor", "ceil", "floorc", "ceilc", "trunc", "truncc"):
        v = ev(t.args[0], env)
        f = {"f": math.floor, "c": math.ceil, "t": math.trunc}[op[0]]
        return f(v)
    if op in ("min", "max"):
        return (min if op == "min" else max)(ev(x, env) for x in t.args)
    if op == "abs":
        return abs(ev(t.args[0], env))
    if op == "pow":
        b, e = ev(t.args[0], env), t.args[1]
        e = ev(e, env) if isinstance(e, N) else e
        if b < 0:
            raise ValueError
        r = float(b) ** float(e)
        return round(r) if abs(r - round(r)) < 1e-12 else r
    if op in ("forall", "sum") and len(t.args[0]) == 1:
        vs, body = T.open_binder(t)
        k = ev(t.args[0][0], env)
        if k != int(k) or k > 2000:
            raise ValueError
        vals = (ev(body, {**env, vs[0]: i}) for i in range(int(k)))
        return all(vals) if op == "forall" else sum(vals)
    raise ValueError(op)


def restricted(t, m):
    for x, v in m.items():
        t = T.restrict(t, x, v)
    return t


def length_atoms(t):
    """Quantities that decide whether a list is empty (None: unknown)."""
    if t.op == "lam":
        return {x for b in t.args[0][:1] if isinstance(b, N) and b.op == "poly" for x in atoms_of(b)}
    if t.op == "aproj" and t.args[0].op == "fold":
        n = t.args[0].args[0][0]
        return {T.mk("lenof", t)} | (atoms_of(n) if isinstance(n, N) and n.op == "poly" else set())
    if t.op == "call":
        return {T.mk("lenof", t)}
    return None


def decided(t, m):
    """t with the atoms of m decided."""
    while t.op == "ite" and t.args[0] in m:
        t = t.args[1] if m[t.args[0]] else t.args[2]
    if t.op != "ite":
        return t
    a, b = decided(t.args[1], m), decided(t.args[2], m)
    return t if a is t.args[1] and b is t.args[2] else a if a is b else T.mk_ite(t.args[0], a, b)


def quantified_ok(lits):
    """A quantified condition agrees with the instances of it among the literals."""
    qs = [(a, v) for a, v in lits if a.op == "forall" and len(a.args[0]) == 1]
    if not qs:
        return True
    m = dict(lits)
    firsts = {x for a, _ in lits if a.op != "forall" for x in T.subnodes(a) if x.op in ("first", "last")}
    ixs = {x for a, _ in lits if a.op != "forall" for x in T.subnodes(a) if x.op == "ix"}
    for q, v in qs:
        n = q.args[0][0]
        k = T.as_int(n) if isinstance(n, N) else None
        vs, body = T.open_binder(q)
        at = lambda i: decided(T.subst(body, {vs[0]: i}), m)
        if v:
            for f in firsts:
                if f.args[0][0] is n and at(T.atom(f)) is T.FALSE:
                    return False
            for x in ixs:
                if x.args[-1] is n and at(T.atom(x)) is T.FALSE:
                    return False
            if k is not None and k <= 4 and any(at(T.const(i)) is T.FALSE for i in range(k)):
                return False
        else:
            for f in firsts:
                if f.args[0][0] is n and _complement(f, vs, body):
                    # some index violates the body, so the first such index does
                    if at(T.atom(f)) is T.TRUE:
                        return False
            if k is not None and k <= 4 and all(at(T.const(i)) is T.TRUE for i in range(k)):
                return False
    return True


def _complement(f, vs, body):
    ws, c = T.open_binder(f)
    return T.subst(c, {ws[0]: T.atom(vs[0])}) is T.not_(body)


def string_of(x):
    """eqv(quantity, literal) -> (quantity, literal)."""
    lit = [a for a in x.args if a.op == "str"]
    oth = [a for a in x.args if a.op != "str"]
    return (oth[0], lit[0]) if len(lit) == 1 and len(oth) == 1 else None


def under(t, lits):
    """t with the conditions of a case (and what they imply about string comparisons) decided inside it."""
    m, known = {}, {}
    for x, v in lits.items():
        if any(y.op == "bv" for y in T.subnodes(x)):
            continue
        m[x] = T.TRUE if v else T.FALSE
        q = string_of(x) if x.op == "eqv" and v else None
        if q:
            known[q[0]] = q[1]
    if not m:
        return t
    inner = [x for x in T.subnodes(t) if x.op == "ite"]
    for x in inner:
        a = x.args[0]
        q = string_of(a) if a.op == "eqv" and a not in m else None
        if q and known.get(q[0], q[1]) is not q[1]:
            m[a] = T.FALSE
    if not any(x.args[0] in m for x in inner):
        return t
    return T.subst(t, m)


def free_poly_deep(p):
    return p.op == "poly" and all(free_atom(a) or a.op in ("sum", "exp", "rint") for m, _ in p.args[0] for a, _e in m)


def capped(a, b):
    """a is an integer parameter and b the same parameter limited by a constant."""
    x, y = single_atom(a), single_atom(b)
    return x is not None and y is not None and x.op == "sym" and y.op in ("min", "max") and any(T._as_poly(k) is a for k in T.kids(y)) and any((T.as_int(k) or 0) > 1 for k in T.kids(y))


def unbounded(t):
    """A size that grows with an input array (so it is not a constant factor)."""
    if t.op in ("max_over", "sum"):
        return not t.opaque and any(isinstance(b, N) for b in t.args[0]) and unbounded(T.open_binder(t)[1])
    if t.op in ("abs", "norm"):
        return independent_value(t.args[0])
    if t.op == "pow":
        return t.args[1] in (Fr(1, 2), Fr(2)) and unbounded(t.args[0])
    if t.op in ("min", "max"):
        xs = [x for x in T.kids(t)]
        rest = [x for x in xs if not unbounded(x)]
        return len(rest) < len(xs) and t.op == "max" and all(T.as_const(x) is not None for x in rest)
    if t.op == "poly":
        return bool(t.args[0]) and all(c[1] == 0 and c[0] > 0 and (not m or all(unbounded(a) or e % 2 == 0 and independent_value(a) for a, e in m)) for m, c in t.args[0]) and any(m for m, _ in t.args[0])
    return False


def independent_value(t):
    t = T._as_poly(t)
    return bool(t.args[0]) and t.op == "poly" and all(len(m) == 1 and m[0][1] == 1 and m[0][0].op == "el" and independent(m[0][0].args[0]) and all(free_poly(i) for i in m[0][0].args[1]) for m, _ in t.args[0])


def single_atom(p):
    if p.op == "poly" and len(p.args[0]) == 1:
        m, c = p.args[0][0]
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def leafy(t):
    return t in (T.TRUE, T.FALSE, T.NONE) or t.op == "str" or (t.op == "poly" and T.as_const(t) is not None)


def size_cond(x):
    """Condition on array sizes / counts only."""
    if x.op not in ("lt0", "eq0") or x.args[0].op != "poly":
        return False
    return all(a.op in ("dim", "lenof", "size", "count") or (a.op == "sym" and a.args[1] == "int") for a in atoms_of(x.args[0]))


def int_size_cond(x):
    return size_cond(x)


def solve(p: N):
    """p == 0 -> substitution of one free atom."""
    if p.op != "poly":
        return None
    for m, c in p.args[0]:
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("sym", "ix", "dim", "bv") and c[1] == 0:
            a = m[0][0]
            rest = T.poly_from({mm: (-k[0] / c[0], -k[1] / c[0]) for mm, k in p.args[0] if mm != m})
            if not any(x is a for x in T.subnodes(rest)):
                if a.op in ("ix",):
                    return {a: rest}
                return SymSubst(a, rest)
    return None


class SymSubst(dict):
    def __init__(self, a, rest):
        super().__init__({a: rest})
