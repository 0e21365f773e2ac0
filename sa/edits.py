"""One-point edits of a function relative to the certified source.

`certified/` holds the source whose functions the comparison engine proves equal to the reference definitions.  When the
engine can neither prove nor refute a changed function, the two syntax trees are aligned (up to renamed locals, docstrings,
annotations, messages and statements that do nothing).  If everything aligns except one point, and what changed there is an
operator, a constant, a guard, an operand, an index order ... that the engine could not prove irrelevant, that point is reported.
"""
from __future__ import annotations

import ast
import copy
import difflib

IGNORED_KW = {"dtype", "optimize", "copy", "order", "stacklevel", "casting", "out", "check_finite", "overwrite_a", "strict"}
INERT_CALLS = {"array", "asarray", "list", "tuple", "int", "float", "complex", "ascontiguousarray", "copy", "deepcopy", "astype", "str", "cast",
               "asanyarray", "ndarray", "iter", "tolist", "item", "squeeze", "bool", "set", "frozenset", "sorted", "range", "len", "enumerate", "zip", "ravel", "flatten", "atleast_1d", "atleast_2d"}
CONFUSABLE = [
    {"all", "any"}, {"min", "max", "amin", "amax", "argmin", "argmax"}, {"zeros", "ones", "empty", "eye", "zeros_like", "ones_like", "empty_like"},
    {"floor", "ceil", "rint", "round", "trunc", "around", "fix"}, {"sin", "cos", "tan", "sinh", "cosh", "exp", "arcsin", "arccos"}, {"real", "imag", "abs", "angle"},
    {"triu", "tril"}, {"sum", "prod", "mean", "any", "all", "max", "min", "count_nonzero"}, {"maximum", "minimum"}, {"logical_and", "logical_or"},
    {"greater", "less"}, {"append", "insert"}, {"union", "intersection", "difference"}, {"det", "trace"}, {"vstack", "hstack"}, {"kron", "outer", "dot"},
    {"conj", "real", "imag"}, {"sqrt", "square", "abs"}, {"left", "right"}, {"eigh", "eigvalsh"}, {"argsort", "sort"},
]
COMMUTATIVE = {"allclose", "isclose", "array_equal", "max", "min", "multiply", "add", "gcd", "maximum", "minimum", "is_equivalent_irrep", "product", "vdot", "grassmann_distance"}


def dump(n):
    return ast.dump(n) if isinstance(n, ast.AST) else repr(n)


def call_name(n):
    if isinstance(n, ast.Call):
        f = n.func
        return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
    return None


def einsum_canon(s):
    m, out = {}, []
    for ch in s.replace(" ", ""):
        if ch.isalpha():
            ch = m.setdefault(ch, chr(97 + len(m)) if len(m) < 26 else chr(65 + len(m) - 26))
        out.append(ch)
    return "".join(out)


class Norm(ast.NodeTransformer):
    """Remove what cannot matter; fill in the defaults of package functions at their call sites."""

    def __init__(self, sigs, code=False):
        self.sigs, self.code = sigs, code

    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        n.returns = None
        n.decorator_list = n.decorator_list
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
            a.annotation = None
        n.args.defaults = []
        n.args.kw_defaults = []
        return n

    def visit_AnnAssign(self, n):
        self.generic_visit(n)
        if n.value is None:
            return None
        return ast.Assign([n.target], n.value, lineno=n.lineno)

    def visit_Raise(self, n):
        name = call_name(n.exc) or (n.exc.id if isinstance(n.exc, ast.Name) else "")
        return ast.copy_location(ast.Raise(ast.Name(name or "", ast.Load()) if n.exc is not None else None, None), n)

    def visit_Assert(self, n):
        self.generic_visit(n)
        n.msg = None
        return n

    def visit_JoinedStr(self, n):
        return ast.copy_location(ast.Constant(""), n)

    def visit_Call(self, n):
        self.generic_visit(n)
        nm = call_name(n)
        n.keywords = [k for k in n.keywords if k.arg not in IGNORED_KW]
        if nm in ("warn", "warning", "info", "debug", "print"):
            n.args, n.keywords = [], []
        if nm == "einsum" and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str):
            n.args[0] = ast.copy_location(ast.Constant(einsum_canon(n.args[0].value)), n)
        sig = self.sigs.get(nm) if isinstance(n.func, ast.Name) else None
        if sig and not any(isinstance(a, ast.Starred) for a in n.args) and all(k.arg for k in n.keywords):
            cert_names, defs, (code_names, code_defs) = sig
            if sorted(cert_names) != sorted(code_names):
                raise Structural(f"{nm} takes other parameters")
            # arguments bind by the version's own parameter order; written in the order of the certified version
            names = code_names if self.code else cert_names
            defs = {p: d for p, d in (code_defs if self.code else defs).items()}
            if len(n.args) <= len(names):
                kws = {p: a for p, a in zip(names, n.args)}
                kws.update({k.arg: k.value for k in n.keywords})
                for p, d in defs.items():
                    kws.setdefault(p, copy.deepcopy(d))
                order = [p for p in cert_names if p in kws] + [p for p in kws if p not in names]
                n.args = []
                n.keywords = [ast.keyword(p, kws[p]) for p in order]
        elif sum(1 for k in n.keywords if k.arg) > 1:
            n.keywords.sort(key=lambda k: k.arg or "")
        return n


def pure(n):
    return not any(isinstance(x, (ast.Call, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)) and call_name(x) not in INERT_CALLS for x in ast.walk(n))


def idle(fd):
    """Drop statements without effect."""
    while True:
        loads = {x.id for x in ast.walk(fd) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Load, ast.Del))}
        hit = [False]

        class Tr(ast.NodeTransformer):
            def generic_visit(self, n):
                super().generic_visit(n)
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(n, f, None)
                    if isinstance(b, list):
                        new = [s for s in b if not self.dead(s)]
                        if len(new) != len(b):
                            if f == "body" and not new:
                                new = [ast.copy_location(ast.Pass(), b[0])]
                                if len(b) == 1 and isinstance(b[0], ast.Pass):
                                    continue
                            hit[0] = True
                            setattr(n, f, new)
                return n

            def dead(self, s):
                if isinstance(s, ast.Pass):
                    return True
                if isinstance(s, ast.Expr):
                    return pure(s.value) or call_name(s.value) in ("debug", "info", "print")
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    t = s.targets[0].id
                    return (isinstance(s.value, ast.Name) and s.value.id == t) or (t not in loads and pure(s.value))
                if isinstance(s, ast.If) and pure(s.test) and not s.orelse and all(isinstance(x, ast.Pass) for x in s.body):
                    return True
                return False

        fd = Tr().visit(fd)
        if not hit[0]:
            return fd


def prepare(fdef, sigs, code=False):
    fd = copy.deepcopy(fdef)
    if fd.body and isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant) and isinstance(fd.body[0].value.value, str):
        fd.body = fd.body[1:] or [ast.Pass()]
    fd = Norm(sigs, code).visit(fd)
    return idle(fd)


class Structural(Exception):
    pass


class Edit:
    def __init__(self, kind, before, after, line, sensitive=True, guard=False):
        self.kind, self.before, self.after, self.line, self.sensitive, self.guard = kind, before, after, line, sensitive, guard

    @property
    def key(self):
        return self.kind, self.before, self.after

    def __str__(self):
        return f"line {self.line}: {self.kind}: `{self.after}` instead of `{self.before}`"


def txt(n):
    if n is None:
        return ""
    try:
        return " ".join(ast.unparse(ast.fix_missing_locations(n)).split())[:160] if isinstance(n, ast.AST) else str(n)
    except Exception:
        return type(n).__name__


class Align:
    def __init__(self, a, b, globs):
        self.edits: list = []
        self.pairs: list = []
        self.nodes: list = []
        self.line = getattr(b, "lineno", 0)
        self.globs = globs
        self.raising = 0
        self.pa = {x.arg for x in a.args.posonlyargs + a.args.args + a.args.kwonlyargs}
        self.la = {x.id for x in ast.walk(a) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        self.lb = {x.id for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if [x.arg for x in a.args.args + a.args.kwonlyargs] != [x.arg for x in b.args.args + b.args.kwonlyargs]:
            raise Structural("signature")
        self.stmts(a.body, b.body)
        self.names()

    def add(self, kind, a, b, sensitive=True):
        self.edits.append(Edit(kind, txt(a), txt(b), self.line, sensitive, self.raising > 0))

    # ---- names
    def names(self):
        fwd, bwd = {}, {}
        for x, y, *_ in self.pairs:
            fwd.setdefault(x, {}).setdefault(y, 0)
            fwd[x][y] += 1
            bwd.setdefault(y, {}).setdefault(x, 0)
            bwd[y][x] += 1
        for x, y, line, g, store, node in self.pairs:
            if x == y and (len(fwd[x]) == 1 or x in fwd[x]):
                continue
            if x != y and x in self.la and y in self.lb and x not in self.pa and y not in self.pa and len(fwd[x]) == 1 and len(bwd[y]) == 1:
                continue  # renamed throughout
            self.nodes.append(node)
            self.edits.append(Edit("name replaced" if not store else "assigned name replaced", x, y, line, not store and x in self.la | self.pa | self.globs and y in self.lb | self.pa | self.globs, g))

    # ---- statements
    def stmts(self, A, B):
        if len(A) == len(B):
            da, db = [dump(x) for x in A], [dump(x) for x in B]
            if da != db and sorted(da) == sorted(db):
                raise Structural("reordered statements")
            for x, y in zip(A, B):
                self.stmt(x, y)
            return
        da, db = [dump(x) for x in A], [dump(x) for x in B]
        for tag, i0, i1, j0, j1 in difflib.SequenceMatcher(None, da, db, autojunk=False).get_opcodes():
            if tag == "equal":
                for x, y in zip(A[i0:i1], B[j0:j1]):
                    self.stmt(x, y)
            elif tag == "replace" and i1 - i0 == j1 - j0:
                for x, y in zip(A[i0:i1], B[j0:j1]):
                    self.stmt(x, y)
            elif tag == "delete" and i1 - i0 == 1:
                self.line = getattr(B[min(j0, len(B) - 1)], "lineno", self.line) if B else self.line
                self.gone(A[i0])
            elif tag == "insert" and j1 - j0 == 1:
                self.line = getattr(B[j0], "lineno", self.line)
                self.come(B[j0])
            else:
                # a guard added around, or removed from, a block
                if i1 - i0 == 1 and isinstance(A[i0], ast.If) and not A[i0].orelse and [dump(x) for x in A[i0].body] == db[j0:j1]:
                    self.line = B[j0].lineno
                    self.add("guard removed", A[i0].test, None)
                elif j1 - j0 == 1 and isinstance(B[j0], ast.If) and not B[j0].orelse and [dump(x) for x in B[j0].body] == da[i0:i1]:
                    self.line = B[j0].lineno
                    self.add("guard added", None, B[j0].test)
                else:
                    raise Structural(f"statements {i0}:{i1} / {j0}:{j1}")

    def gone(self, s):
        g = any(isinstance(x, ast.Raise) for x in ast.walk(s))
        self.raising += g
        self.add("statement removed", s, None, sensitive=not isinstance(s, (ast.Assert, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Return)))
        self.raising -= g

    def come(self, s):
        ok = False
        if isinstance(s, ast.AugAssign):
            ok = True
        elif isinstance(s, ast.Assign) and len(s.targets) == 1:
            t = s.targets[0]
            root = t
            while isinstance(root, (ast.Subscript, ast.Attribute)):
                root = root.value
            ok = isinstance(root, ast.Name) and root.id in self.la | self.pa and not (call_name(s.value) in INERT_CALLS)
        elif isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], (ast.Continue, ast.Break)):
            ok = True
        elif isinstance(s, (ast.Continue, ast.Break)):
            ok = True
        self.add("statement added", None, s, sensitive=ok)

    def stmt(self, x, y):
        self.line = getattr(y, "lineno", self.line)
        if type(x) is not type(y):
            if isinstance(x, ast.If) and not x.orelse and len(x.body) == 1 and dump(x.body[0]) == dump(y):
                self.add("guard removed", x.test, None)
                return
            if isinstance(y, ast.If) and not y.orelse and len(y.body) == 1 and dump(y.body[0]) == dump(x):
                self.add("guard added", None, y.test)
                return
            if isinstance(y, ast.Pass) and not isinstance(x, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                self.gone(x)
                return
            if isinstance(x, (ast.Continue, ast.Break)) and isinstance(y, (ast.Continue, ast.Break)):
                self.add("jump replaced", x, y)
                return
            if isinstance(x, ast.AugAssign) and isinstance(y, ast.Assign) and len(y.targets) == 1 and dump(x.target) == dump(y.targets[0]) and dump(x.value) == dump(y.value):
                self.add("accumulation replaced by assignment", x, y)
                return
            raise Structural(f"{type(x).__name__} / {type(y).__name__}")
        if isinstance(x, ast.FunctionDef):
            if x.name != y.name or len(x.args.args) != len(y.args.args):
                raise Structural("nested function")
            self.stmts(x.body, y.body)
            return
        if isinstance(x, (ast.If, ast.While)):
            g = isinstance(x, ast.If) and any(isinstance(s, ast.Raise) for b in x.body + x.orelse for s in ast.walk(b))
            self.raising += g
            self.expr(x.test, y.test)
            self.raising -= g
            self.stmts(x.body, y.body)
            self.stmts(x.orelse, y.orelse)
            return
        if isinstance(x, ast.For):
            self.expr(x.target, y.target)
            self.expr(x.iter, y.iter)
            self.stmts(x.body, y.body)
            self.stmts(x.orelse, y.orelse)
            return
        if isinstance(x, ast.AugAssign) and type(x.op) is not type(y.op):
            self.add("operator changed", x, y)
            return
        for f in x._fields:
            if f in ("type_comment", "lineno"):
                continue
            self.field(getattr(x, f, None), getattr(y, f, None))

    def field(self, u, v):
        if isinstance(u, list):
            if u and isinstance(u[0], ast.stmt) or v and isinstance(v[0], ast.stmt):
                self.stmts(u, v)
                return
            if len(u) != len(v):
                raise Structural("list")
            for p, q in zip(u, v):
                self.field(p, q)
        elif isinstance(u, ast.AST):
            if not isinstance(v, ast.AST):
                raise Structural("missing")
            if isinstance(u, ast.expr):
                self.expr(u, v)
            else:
                if type(u) is not type(v):
                    raise Structural("kind")
                for f in u._fields:
                    self.field(getattr(u, f, None), getattr(v, f, None))
        elif u != v:
            raise Structural("leaf")

    # ---- expressions
    def permuted(self, kind, us, vs, whole, whole2):
        du, dv = [dump(x) for x in us], [dump(x) for x in vs]
        if du != dv and len(du) == len(dv) and sorted(du) == sorted(dv) and len(set(du)) > 1:
            self.add(kind, whole, whole2)
            return True
        return False

    def expr(self, x, y):
        self.line = getattr(y, "lineno", self.line)
        if dump(x) == dump(y):
            for n in ast.walk(x):
                if isinstance(n, ast.Name):
                    self.pairs.append((n.id, n.id, self.line, self.raising > 0, isinstance(n.ctx, ast.Store), n))
            return
        if type(x) is not type(y):
            self.mixed(x, y)
            return
        if isinstance(x, ast.Name):
            self.pairs.append((x.id, y.id, self.line, self.raising > 0, isinstance(x.ctx, ast.Store), x))
        elif isinstance(x, ast.Constant):
            self.add("constant changed", x, y, type(x.value) is type(y.value) or isinstance(x.value, (int, float, complex)) and isinstance(y.value, (int, float, complex)))
        elif isinstance(x, ast.BinOp):
            if type(x.op) is not type(y.op):
                if dump(x.left) == dump(y.left) and dump(x.right) == dump(y.right):
                    self.add("operator changed", x, y)
                    return
                self.mixed(x, y)
                return
            if self.permuted("operands swapped", [x.left, x.right], [y.left, y.right], x, y):
                if isinstance(x.op, (ast.Add, ast.Mult, ast.BitAnd, ast.BitOr)):
                    self.edits.pop()
                    raise Structural("commuted")
                return
            if self.contained(x, y):
                return
            self.expr(x.left, y.left)
            self.expr(x.right, y.right)
        elif isinstance(x, ast.UnaryOp):
            if type(x.op) is not type(y.op):
                raise Structural("unary")
            self.expr(x.operand, y.operand)
        elif isinstance(x, ast.BoolOp):
            if type(x.op) is not type(y.op):
                if [dump(v) for v in x.values] == [dump(v) for v in y.values]:
                    self.add("connective changed", x, y)
                    return
                self.mixed(x, y)
                return
            du, dv = [dump(v) for v in x.values], [dump(v) for v in y.values]
            if len(du) == len(dv):
                if sorted(du) == sorted(dv):
                    raise Structural("reordered operands")
                for p, q in zip(x.values, y.values):
                    self.expr(p, q)
            elif len(du) == len(dv) + 1 and [d for d in du if d in dv] == dv:
                self.add("condition dropped", next(v for v, d in zip(x.values, du) if d not in dv), None)
            elif len(dv) == len(du) + 1 and [d for d in dv if d in du] == du:
                self.add("condition added", None, next(v for v, d in zip(y.values, dv) if d not in du))
            else:
                raise Structural("boolop")
        elif isinstance(x, ast.Compare):
            if len(x.ops) != len(y.ops):
                raise Structural("compare")
            us, vs = [x.left] + x.comparators, [y.left] + y.comparators
            if [type(o) for o in x.ops] != [type(o) for o in y.ops]:
                if [dump(u) for u in us] == [dump(v) for v in vs]:
                    self.add("comparison changed", x, y)
                    return
                raise Structural("comparison rewritten")
            if len(us) == 2 and dump(us[0]) == dump(vs[1]) and dump(us[1]) == dump(vs[0]):
                if isinstance(x.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                    raise Structural("flipped")
                self.add("comparison reversed", x, y)
                return
            for p, q in zip(us, vs):
                self.expr(p, q)
        elif isinstance(x, ast.Call):
            self.callee(x, y)
        elif isinstance(x, ast.Attribute):
            if x.attr != y.attr:
                if dump(x.value) != dump(y.value):
                    raise Structural("attribute")
                self.add("attribute replaced", x, y, not {x.attr, y.attr} <= {"T", "H", "transpose"})
                return
            self.expr(x.value, y.value)
        elif isinstance(x, ast.Subscript):
            if dump(x.value) != dump(y.value) and dump(x.slice) != dump(y.slice) and self.contained(x, y):
                return
            self.expr(x.value, y.value)
            self.expr(x.slice, y.slice)
        elif isinstance(x, (ast.Tuple, ast.List)):
            if len(x.elts) != len(y.elts):
                raise Structural("elements")
            if self.permuted("elements permuted", x.elts, y.elts, x, y):
                return
            for p, q in zip(x.elts, y.elts):
                self.expr(p, q)
        elif isinstance(x, ast.Slice):
            for f in ("lower", "upper", "step"):
                p, q = getattr(x, f), getattr(y, f)
                if p is None and q is None:
                    continue
                if p is None or q is None:
                    z = q if p is None else p
                    if f == "lower" and isinstance(z, ast.Constant) and z.value == 0:
                        continue
                    self.add("slice bound changed", x, y)
                else:
                    self.expr(p, q)
        elif isinstance(x, ast.IfExp):
            if dump(x.test) == dump(y.test) and dump(x.body) == dump(y.orelse) and dump(x.orelse) == dump(y.body):
                self.add("branches swapped", x, y)
                return
            for f in ("test", "body", "orelse"):
                self.expr(getattr(x, f), getattr(y, f))
        elif isinstance(x, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            if len(x.generators) != len(y.generators):
                raise Structural("generators")
            for g, h in zip(x.generators, y.generators):
                self.expr(g.target, h.target)
                self.expr(g.iter, h.iter)
                if len(g.ifs) == len(h.ifs):
                    for p, q in zip(g.ifs, h.ifs):
                        self.expr(p, q)
                elif not h.ifs and len(g.ifs) == 1:
                    self.add("guard removed", g.ifs[0], None)
                elif not g.ifs and len(h.ifs) == 1:
                    self.add("guard added", None, h.ifs[0])
                else:
                    raise Structural("comprehension guards")
            for f in ("elt", "key", "value"):
                if hasattr(x, f):
                    self.expr(getattr(x, f), getattr(y, f))
        else:
            for f in x._fields:
                if f != "ctx":
                    self.field(getattr(x, f, None), getattr(y, f, None))

    def callee(self, x, y):
        nx, ny = call_name(x), call_name(y)
        fx, fy = x.func, y.func
        if dump(fx) != dump(fy):
            if nx != ny:
                same = [dump(a) for a in x.args] == [dump(a) for a in y.args] and [k.arg for k in x.keywords] == [k.arg for k in y.keywords]
                sens = any(nx in s and ny in s for s in CONFUSABLE) or (nx in self.globs and ny in self.globs)
                if self.contained(x, y):
                    return
                if not same:
                    raise Structural("call")
                if isinstance(fx, ast.Attribute) and isinstance(fy, ast.Attribute) and dump(fx.value) != dump(fy.value):
                    raise Structural("call")
                self.add("function replaced", fx, fy, sens)
                return
            self.expr(fx, fy)
        if len(x.args) == len(y.args):
            if len(x.args) >= 2 and self.permuted("arguments swapped", x.args, y.args, x, y):
                if nx in COMMUTATIVE:
                    self.edits.pop()
                    raise Structural("commuted")
            else:
                for p, q in zip(x.args, y.args):
                    self.expr(p, q)
        else:
            if self.contained(x, y):
                return
            raise Structural("arguments")
        ku, kv = {k.arg: k.value for k in x.keywords}, {k.arg: k.value for k in y.keywords}
        if set(ku) == set(kv) and len(ku) >= 2 and len(x.args) == 0:
            if self.permuted("arguments swapped", [ku[k] for k in ku], [kv[k] for k in ku], x, y):
                if nx in COMMUTATIVE:
                    self.edits.pop()
                    raise Structural("commuted")
                return
        for k in sorted(set(ku) | set(kv), key=str):
            if k in ku and k in kv:
                self.expr(ku[k], kv[k])
            elif k in ku:
                self.add("argument dropped", x, y, self.telling(k, ku[k]))
            else:
                self.add("argument added", x, y, self.telling(k, kv[k]))

    def telling(self, k, v):
        """An explicit argument that is unlikely to repeat the callee's default."""
        if not isinstance(v, ast.Constant) or k in ("atol", "rtol"):
            return True
        return not isinstance(v.value, (str, bool, type(None))) and v.value != 0

    def subexprs(self, n):
        return [c for c in ast.iter_child_nodes(n) if isinstance(c, ast.expr)]

    def inert(self, n):
        return isinstance(n, ast.Call) and (call_name(n) in INERT_CALLS) or isinstance(n, ast.Attribute) and n.attr not in ("T", "real", "imag")

    def operands(self, n):
        if isinstance(n, ast.Call):
            f = n.func
            recv = [f.value] if isinstance(f, ast.Attribute) and not (isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "warnings")) and not isinstance(f.value, ast.Attribute) else []
            return recv + n.args + [k.value for k in n.keywords]
        return self.subexprs(n)

    def contained(self, x, y):
        """One is an operand of the other: an operation was dropped or added."""
        dx, dy = dump(x), dump(y)
        if any(dump(c) == dy for c in self.operands(x)):
            trivial = isinstance(x, ast.BinOp) and any(isinstance(c, ast.Constant) and c.value in (0, 1) for c in (x.left, x.right)) and isinstance(x.op, (ast.Mult, ast.Div, ast.Pow))
            self.add("operation dropped", x, y, not self.inert(x) and not trivial)
            return True
        if any(dump(c) == dx for c in self.operands(y)):
            trivial = isinstance(y, ast.BinOp) and any(isinstance(c, ast.Constant) and c.value in (0, 1) for c in (y.left, y.right)) and isinstance(y.op, (ast.Mult, ast.Div, ast.Pow))
            self.add("operation added", x, y, not self.inert(y) and not trivial)
            return True
        return False

    def mixed(self, x, y):
        if self.contained(x, y):
            return
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and dump(x.operand) == dump(y) or isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not) and dump(y.operand) == dump(x):
            self.add("negation", x, y)
            return
        small = (ast.Name, ast.Constant)
        if isinstance(x, small) and isinstance(y, small):
            self.add("name and constant exchanged", x, y, not isinstance(x.ctx if isinstance(x, ast.Name) else None, ast.Store))
            return
        if isinstance(x, ast.BoolOp) and any(dump(v) == dump(y) for v in x.values):
            self.add("condition dropped", x, y)
            return
        if isinstance(y, ast.BoolOp) and any(dump(v) == dump(x) for v in y.values):
            self.add("condition added", x, y)
            return
        if isinstance(y, ast.Constant) and isinstance(y.value, bool):
            self.add("condition replaced by a constant", x, y)
            return
        raise Structural(f"{type(x).__name__} / {type(y).__name__}")


def one_point(cert, code, sigs, globs):
    """The single observable point at which `code` departs from `cert`, or None."""
    if cert is None or code is None:
        return None
    try:
        a, b = prepare(cert, sigs), prepare(code, sigs, True)
        if dump(a) == dump(b):
            return None
        al = Align(a, b, globs)
    except (Structural, RecursionError):
        return None
    ed = al.edits
    if not ed or not all(e.sensitive for e in ed):
        return None
    if len({e.key for e in ed}) != 1:
        return swapped(a, al)
    if len(ed) > 1 and ed[0].kind in ("operation dropped", "operation added", "negation", "operands swapped", "elements permuted", "arguments swapped", "comparison reversed"):
        return None
    return ed[0]


def swapped(a, al):
    """Two names exchanged within one statement, not below a symmetric operation."""
    ed = al.edits
    if len(ed) != 2 or len(al.nodes) != 2 or ed[0].line != ed[1].line:
        return None
    x, y = ed
    if (x.before, x.after) != (y.after, y.before):
        return None
    up = {}
    for p in ast.walk(a):
        for c in ast.iter_child_nodes(p):
            up[id(c)] = p

    def chain(n):
        out = []
        while n is not None and not isinstance(n, ast.stmt):
            out.append(n)
            n = up.get(id(n))
        return out + [n]

    p, q = chain(al.nodes[0]), chain(al.nodes[1])
    if p[-1] is not q[-1] or not isinstance(p[-1], ast.stmt):
        return None
    lca = next(n for n in p if any(n is m for m in q))
    if isinstance(lca, ast.BinOp):
        # a chain of products commutes as a whole
        while isinstance(up.get(id(lca)), ast.BinOp) and type(up[id(lca)].op) is type(lca.op):
            lca = up[id(lca)]
        if isinstance(lca.op, (ast.Add, ast.Mult, ast.BitAnd, ast.BitOr)):
            return None
    if isinstance(lca, (ast.BoolOp, ast.Set, ast.Dict)) or call_name(lca) in COMMUTATIVE:
        return None
    if isinstance(lca, ast.Compare) and isinstance(lca.ops[0], (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
        return None
    return Edit("names exchanged", f"{x.before}, {x.after}", f"{x.after}, {x.before}", x.line, True, x.guard)


def explain(cert, code, sigs, globs):
    try:
        a, b = prepare(cert, sigs), prepare(code, sigs, True)
        return [str(e) + ("" if e.sensitive else " (ignored)") for e in Align(a, b, globs).edits]
    except Structural as e:
        return ["structural: " + str(e)]


def same(cert, code, sigs):
    """The two versions differ in names of locals, messages, annotations or idle statements only."""
    if cert is None or code is None:
        return False
    try:
        a, b = prepare(cert, sigs), prepare(code, sigs, True)
        return dump(a) == dump(b) or not Align(a, b, set()).edits
    except (Structural, RecursionError):
        return False
