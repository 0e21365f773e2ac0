"""Effect analysis of the package: hidden state, sources of nondeterminism, and writes into caller-owned objects.

Everything is read from the syntax trees; a report needs a definite construct (a call, a store) reached from a public
function, and anything the analysis cannot resolve is counted as unresolved, never reported.
"""
from __future__ import annotations

import ast

from .sigs import SIGS

MUTATING_METHODS = {
    "append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add",
    "discard", "fill", "resize", "put", "itemset", "partition", "setflags", "byteswap", "setfield", "appendleft", "popleft",
}
ND_MUT_FUNCS = {"copyto": 0, "put": 0, "place": 0, "putmask": 0, "fill_diagonal": 0, "put_along_axis": 0}
VIEW_FUNCS = {"asarray", "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "reshape", "ravel", "transpose", "swapaxes",
              "moveaxis", "squeeze", "expand_dims", "real", "imag", "broadcast_to", "ascontiguousarray", "diagonal",
              "asfarray", "require", "rollaxis"}
VIEW_METHODS = {"reshape", "ravel", "transpose", "swapaxes", "squeeze", "view", "diagonal"}
VIEW_ATTRS = {"T", "real", "imag", "flat"}
SCALARS = ("int", "real", "nat", "bool", "str", "bit", "complex")


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


def ndim(t):
    """Levels of indexing before an immutable scalar is reached (99: unknown)."""
    if t[0] == "opt":
        return ndim(t[1])
    if t[0] == "list":
        return 1 + ndim(t[1])
    if t[0] == "nd":
        return 99 if "*" in t[2] else len(t[2])
    if t[0] == "scalar" and t[1] in SCALARS:
        return 0
    return 99


class Fn:
    def __init__(self, mod, fdef, owner=None):
        self.mod, self.fdef, self.owner = mod, fdef, owner
        self.name = fdef.name
        a = fdef.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.mut: dict = {}  # param -> (line, how)
        self.viewof: set = set()  # params the result may be a view of (must-alias for some input)
        self.nested: dict = {}


def walk_own(node):
    """Nodes of a function body, nested function bodies excluded."""
    todo = list(ast.iter_child_nodes(node))
    while todo:
        n = todo.pop(0)
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo = list(ast.iter_child_nodes(n)) + todo


class Effects:
    def __init__(self, prog):
        self.prog = prog
        self.fns: dict = {}
        self.unresolved: list = []
        for m in prog.mods.values():
            for fd in m.funcs.values():
                self.add(m, fd, None)
        self.reports: list = []
        self.checked = {"functions": 0, "stores": 0, "calls": 0, "rng": 0, "module_names": 0, "params": 0}

    def add(self, m, fd, owner):
        f = Fn(m, fd, owner)
        self.fns[(m.name, (owner.name + "." if owner else "") + fd.name)] = f
        for n in walk_own(fd):
            if isinstance(n, ast.FunctionDef):
                f.nested[n.name] = self.add(m, n, f)
        return f

    # -------------------------------------------------------------- resolution
    def full(self, m, e):
        """Fully qualified dotted name of an expression, through the module's imports."""
        d = dotted(e)
        if d is None:
            return None
        head, _, rest = d.partition(".")
        imp = m.imports.get(head)
        if imp is None:
            return d
        if imp[0] == "mod":
            base = imp[1]
        else:
            base = (imp[1] + "." if imp[1] else "") + imp[2]
            if imp[3]:
                base = self.prog.pkg + "." + base
        return base + ("." + rest if rest else "")

    def callee(self, f, call):
        e = call.func
        if isinstance(e, ast.Name):
            g = f
            while g is not None:
                if e.id in g.nested:
                    return g.nested[e.id]
                g = g.owner
            if e.id in f.mod.funcs:
                return self.fns.get((f.mod.name, e.id))
        d = self.full(f.mod, e)
        if d and d.startswith(self.prog.pkg + "."):
            mn, _, fn = d[len(self.prog.pkg) + 1 :].rpartition(".")
            return self.fns.get((mn, fn))
        return None

    # -------------------------------------------------------------- inputs are not written
    def scalar_param(self, f, p):
        sig = SIGS.get(f.name)
        t = dict(sig.params).get(p) if sig else None
        if t is not None:
            return ndim(t) == 0
        for a in f.fdef.args.posonlyargs + f.fdef.args.args + f.fdef.args.kwonlyargs:
            if a.arg == p and a.annotation is not None:
                t = ast.unparse(a.annotation)
                return t.split(" ")[0] in ("int", "float", "bool", "str", "complex") or t.startswith("Literal")
        return False

    def view(self, f, e, env):
        """Parameters whose memory the value of e shares (for array/list values)."""
        if isinstance(e, ast.Name):
            return env.get(e.id, frozenset())
        if isinstance(e, ast.Starred):
            return self.view(f, e.value, env)
        if isinstance(e, ast.Subscript):
            # basic indexing is a view; indexing by a list/array/mask copies
            if self.basic_index(e.slice):
                k = sum(not isinstance(x, ast.Slice) and not (isinstance(x, ast.Constant) and x.value in (None, Ellipsis))
                        for x in (e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]))
                return frozenset((p, d + k) for p, d in self.view(f, e.value, env))
            return frozenset()
        if isinstance(e, ast.Attribute) and e.attr in VIEW_ATTRS:
            return self.view(f, e.value, env)
        if isinstance(e, ast.IfExp):
            return self.view(f, e.body, env) | self.view(f, e.orelse, env)
        if isinstance(e, (ast.Tuple, ast.List)):
            return frozenset()
        if isinstance(e, ast.NamedExpr):
            return self.view(f, e.value, env)
        if isinstance(e, ast.Call):
            d = self.full(f.mod, e.func)
            if d and d.startswith("numpy."):
                fn = d.rsplit(".", 1)[1]
                if fn in VIEW_FUNCS and e.args:
                    return self.view(f, e.args[0], env)
                if fn == "array" and e.args:
                    for k in e.keywords:
                        if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                            return self.view(f, e.args[0], env)
                return frozenset()
            if isinstance(e.func, ast.Attribute) and e.func.attr in VIEW_METHODS:
                return self.view(f, e.func.value, env)
            if isinstance(e.func, ast.Attribute) and e.func.attr == "astype":
                for k in e.keywords:
                    if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False:
                        return self.view(f, e.func.value, env)
                return frozenset()
            g = self.callee(f, e)
            if g is not None:
                out = frozenset()
                for p, a in self.bind(g, e):
                    if p in g.viewof:
                        out |= self.view(f, a, env)
                return out
        return frozenset()

    def basic_index(self, s):
        if isinstance(s, ast.Tuple):
            return all(self.basic_index(x) for x in s.elts)
        if isinstance(s, ast.Slice):
            return True
        if isinstance(s, ast.Constant):
            return s.value is None or s.value is Ellipsis or isinstance(s.value, int) and not isinstance(s.value, bool)
        if isinstance(s, ast.UnaryOp):
            return isinstance(s.operand, ast.Constant)
        if isinstance(s, ast.Attribute):
            return s.attr == "newaxis"
        if isinstance(s, ast.Name):
            return s.id in self.loopvars
        if isinstance(s, ast.BinOp):
            return self.basic_index(s.left) and self.basic_index(s.right)
        return False

    def bind(self, g, call):
        for p, a in zip(g.pos, call.args):
            if isinstance(a, ast.Starred):
                return
            yield p, a
        for k in call.keywords:
            if k.arg:
                yield k.arg, k.value

    def mutations(self, f):
        """One flow-sensitive pass over the statements (twice, for loops); records parameter mutations."""
        self.loopvars = set()
        for n in ast.walk(f.fdef):
            if isinstance(n, (ast.For, ast.comprehension)):
                it = n.iter
                if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("range", "enumerate"):
                    t = n.target
                    if it.func.id == "enumerate" and isinstance(t, ast.Tuple) and t.elts:
                        t = t.elts[0]
                    if isinstance(t, ast.Name):
                        self.loopvars.add(t.id)
        env = {p: frozenset([(p, 0)]) for p in f.params if not self.scalar_param(f, p)}
        before = (dict(f.mut), set(f.viewof))
        self.block(f, f.fdef.body, env)
        return before != (f.mut, f.viewof)

    def hit(self, f, ps, node, how):
        for p, _d in ps:
            if p in f.params and p not in f.mut:
                f.mut[p] = (node.lineno, how)

    def calls_in(self, f, e, env):
        for n in ast.walk(e):
            if not isinstance(n, ast.Call):
                continue
            self.checked["calls"] += 1
            d = self.full(f.mod, n.func)
            if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING_METHODS and not (d or "").startswith(("numpy.", "scipy.")):
                v = self.view(f, n.func.value, env)
                if v:
                    self.hit(f, v, n, f"in-place method .{n.func.attr}() on an object shared with the argument")
            if d and d.startswith("numpy."):
                fn = d.rsplit(".", 1)[1]
                if fn in ND_MUT_FUNCS and n.args:
                    self.hit(f, self.view(f, n.args[0], env), n, f"numpy.{fn} writes into the argument")
                if d.endswith(".at") and n.args:
                    self.hit(f, self.view(f, n.args[0], env), n, f"{d} writes into the argument")
                if fn in ("nan_to_num",):
                    for k in n.keywords:
                        if k.arg == "copy" and isinstance(k.value, ast.Constant) and k.value.value is False and n.args:
                            self.hit(f, self.view(f, n.args[0], env), n, "nan_to_num(copy=False) writes into the argument")
            if isinstance(n.func, ast.Attribute) and n.func.attr == "shuffle" and n.args:
                self.hit(f, self.view(f, n.args[0], env), n, "shuffle permutes the argument in place")
            for k in n.keywords:
                if k.arg == "out":
                    self.hit(f, self.view(f, k.value, env), n, "out= writes into the argument")
                if k.arg in ("overwrite_a", "overwrite_b") and isinstance(k.value, ast.Constant) and k.value.value is True and n.args:
                    self.hit(f, self.view(f, n.args[0], env), n, f"{k.arg}=True lets the solver write into the argument")
            g = self.callee(f, n)
            if g is not None:
                for p, a in self.bind(g, n):
                    if p in g.mut:
                        self.hit(f, self.view(f, a, env), n, f"passed to {g.name}, which writes into its parameter {p} ({g.mut[p][1]})")

    def store(self, f, t, env, node):
        if isinstance(t, ast.Subscript):
            self.checked["stores"] += 1
            self.hit(f, self.view(f, t.value, env), node, "element assignment into an object shared with the argument")
        elif isinstance(t, ast.Attribute):
            if t.attr in ("flat", "real", "imag", "shape", "dtype"):
                self.hit(f, self.view(f, t.value, env), node, f"assignment to .{t.attr} of the argument")
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.store(f, x, env, node)

    def assign(self, f, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.assign(f, x, v, env)
        elif isinstance(t, ast.Starred):
            self.assign(f, t.value, v, env)

    def itertargets(self, f, t, it, env):
        """Bind loop targets: elements of an array/list parameter are views of it."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and it.args:
            if isinstance(t, ast.Tuple) and len(t.elts) == 2:
                self.assign(f, t.elts[0], frozenset(), env)
                self.itertargets(f, t.elts[1], it.args[0], env)
                return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "zip":
            if isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
                for x, a in zip(t.elts, it.args):
                    self.itertargets(f, x, a, env)
                return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ("reversed", "list", "tuple", "iter", "sorted"):
            if it.args:
                self.itertargets(f, t, it.args[0], env)
                return
        self.assign(f, t, frozenset((p, d + 1) for p, d in self.view(f, it, env)), env)

    def block(self, f, body, env):
        for s in body:
            self.stmt(f, s, env)

    def stmt(self, f, s, env):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global, ast.Nonlocal)):
            if isinstance(s, ast.FunctionDef):
                # closure writes into the owner's variables
                inner = dict(env)
                for a in s.args.args:
                    inner[a.arg] = frozenset()
                self.block(f, s.body, inner)
            return
        if isinstance(s, ast.Assign):
            self.calls_in(f, s.value, env)
            v = self.view(f, s.value, env)
            for t in s.targets:
                self.store(f, t, env, s)
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                    vs = [self.view(f, x, env) for x in s.value.elts]
                    for x, w in zip(t.elts, vs):
                        self.assign(f, x, w, env)
                else:
                    self.assign(f, t, v if not isinstance(t, (ast.Tuple, ast.List)) else frozenset(), env)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.calls_in(f, s.value, env)
                self.store(f, s.target, env, s)
                self.assign(f, s.target, self.view(f, s.value, env), env)
        elif isinstance(s, ast.AugAssign):
            self.calls_in(f, s.value, env)
            self.store(f, s.target, env, s)
            if isinstance(s.target, ast.Name):
                v = env.get(s.target.id, frozenset())
                if v and s.target.id not in self.loopvars:
                    self.hit(f, {(p, d) for p, d in v if self.array_element(f, p, d)}, s, "in-place operator on an array shared with the argument")
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.calls_in(f, s.iter, env)
            for _ in range(2):
                self.itertargets(f, s.target, s.iter, env)
                self.block(f, s.body, env)
            self.block(f, s.orelse, env)
        elif isinstance(s, ast.While):
            self.calls_in(f, s.test, env)
            for _ in range(2):
                self.block(f, s.body, env)
            self.block(f, s.orelse, env)
        elif isinstance(s, ast.If):
            self.calls_in(f, s.test, env)
            a, b = dict(env), dict(env)
            self.block(f, s.body, a)
            self.block(f, s.orelse, b)
            ta, tb = self.leaves(s.body), self.leaves(s.orelse) if s.orelse else False
            for k in set(a) | set(b):
                va = frozenset() if ta else a.get(k, frozenset())
                vb = frozenset() if tb else b.get(k, frozenset())
                env[k] = va | vb
        elif isinstance(s, ast.With):
            for i in s.items:
                self.calls_in(f, i.context_expr, env)
            self.block(f, s.body, env)
        elif isinstance(s, ast.Try):
            self.block(f, s.body, env)
            for h in s.handlers:
                self.block(f, h.body, env)
            self.block(f, s.orelse, env)
            self.block(f, s.finalbody, env)
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                self.store(f, t, env, s)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                self.calls_in(f, s.value, env)
                f.viewof |= {p for p, _d in self.view(f, s.value, env) if p in f.params}
        else:
            for e in ast.iter_child_nodes(s):
                if isinstance(e, ast.expr):
                    self.calls_in(f, e, env)

    def leaves(self, body):
        return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))

    def array_element(self, f, p, depth):
        """An in-place operator on an element of p writes memory only if the element is an array (or p itself is)."""
        if p not in f.params or self.scalar_param(f, p):
            return False
        sig = SIGS.get(f.name)
        t = dict(sig.params).get(p) if sig else None
        if t is None:
            return depth == 0
        return depth < ndim(t)

    def input_mutation(self):
        fs = list(self.fns.values())
        for _ in range(6):
            if not any([self.mutations(f) for f in fs]):
                break
        out = []
        for f in fs:
            if f.owner is not None:
                continue
            self.checked["functions"] += 1
            self.checked["params"] += len(f.params)
            allowed = SIGS[f.name].mutates if f.name in SIGS else ()
            if f.name.startswith("_") or f.name not in SIGS:
                continue  # private helpers: only what reaches a public function counts
            for p, (line, how) in f.mut.items():
                if p not in allowed:
                    out.append({"where": f"{f.mod.path}:{line}", "function": f.name, "why": f"{f.name} writes into its argument {p}: {how}"})
        return out

    # -------------------------------------------------------------- hidden state and nondeterminism
    def hidden_state(self):
        out = []

        def rep(m, node, fn, why):
            out.append({"where": f"{m.path}:{node.lineno}", "function": fn, "why": why})

        for m in self.prog.mods.values():
            mutable = {}
            for st in m.tree.body:
                tg = None
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    tg, val = st.targets[0].id, st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
                    tg, val = st.target.id, st.value
                if tg:
                    self.checked["module_names"] += 1
                    mutable[tg] = val
                    if isinstance(val, ast.Call):
                        d = self.full(m, val.func) or ""
                        if d.endswith(("random.default_rng", "random.RandomState", "random.Generator", "random.Random")):
                            used = any(isinstance(n, ast.Name) and n.id == tg for fd in m.funcs.values() for n in ast.walk(fd))
                            if used:
                                rep(m, st, tg, f"module-level random generator {tg}: its state carries over from call to call")
            for key, f in self.fns.items():
                if f.mod is not m or f.owner is not None:
                    continue
                self.function_state(f, mutable, rep)
        return out

    def locals_of(self, fd):
        loc = {a.arg for a in fd.args.posonlyargs + fd.args.args + fd.args.kwonlyargs}
        if fd.args.vararg:
            loc.add(fd.args.vararg.arg)
        if fd.args.kwarg:
            loc.add(fd.args.kwarg.arg)
        glob = set()
        for n in ast.walk(fd):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                loc.add(n.id)
            elif isinstance(n, (ast.Global,)):
                glob |= set(n.names)
        return loc - glob, glob

    def function_state(self, f, mutable, rep):
        fd, m = f.fdef, f.mod
        loc, glob = self.locals_of(fd)
        for dec in fd.decorator_list:
            e = dec.func if isinstance(dec, ast.Call) else dec
            d = self.full(m, e) or ""
            if d in ("functools.lru_cache", "functools.cache"):
                if not fd.returns or not ast.unparse(fd.returns).split("[")[0] in ("bool", "int", "float", "str", "Literal", "complex"):
                    rep(m, fd, f.name, f"{f.name} is memoised and hands out one shared mutable result")
        # mutable default arguments that are written or returned
        a = fd.args
        pos = a.posonlyargs + a.args
        defs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, y) for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None]
        for p, dv in defs:
            if isinstance(dv, (ast.List, ast.Dict, ast.Set)) or isinstance(dv, ast.Call):
                dn = self.full(m, dv.func) if isinstance(dv, ast.Call) else ""
                if isinstance(dv, ast.Call) and not (dn in ("list", "dict", "set") or (dn or "").startswith("numpy.")):
                    continue
                if isinstance(dv, ast.Call) and (dn or "").endswith(("default_rng", "RandomState")):
                    rep(m, fd, f.name, f"default of {p.arg} is a random generator created once: its state carries over from call to call")
                    continue
                if p.arg in f.mut:
                    rep(m, fd, f.name, f"mutable default of {p.arg} is modified by the function (line {f.mut[p.arg][0]})")
        for n in ast.walk(fd):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in glob:
                rep(m, n, f.name, f"{f.name} assigns the module-level name {n.id}")
            if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
                for t in ts:
                    while isinstance(t, (ast.Subscript, ast.Attribute)):
                        t = t.value
                        if isinstance(t, ast.Name) and t.id not in loc and (t.id in mutable or self.pkg_table(m, t.id)):
                            rep(m, n, f.name, f"{f.name} writes into the module-level object {t.id}")
                        if isinstance(t, ast.Name) and t.id not in loc and t.id in m.funcs:
                            rep(m, n, f.name, f"{f.name} stores state on the function object {t.id}")
            if isinstance(n, ast.Call):
                d = self.full(m, n.func) or ""
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING_METHODS:
                    b = n.func.value
                    while isinstance(b, (ast.Subscript, ast.Attribute)):
                        b = b.value
                    if isinstance(b, ast.Name) and b.id not in loc and (b.id in mutable or self.pkg_table(m, b.id)):
                        rep(m, n, f.name, f"{f.name} modifies the module-level object {b.id} in place (.{n.func.attr})")
                self.rng_call(f, n, d, rep)
        self.table_alias(f, loc, mutable, rep)

    def pkg_table(self, m, name):
        imp = m.imports.get(name)
        if not imp or imp[0] != "from":
            return False
        base = imp[1]
        if imp[3]:
            mm = self.prog.mods.get(base)
        elif base.startswith(self.prog.pkg):
            mm = self.prog.mods.get(base[len(self.prog.pkg):].lstrip("."))
        else:
            return False
        return mm is not None and imp[2] in mm.globals

    def table_alias(self, f, loc, mutable, rep):
        """x = TABLE[...]; x.append(...) / x[...] = ... : writes into a module-level table through a local name."""
        src: dict = {}

        def root(e):
            while isinstance(e, ast.Subscript):
                e = e.value
            if isinstance(e, ast.Name):
                if e.id in src:
                    return src[e.id]
                if e.id not in loc and (e.id in mutable and not isinstance(mutable[e.id], ast.Constant) or self.pkg_table(f.mod, e.id)):
                    return e.id
            if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("get", "setdefault"):
                return root(e.func.value)
            return None

        counts: dict = {}
        for n in ast.walk(f.fdef):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                counts[n.id] = counts.get(n.id, 0) + 1
        for n in ast.walk(f.fdef):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and counts.get(n.targets[0].id) == 1:
                r = root(n.value)
                if r:
                    src[n.targets[0].id] = r
            if isinstance(n, (ast.For,)) and isinstance(n.target, ast.Name) and counts.get(n.target.id) == 1:
                r = root(n.iter)
                if r:
                    src[n.target.id] = r
        for n in ast.walk(f.fdef):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    if isinstance(t, ast.Subscript):
                        b = t.value
                        while isinstance(b, ast.Subscript):
                            b = b.value
                        if isinstance(b, ast.Name) and b.id in src:
                            rep(f.mod, n, f.name, f"{f.name} writes into the module-level object {src[b.id]} through {b.id}")
                    elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name) and t.id in src:
                        rep(f.mod, n, f.name, f"{f.name} extends the module-level object {src[t.id]} in place through {t.id}")
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATING_METHODS:
                b = n.func.value
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in src:
                    rep(f.mod, n, f.name, f"{f.name} modifies the module-level object {src[b.id]} through {b.id}.{n.func.attr}()")

    SEEDED = ("numpy.random.default_rng", "numpy.random.RandomState", "numpy.random.Generator", "random.Random",
              "numpy.random.SeedSequence", "numpy.random.PCG64", "numpy.random.MT19937", "numpy.random.Philox", "numpy.random.SFC64")

    def unseeded(self, f, e, depth=0):
        """True if a seed expression certainly leaves the generator unseeded for some call."""
        if e is None:
            return True
        if isinstance(e, ast.Constant):
            return e.value is None
        if isinstance(e, ast.IfExp):
            return self.unseeded(f, e.body, depth) or self.unseeded(f, e.orelse, depth)
        if isinstance(e, ast.Name) and depth < 4:
            if e.id in f.params:
                a = f.fdef.args
                pos = a.posonlyargs + a.args
                dv = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
                dv.update({x.arg: y for x, y in zip(a.kwonlyargs, a.kw_defaults) if y is not None})
                reassigned = any(isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store) for n in ast.walk(f.fdef))
                if reassigned:
                    return False
                for g, call in self.call_sites(f):
                    b = dict(self.bind(f, call))
                    if e.id in b:
                        if self.unseeded(g, b[e.id], depth + 1):
                            return True
                    elif e.id in dv and self.unseeded(f, dv[e.id], depth + 1):
                        return True
                if f.name in SIGS or not f.name.startswith("_"):
                    return e.id in dv and isinstance(dv[e.id], ast.Constant) and dv[e.id].value is None
                return False
            vals = [n.value for n in ast.walk(f.fdef) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            if len(vals) == 1:
                return self.unseeded(f, vals[0], depth + 1)
            if not vals and e.id in f.mod.globals:
                return self.unseeded(f, f.mod.globals[e.id], depth + 1)
        if isinstance(e, ast.Call):
            d = self.full(f.mod, e.func) or ""
            if d in self.SEEDED:
                return self.unseeded(f, e.args[0] if e.args else next((k.value for k in e.keywords if k.arg in ("seed", "entropy")), None), depth + 1)
        if depth < 4:
            for x in ast.walk(e):
                if x is not e and isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id not in f.params:
                    vals = [n.value for n in ast.walk(f.fdef) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x.id for t in n.targets)]
                    if len(vals) == 1 and any(isinstance(y, ast.Call) and self.unsteady(f, y) for y in ast.walk(vals[0])):
                        return True
                if isinstance(x, ast.Call) and self.unsteady(f, x):
                    return True
        return False

    def unsteady(self, f, call):
        """True for a call whose value differs between runs of the same program on the same input."""
        d = self.full(f.mod, call.func) or ""
        if d.startswith(("time.", "os.urandom", "os.getpid", "secrets.", "uuid.", "datetime.datetime.now", "datetime.datetime.utcnow", "datetime.datetime.today", "threading.get_ident", "random.")):
            return True
        if d.startswith("numpy.random.") and d.count(".") == 2 and d not in self.SEEDED:
            return True
        if isinstance(call.func, ast.Name) and call.func.id not in f.mod.funcs and call.args:
            if call.func.id == "id":
                return True
            if call.func.id == "hash":      # of text or bytes: salted in every process
                a = call.args[0]
                return isinstance(a, ast.JoinedStr) or (isinstance(a, ast.Call) and (
                    (isinstance(a.func, ast.Attribute) and a.func.attr in ("tobytes", "tostring", "format", "join")) or
                    (isinstance(a.func, ast.Name) and a.func.id in ("str", "repr", "bytes"))))
        return False

    def call_sites(self, f):
        for g in self.fns.values():
            for n in walk_own(g.fdef):
                if isinstance(n, ast.Call) and self.callee(g, n) is f:
                    yield g, n

    def rng_call(self, f, n, d, rep):
        m = f.mod
        if d in self.SEEDED:
            self.checked["rng"] += 1
            seed = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg in ("seed", "entropy")), None)
            if d == "numpy.random.Generator":
                return
            if self.unseeded(f, seed):
                rep(m, n, f.name, f"{d} without a fixed seed: results differ from run to run")
        elif d.startswith("numpy.random.") and d.count(".") == 2:
            self.checked["rng"] += 1
            if d == "numpy.random.seed":
                rep(m, n, f.name, "numpy.random.seed changes the global random state of the process")
            else:
                rep(m, n, f.name, f"{d} draws from (or changes) the global random state")
        elif d.startswith("random.") and m.imports.get("random", ("",))[0] == "mod":
            rep(m, n, f.name, f"{d} uses the global random state")
        elif d in ("os.urandom", "uuid.uuid4", "uuid.uuid1", "secrets.token_bytes", "secrets.randbelow"):
            rep(m, n, f.name, f"{d}: nondeterministic value")
        elif d == "scipy.stats.unitary_group.rvs" or d == "scipy.stats.ortho_group.rvs" or d.startswith("scipy.stats.") and d.endswith(".rvs"):
            seed = next((k.value for k in n.keywords if k.arg == "random_state"), None)
            if self.unseeded(f, seed):
                rep(m, n, f.name, f"{d} without random_state draws from the global random state")
        elif d in ("time.time", "time.time_ns", "time.perf_counter", "os.getenv", "os.environ.get") :
            # only harmful where it reaches a result; reported when assigned and used in arithmetic or a test
            pass
        if d in ("numpy.seterr", "numpy.set_printoptions", "warnings.simplefilter", "warnings.filterwarnings"):
            inside = any(isinstance(w, ast.With) and any(n is x for x in ast.walk(w)) and
                         any("catch_warnings" in ast.unparse(i.context_expr) or "errstate" in ast.unparse(i.context_expr) for i in w.items)
                         for w in ast.walk(f.fdef))
            if not inside:
                rep(m, n, f.name, f"{d} changes process-wide settings that outlive the call")


if __name__ == "__main__":
    import sys
    from .lift import Program
    E = Effects(Program(sys.argv[1]))
    for r in E.input_mutation():
        print("MUT", r)
    for r in E.hidden_state():
        print("STATE", r)
    print(E.checked)
    for f in E.fns.values():
        if f.mut or f.viewof:
            print(f.name, f.mut, f.viewof)
