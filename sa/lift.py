"""Lifting of Python functions to value terms (no execution, no path enumeration).

Every construct is translated to the term it denotes; what is not understood becomes an
uninterpreted (``hcall``) or opaque term, never a guess.
"""
from __future__ import annotations

import ast
import copy
import os
import re

from . import terms as T
from .terms import FALSE, NONE, ONE, TRUE, ZERO, atom, mk
from .values import *  # noqa: F401,F403
from . import npmodel


# --------------------------------------------------------------------------------------
# program
class Module:
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, encoding="utf-8") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.funcs: dict[str, ast.FunctionDef] = {}
        self.imports: dict[str, tuple] = {}
        self.globals: dict[str, ast.expr] = {}
        self.scan(self.tree.body)
        # functions defined inside others, by name (a lambda bound to a name counts)
        self.nested: dict[str, list] = {}
        for s in ast.walk(self.tree):
            if isinstance(s, ast.FunctionDef) and self.funcs.get(s.name) is not s:
                self.nested.setdefault(s.name, []).append(s)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                t = s.targets[0].id
                if isinstance(s.value, ast.Lambda):
                    self.nested.setdefault(t, []).append(s.value)
                elif isinstance(s.value, ast.Call) and isinstance(s.value.func, (ast.Name, ast.Attribute)) and (
                    getattr(s.value.func, "id", "") == "partial" or getattr(s.value.func, "attr", "") == "partial"
                ):
                    self.nested.setdefault(t, []).append(s.value)

    def scan(self, body):
        for s in body:
            if isinstance(s, ast.FunctionDef):
                self.funcs[s.name] = s
            elif isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = ("mod", a.name if a.asname else a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = ("from", s.module or "", a.name, s.level)
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                self.globals[s.targets[0].id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.globals[s.target.id] = s.value
            elif isinstance(s, (ast.If, ast.Try)):
                self.scan(s.body)


class Program:
    """All modules of one package directory."""

    def __init__(self, pkgdir, pkg="spgrep"):
        self.pkg = pkg
        self.dir = pkgdir
        self.mods: dict[str, Module] = {}
        for root, _, files in sorted(os.walk(pkgdir)):
            for f in sorted(files):
                if f.endswith(".py"):
                    rel = os.path.relpath(os.path.join(root, f), pkgdir)[:-3].replace(os.sep, ".")
                    if rel.endswith("__init__"):
                        rel = rel[: -len("__init__")].rstrip(".")
                    self.mods[rel] = Module(rel, os.path.join(root, f))

    def find(self, fname):
        """-> (module, FunctionDef) of a public function, wherever it is defined."""
        for m in self.mods.values():
            if fname in m.funcs:
                return m, m.funcs[fname]
        return None, None


# --------------------------------------------------------------------------------------
# signatures
_TOK = re.compile(r"\s*([A-Za-z_][\w]*|\d+|[\[\](),?$:.*])")


def parse_type(s: str):
    toks = _TOK.findall(s)
    pos = 0

    def peek():
        return toks[pos] if pos < len(toks) else None

    def take(x=None):
        nonlocal pos
        t = toks[pos]
        assert x is None or t == x, (s, t, x)
        pos += 1
        return t

    def ty():
        nonlocal pos
        if peek() == "(":
            take()
            items = []
            while peek() != ")":
                items.append(ty())
                if peek() == ",":
                    take()
            take(")")
            r = ("tup", items)
        else:
            name = take()
            if name == "list":
                take("[")
                e = ty()
                take("]")
                r = ("list", e)
            elif peek() == "[":
                take("[")
                dims = []
                while peek() != "]":
                    if peek() == "$":
                        take()
                        dims.append("$" + take())
                    else:
                        dims.append(take())
                    if peek() == ",":
                        take()
                take("]")
                r = ("nd", name, dims)
            else:
                r = ("scalar", name)
        while peek() == "?":
            take()
            r = ("opt", r)
        return r

    return ty()


class Sig:
    def __init__(self, params: str, ret: str, transparent=False, mutates=(), strict=False, **kw):
        self.params = []
        depth = 0
        cur = ""
        parts = []
        for ch in params:
            if ch in "[(":
                depth += 1
            if ch in "])":
                depth -= 1
            if ch == "," and depth == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += ch
        if cur.strip():
            parts.append(cur)
        for p in parts:
            n, t = p.split(":", 1)
            self.params.append((n.strip(), parse_type(t)))
        self.ret = parse_type(ret)
        self.transparent = transparent
        self.ret_sort = "complex"
        r = self.ret[1] if self.ret[0] == "list" else self.ret
        if r[0] == "nd" or (r[0] == "scalar" and self.ret[0] == "list"):
            self.ret_sort = {"nat": "int"}.get(r[1], r[1])
        self.mutates = tuple(mutates)
        self.opts = kw

    def names(self):
        return [n for n, _ in self.params]


OPTIONS = {"method": ("Neto", "random", "?"), "ord": ("min", "projection", "?")}


def modes_of(sig: Sig, cap=24, strings=()):
    """Configurations of the options of a function."""
    axes = []
    for n, ty in sig.params:
        if ty[0] == "opt":
            axes.append((n, ("none", "given")))
        elif ty == ("scalar", "bool"):
            axes.append((n, (True, False)))
        elif ty == ("scalar", "str") and n in OPTIONS:
            axes.append((n, OPTIONS[n] + tuple(x for x in strings if x not in OPTIONS[n])))
    axes.sort(key=lambda a: -len(a[1]))
    keep, size = [], 1
    for a in axes:
        if size * len(a[1]) <= cap:
            keep.append(a)
            size *= len(a[1])
    out = [{}]
    for n, vals in keep:
        out = [{**m, n: v} for m in out for v in vals]
    return out if keep else []


def dim_term(d, env):
    if d.isdigit():
        return T.const(int(d))
    if d in env:
        return env[d]
    t = atom(mk("sym", d, "int", "nn"))
    env[d] = t
    return t


def make_param(name, ty, dims) -> V:
    if ty[0] == "opt":
        return IteV(T.cond_atom(mk("isnone", name)), VNONE, make_param(name, ty[1], dims))
    if ty[0] == "scalar":
        k = ty[1]
        if k == "str":
            return Sc(mk("strsym", name))
        if k == "bool":
            return Sc(T.cond_atom(mk("sym", name, "bool")))
        if k in ("int", "real", "complex", "bit"):
            return Sc(atom(mk("sym", name, k)))
        if k == "nat":
            return Sc(atom(mk("sym", name, "int", "nn")))
        return Obj(mk("arr", name, "obj", ()), k)
    if ty[0] == "nd":
        if ty[2] == ["*"]:
            return Obj(mk("arr", name, ty[1], ()), ("arr", ty[1]))
        ds = [dim_term(d, dims) for d in ty[2]]
        t = mk("arr", name, ty[1], tuple(ds))
        if ty[1] == "bool":
            return Arr(ds, lambda idx: as_bool_el(T.el(t, idx)))
        return Arr(ds, lambda idx: T.el(t, idx), True, term=t)
    if ty[0] == "list":
        t = mk("arr", name, "obj", ())
        e = ty[1]
        if e[0] == "scalar":
            t = mk("arr", name, e[1], ())
            return Arr([T.lenof(t)], lambda idx: T.el(t, idx), False, term=t)
        return Seq(T.lenof(t), lambda i: reflect_ty(e, T.item(t, i, ty_sort(e)), dims), term=t)
    if ty[0] == "tup":
        return Tup([make_param(f"{name}.{k}", e, dims) for k, e in enumerate(ty[1])])
    raise AssertionError(ty)


def ty_sort(ty):
    if ty[0] in ("nd", "scalar"):
        return ty[1]
    return "obj"


def reflect_ty(ty, t, dims, call=None) -> V:
    """Value of declared type denoted by term t."""
    if t.op == "opaque":
        return Obj(t)
    if t.op == "ite":
        return merge(T.cond_atom(t.args[0]), reflect_ty(ty, t.args[1], dims, call), reflect_ty(ty, t.args[2], dims, call))
    if ty[0] == "opt":
        return IteV(T.cond_atom(mk("isnone", t)), VNONE, reflect_ty(ty[1], t, dims, call))
    if ty[0] == "scalar":
        k = ty[1]
        if t.op in ("poly", "ite", "true", "false", "none", "str", "strsym"):
            return Sc(t)
        if k == "bool":
            return Sc(T.cond_atom(t))
        if k == "str":
            return Sc(mk("strsym", t))
        if k in ("int", "real", "complex", "bit", "nat"):
            return Sc(atom(t))
        return Obj(t, k)
    if ty[0] == "nd":
        if ty[2] == ["*"]:
            return Obj(t, ("arr", ty[1]))
        ds = []
        for k, d in enumerate(ty[2]):
            if d.startswith("$"):
                ds.append(T.dim(t, k))
            elif d.isdigit():
                ds.append(T.const(int(d)))
            elif d in dims:
                ds.append(dims[d])
            else:
                dims[d] = T.dim(t, k)
                ds.append(dims[d])
        if ty[1] == "bool":
            return Arr(ds, lambda idx: as_bool_el(T.el(t, idx)))
        return Arr(ds, lambda idx: T.el(t, idx), True, term=t)
    if ty[0] == "list":
        e = ty[1]
        if e[0] == "scalar":
            return Arr([T.lenof(t)], lambda idx: T.el(t, idx), False, term=t)
        return Seq(T.lenof(t), lambda i: reflect_ty(e, T.item(t, i, ty_sort(e)), dict(dims)), term=t)
    if ty[0] == "tup":
        return Tup([reflect_ty(e, T.aproj(t, k, ty_sort(e)), dims, t) for k, e in enumerate(ty[1])])
    raise AssertionError(ty)


def bind_dims(ty, v, dims):
    """Learn dimension names of a declared type from an actual value."""
    if isinstance(v, IteV):
        # prefer the non-None side
        for s in (v.a, v.b):
            if not (isinstance(s, Sc) and s.t is NONE):
                bind_dims(ty, s, dims)
        return
    if ty[0] == "opt":
        bind_dims(ty[1], v, dims)
    elif ty[0] == "nd" and ty[2] != ["*"]:
        vd = npmodel.dims_of(v)
        if vd is not None and len(vd) == len(ty[2]):
            for d, x in zip(ty[2], vd):
                if not d.isdigit() and not d.startswith("$") and d not in dims:
                    dims[d] = x


# --------------------------------------------------------------------------------------
class Event:
    __slots__ = ("kind", "typ", "cond", "line", "implicit")

    def __init__(self, kind, typ, cond, line, implicit=False):
        self.kind, self.typ, self.cond, self.line, self.implicit = kind, typ, cond, line, implicit


class Frame:
    def __init__(self, lifter, mod, fn_name, depth, parent=None):
        self.lifter = lifter
        self.mod = mod
        self.name = fn_name
        self.depth = depth
        self.parent = parent
        self.rets = []  # (pc, V, env)
        self.trys = []  # active try collectors
        self.changed = ()  # names whose object the body changes in place


class Env(dict):
    """Variable bindings; '#alias' groups and '#elem' links ride along."""

    def fork(self):
        e = Env(self)
        e.alias = dict(self.alias)
        e.elem = dict(self.elem)
        e.dt = dict(self.dt)
        e.unb = dict(self.unb)
        return e

    def __init__(self, *a):
        super().__init__(*a)
        self.alias: dict = {}
        self.elem: dict = {}
        self.dt: dict = {}  # element type of arrays allocated here
        self.unb: dict = {}  # condition under which a variable was not assigned


class TooDeep(Exception):
    pass


class NotLifted(Exception):
    pass


MUT_METHODS = {"append", "extend", "insert", "pop", "clear", "remove", "sort", "reverse", "update", "setdefault", "add", "discard", "fill", "popitem"}


def base_name(node):
    """Root variable of a subscript/attribute chain."""
    while isinstance(node, (ast.Subscript, ast.Attribute, ast.Starred)):
        node = node.value
    return node.id if isinstance(node, ast.Name) else None


class Lifter:
    MAXDEPTH = 12

    def __init__(self, prog: Program, sigs: dict, inline: set | None = None, ext=None):
        self.prog = prog
        self.sigs = sigs
        self.inline_anchors = inline or set()
        self.ext = ext or {}
        self.mut_memo: dict = {}
        self.used_calls: set = set()
        self.visited: set = set()
        self.notes: list = []
        self.while_for: dict = {}

    # ---------------------------------------------------------------- mutation summaries
    def mutated_params(self, mod, fdef):
        key = (mod.name, fdef.name, fdef.lineno)
        if key in self.mut_memo:
            return self.mut_memo[key]
        self.mut_memo[key] = set()
        params = [a.arg for a in fdef.args.posonlyargs + fdef.args.args + fdef.args.kwonlyargs]
        muts = self.mutated_names(fdef.body, mod)
        out = {k for k, p in enumerate(params) if p in muts}
        self.mut_memo[key] = out
        return out

    def mutated_names(self, body, mod):
        """Names whose object may be mutated in place by the statements (syntactic, transitive)."""
        out = set()
        aliases: dict = {}

        def note(n):
            todo = [n]
            while todo:
                n = todo.pop()
                if n and n not in out:
                    out.add(n)
                    todo += aliases.get(n, ())

        stmts = [n for s in body for n in ast.walk(s)]
        def part(t, v):
            if isinstance(t, ast.Name):
                for x in view_sources(v):
                    aliases.setdefault(t.id, set()).add(x)
            elif isinstance(t, (ast.Tuple, ast.List)):
                es = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) else [v] * len(t.elts)
                for a, b in zip(t.elts, es):
                    part(a.value if isinstance(a, ast.Starred) else a, b)

        for n in stmts:
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    part(t, n.value)
            elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                part(n.target, n.value)
            elif isinstance(n, ast.For):
                for tgt, src in elem_sources(n.target, n.iter):
                    aliases.setdefault(tgt, set()).update([src] if isinstance(src, str) else names_in(src))
        for n in stmts:
            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                for t in tg:
                    for q in ast.walk(t):
                        if isinstance(q, ast.Subscript) and isinstance(q.ctx, ast.Store):
                            note(base_name(q))
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    note(n.target.id)
                else:
                    note(base_name(n.target))
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    note(base_name(t))
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUT_METHODS:
                    note(base_name(n.func.value))
                if isinstance(n.func, ast.Name) and n.func.id == "next" and n.args:
                    note(base_name(n.args[0]))
                for kw in n.keywords:
                    if kw.arg == "out":
                        note(base_name(kw.value))
                if isinstance(n.func, ast.Name) and mod is not None:
                    for d in mod.nested.get(n.func.id, ()):
                        args, captured = self.nested_effects(d, mod)
                        for q in captured:
                            note(q)
                        if args:
                            for q in list(n.args) + [kw.value for kw in n.keywords]:
                                note(base_name(q))
                    tgt = self.resolve_def(mod, n.func.id)
                    if tgt is not None:
                        for k in self.mutated_params(*tgt):
                            if k < len(n.args):
                                note(base_name(n.args[k]))
                            else:
                                ps = [a.arg for a in tgt[1].args.args + tgt[1].args.kwonlyargs]
                                for kw in n.keywords:
                                    if k < len(ps) and kw.arg == ps[k]:
                                        note(base_name(kw.value))
                elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
                    if n.func.value.id == "np" and n.func.attr in ("copyto", "put", "place", "fill_diagonal", "putmask"):
                        if n.args:
                            note(base_name(n.args[0]))
                    if n.func.attr in ("random", "standard_normal", "normal", "uniform", "integers", "shuffle"):
                        note(n.func.value.id)
        return out

    def changed_names(self, fdef, body, mod):
        key = ("changed", fdef)
        if key not in self.mut_memo:
            self.mut_memo[key] = self.mutated_names(body, mod) if mod is not None else set()
        return self.mut_memo[key]

    def nested_effects(self, d, mod):
        """(may it mutate arguments, names of the enclosing function it may mutate or rebind)"""
        key = (mod.name, id(d))
        if key in self.mut_memo:
            return self.mut_memo[key]
        self.mut_memo[key] = (False, set())
        if isinstance(d, ast.Call):
            f = d.args[0] if d.args else None
            tgt = self.resolve_def(mod, f.id) if isinstance(f, ast.Name) else None
            r = (bool(self.mutated_params(*tgt)) if tgt else not isinstance(f, ast.Attribute), set())
        else:
            params = {a.arg for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs}
            if isinstance(d, ast.Lambda):
                muts, local = self.mutated_names([ast.Expr(d.body)], mod), set()
            else:
                muts, local = self.mutated_names(d.body, mod), set()
                outer = {q for n in own_nodes(d.body) if isinstance(n, (ast.Nonlocal, ast.Global)) for q in n.names}
                local = {n.id for n in own_nodes(d.body) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - outer
                muts = muts | outer
            r = (bool(muts & params), muts - params - local)
        self.mut_memo[key] = r
        return r

    def resolve_def(self, mod, name):
        """(module, FunctionDef) a name refers to at module level, following package imports."""
        if name in mod.funcs:
            return mod, mod.funcs[name]
        imp = mod.imports.get(name)
        if imp and imp[0] == "from":
            m = self.pkg_module(mod, imp)
            if m is not None and m is not mod:
                return self.resolve_def(m, imp[2])
        return None

    def pkg_module(self, mod, imp):
        modname, level = imp[1], imp[3]
        pkg = self.prog.pkg
        if level:
            base = mod.name.split(".")[:-level] if mod.name else []
            full = ".".join([x for x in base + ([modname] if modname else []) if x])
        elif modname == pkg:
            full = ""
        elif modname.startswith(pkg + "."):
            full = modname[len(pkg) + 1 :]
        else:
            return None
        m = self.prog.mods.get(full)
        if m is None or (imp[2] not in m.funcs and imp[2] not in m.globals and imp[2] not in m.imports):
            sub = self.prog.mods.get((full + "." + imp[2]).strip("."))
            return m if m is not None else sub
        return m

    # ---------------------------------------------------------------- entry
    def lift(self, mod: Module, fdef: ast.FunctionDef, sig: Sig | None, mode: dict | None = None):
        """-> (value, events, env of parameters); mode fixes options (None / given, flags, method names)"""
        mode = mode or {}

        def param(name, ty):
            if name in mode:
                m = mode[name]
                if ty[0] == "opt":
                    return VNONE if m == "none" else make_param(name, ty[1], dims)
                if ty[1] == "bool":
                    return Sc(TRUE if m else FALSE)
                return sstr(m)
            return make_param(name, ty, dims)

        dims: dict = {}
        env = Env()
        params = [a.arg for a in fdef.args.posonlyargs + fdef.args.args]
        kwonly = [a.arg for a in fdef.args.kwonlyargs]
        defaults = fdef.args.defaults
        dmap = dict(zip(params[len(params) - len(defaults) :], defaults))
        for a, d in zip(kwonly, fdef.args.kw_defaults):
            if d is not None:
                dmap[a] = d
        sigp = dict(sig.params) if sig else {}
        events: list = []
        fr = Frame(self, mod, fdef.name, 0)
        fr.events = events
        pos_types = list(sigp.items())
        private = fdef.name.startswith("_")
        for k, p in enumerate(params + kwonly):
            if p in sigp:
                v = param(p, sigp[p])
            elif private and k < len(pos_types) and pos_types[k][0] not in params:
                v = param(pos_types[k][0], pos_types[k][1])
            elif p in dmap:
                v = self.eval(dmap[p], Env(), fr)
            else:
                v = Obj(mk("arr", p, "obj", ()))
            env[p] = v
            env.alias[p] = "P:" + p
            env["#param:" + p] = v
            env.alias["#param:" + p] = "P:" + p
        v = self.run_body(fdef, env, fr)
        return v, events, fr

    def run_body(self, fdef, env, fr):
        body = generator_body(fdef)
        fr.changed = self.changed_names(fdef, body or [], fr.mod)
        if body is None:
            fr.final_env = env
            return ob("generator")
        env, pc = self.exec_block(body, env, TRUE, fr)
        if pc is not FALSE:
            fr.rets.append((pc, VNONE, env))
        if not fr.rets:
            fr.final_env = env
            return Obj(mk("noreturn"))
        v = fr.rets[-1][1]
        e = fr.rets[-1][2]
        cap = getattr(fr, "captured", ())
        fe = {k: e.get(k) for k in e if k.startswith("#param:") or k in cap}
        for c, x, ev in reversed(fr.rets[:-1]):
            v = merge(c, x, v)
            for k in list(fe):
                fe[k] = merge(c, ev.get(k), fe[k])
        fr.final_env = fe
        return v

    # ---------------------------------------------------------------- statements
    def exec_block(self, stmts, env, pc, fr):
        for s in stmts:
            if pc is FALSE:
                break
            env, pc = self.exec_stmt(s, env, pc, fr)
        return env, pc

    def merge_env(self, c, a, b):
        out = Env()
        for k in list(a) + [k for k in b if k not in a]:
            va, vb = a.get(k), b.get(k)
            if va is vb:
                out[k] = va
            else:
                out[k] = merge(c, va, vb)
            if va is None or vb is None or k in a.unb or k in b.unb:
                ua, ub = (TRUE if x is None else e.unb.get(k, FALSE) for x, e in ((va, a), (vb, b)))
                u = T.ite(c, ua, ub) if c.op == "ite" else FALSE
                if u is not FALSE and not k.startswith("#"):
                    out.unb[k] = u
        out.alias = {k: g for k, g in a.alias.items() if b.alias.get(k, g) == g}
        out.dt = {k: d for k, d in a.dt.items() if b.dt.get(k, None if k in b else d) == d}
        out.dt.update((k, d) for k, d in b.dt.items() if k not in a)
        for k in list(a.elem) + [k for k in b.elem if k not in a.elem]:
            ga, gb = a.elem.get(k), b.elem.get(k)
            if ga == gb:
                out.elem[k] = ga
            else:
                # a part of something on one path only: what a change reaches is not followed
                out.elem[k] = tuple((x, None) for x in dict.fromkeys([x for x, _ in (ga or ()) + (gb or ())]))
        return out

    def exec_stmt(self, s, env, pc, fr):
        self.visited.add((fr.mod.name, fr.name, s.lineno))
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise NotLifted("statement " + type(s).__name__)
        fr.pc = pc
        return m(s, env, pc, fr)

    def note(self, fr, node, what):
        self.notes.append((fr.mod.name, fr.name, getattr(node, "lineno", 0), what))

    def st_Pass(self, s, env, pc, fr):
        return env, pc

    st_Import = st_Global = st_Nonlocal = st_Assert = st_Pass

    def st_Delete(self, s, env, pc, fr):
        for t in s.targets:
            b = base_name(t)
            if not isinstance(t, ast.Name) and b in env:
                self.mutate(b, ob("del"), env)
        return env, pc

    def st_ImportFrom(self, s, env, pc, fr):
        for a in s.names:
            imp = ("from", s.module or "", a.name, s.level)
            env[a.asname or a.name] = self.import_value(fr.mod, imp, fr)
        return env, pc

    def st_FunctionDef(self, s, env, pc, fr):
        env[s.name] = Fn(s, fr.mod, env, fr, s.name)
        return env, pc

    def st_Expr(self, s, env, pc, fr):
        if isinstance(s.value, ast.Constant):
            return env, pc
        return self.with_pc(lambda: self.eval(s.value, env, fr), env, pc, fr)[1:]

    def with_pc(self, f, env, pc, fr):
        """Evaluate f under path condition pc; implicit exceptions raised meanwhile reduce pc."""
        fr.pc = pc
        v = f()
        return v, env, fr.pc

    def st_Assign(self, s, env, pc, fr):
        v, env, pc = self.with_pc(lambda: self.eval(s.value, env, fr), env, pc, fr)
        for t in s.targets:
            self.assign(t, v, env, fr, s.value)
        return env, pc

    def st_AnnAssign(self, s, env, pc, fr):
        if s.value is None:
            return env, pc
        v, env, pc = self.with_pc(lambda: self.eval(s.value, env, fr), env, pc, fr)
        self.assign(s.target, v, env, fr, s.value)
        return env, pc

    def bind(self, name, v, env, alias_of=None):
        env[name] = v
        env.unb.pop(name, None)
        if isinstance(v, Arr) and v.dt is not None:
            env.dt[name] = v.dt
        elif env.dt:
            env.dt.pop(name, None)
            if alias_of in env.dt:
                env.dt[name] = env.dt[alias_of]
        if env.elem:
            env.elem.pop(name, None)
            for k, g in list(env.elem.items()):
                if any(x == name for x, _ in g):
                    env.elem[k] = tuple(y for y in g if y[0] != name)
        if alias_of is not None and alias_of in env:
            g = env.alias.setdefault(alias_of, "V:%d" % next(T._UID))
            env.alias[name] = g
            if alias_of in env.elem:
                env.elem[name] = env.elem[alias_of]
        else:
            env.alias.pop(name, None)

    def mutate(self, name, v, env):
        """In-place change of the object bound to name."""
        g = env.alias.get(name)
        if g is not None:
            for k, gg in list(env.alias.items()):
                if gg == g:
                    env[k] = v
        env[name] = v
        self.refresh(name, env)
        links = env.elem.get(name)
        if links:
            keep = dict(env.elem)
            for cname, idxs in links:
                if cname in env and cname != name:
                    x = None
                    if idxs is not None and len(links) == 1:
                        x = self.store_path(env[cname], idxs, v)
                    env.elem.pop(name, None)
                    self.mutate(cname, ob("part changed in place") if x is None else x, env)
                    env.elem = dict(keep)

    def refresh(self, name, env):
        """Views of an array that was changed."""
        if not env.elem or not isinstance(env[name], Arr):
            return
        for k, g in list(env.elem.items()):
            if k in env and any(x == name for x, _ in g) and isinstance(env[k], Arr):
                if len(g) == 1 and g[0][1] is not None:
                    x = env[name]
                    for i in g[0][1]:
                        x = npmodel.getitem(x, i, self)
                else:
                    x = ob("view of a changed array")
                env[k] = x
                keep = env.elem.pop(k)
                self.refresh(k, env)
                env.elem[k] = keep

    def view_links(self, src, v, env, fr):
        """(variable, index path or None) the object of an expression is a part of."""
        if isinstance(src, ast.NamedExpr):
            return ((src.target.id, None),)
        if isinstance(src, ast.IfExp):
            return tuple((x, None) for e in (src.body, src.orelse) for x, _ in self.view_links(e, v, env, fr) or ([(e.id, None)] if isinstance(e, ast.Name) else []))
        if isinstance(src, ast.BoolOp):
            return tuple((x, None) for e in src.values for x, _ in self.view_links(e, v, env, fr) or ([(e.id, None)] if isinstance(e, ast.Name) else []))
        if isinstance(src, ast.Subscript):
            path, node = [], src
            while isinstance(node, ast.Subscript):
                path.append(node.slice)
                node = node.value
            if not isinstance(node, ast.Name):
                return tuple((x, None) for x, _ in self.view_links(node, v, env, fr))
            if node.id not in env:
                return ()
            cur = env[node.id]
            if isinstance(cur, IteV):
                return ((node.id, None),)
            keep = fr.pc, len(fr.events)
            idxs = [self.eval_index(q, env, fr) for q in reversed(path)]
            fr.pc = keep[0]
            del fr.events[keep[1]:]
            for i in idxs:
                for x in i:
                    if isinstance(x, (Arr, Tup, Seq)) or (isinstance(x, Sc) and T.is_bool(x.t)):
                        return ()  # a copy
                    if isinstance(x, tuple) and not isinstance(cur, Arr):
                        return ((node.id, None),) if len(idxs) > 1 else ()
                    if not isinstance(x, (Sc, tuple, BI)):
                        return ((node.id, None),)
            return ((node.id, idxs),)
        if isinstance(src, ast.Attribute) and src.attr in VIEW_ATTRS:
            return tuple((x, None) for x, _ in self.view_links(src.value, v, env, fr)) or ((src.value.id, None),) if isinstance(src.value, (ast.Name, ast.Subscript)) else ()
        if isinstance(src, ast.Call):
            f = src.func
            nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            if nm in VIEW_CALLS:
                out = []
                ops = list(src.args)
                if isinstance(f, ast.Attribute):
                    ops.append(f.value)
                for e in ops:
                    if isinstance(e, ast.Starred):
                        e = e.value
                    b = base_name(e)
                    if isinstance(e, ast.Call):
                        out += [(x, None) for x, _ in self.view_links(e, v, env, fr)]
                    elif b in env and not isinstance(env[b], (Sc, BI, Fn)):
                        out.append((b, None))
                return tuple(dict.fromkeys(out))
        return ()

    def link(self, name, links, env):
        links = tuple((x, i) for x, i in links if x != name)
        if links and not isinstance(env[name], Sc):
            env.elem[name] = links

    def assign(self, t, v, env, fr, src=None):
        if isinstance(t, ast.Name):
            alias = src.id if isinstance(src, ast.Name) else None
            links = self.view_links(src, v, env, fr) if t.id in fr.changed and src is not None and not isinstance(v, Sc) else ()
            self.bind(t.id, v, env, alias)
            self.link(t.id, links, env)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t.elts, v, env, fr, src)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v, env, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, env, fr)
        else:
            self.note(fr, t, "assign target")
            b = base_name(t)
            if b:
                env[b] = ob("attribute store")

    def unpack(self, elts, v, env, fr, src=None):
        if any(isinstance(e, ast.Starred) for e in elts):
            k = next(k for k, e in enumerate(elts) if isinstance(e, ast.Starred))
            m = len(elts) - 1 - k
            if isinstance(v, Tup) and len(v.items) >= len(elts) - 1 and sum(isinstance(e, ast.Starred) for e in elts) == 1:
                parts = v.items[:k] + [Tup(v.items[k : len(v.items) - m], True)] + v.items[len(v.items) - m :]
            else:
                parts = [npmodel.getitem(v, [sc_int(j)], self) for j in range(k)]
                parts.append(npmodel.getitem(v, [("slice", sc_int(k), sc_int(-m) if m else None, None)], self))
                parts += [npmodel.getitem(v, [sc_int(j - m)], self) for j in range(m)]
            for e, x in zip(elts, parts):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, env, fr)
            return
        if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(elts):
            srcs = src.elts
        elif isinstance(src, (ast.Name, ast.Subscript)):
            L = ast.Load()
            srcs = [ast.Subscript(src, ast.Constant(k), L) for k in range(len(elts))]
        else:
            srcs = [src] * len(elts)
        for k, e in enumerate(elts):
            self.assign(e, npmodel.component(v, k, len(elts)), env, fr, srcs[k])

    def store_sub(self, t, v, env, fr):
        # chain of subscripts on a name
        path = []
        node = t
        while isinstance(node, ast.Subscript):
            path.append(node.slice)
            node = node.value
        path.reverse()
        if not isinstance(node, ast.Name) or node.id not in env:
            self.note(fr, t, "store target")
            b = base_name(t)
            if b:
                env[b] = ob("store target")
            return
        cur = env[node.id]
        idxs = [self.eval_index(p, env, fr) for p in path]
        name = node.id
        while len(env.elem.get(name, ())) == 1 and name not in env.alias:
            base, pre = env.elem[name][0]
            if pre is None or not isinstance(env.get(base), Arr) or not all(isinstance(x, Sc) for i in pre for x in i):
                break
            name, idxs = base, list(pre) + idxs
        new = self.store_path(env[name], idxs, npmodel.cast_store(v, env.dt.get(name)))
        self.mutate(name, new, env)

    def store_path(self, cur, idxs, v):
        if len(idxs) == 1:
            return npmodel.store(cur, idxs[0], v, self)
        flat = [x for i in idxs for x in i]
        if isinstance(cur, Arr) and all(isinstance(x, Sc) for x in flat[:-1]) and len(flat) <= cur.rank and (not cur.nd or all(isinstance(x, Sc) for x in flat)):
            return npmodel.store(cur, flat, v, self)
        inner = npmodel.getitem(cur, idxs[0], self)
        return npmodel.store(cur, idxs[0], self.store_path(inner, idxs[1:], v), self)

    def st_AugAssign(self, s, env, pc, fr):
        load = ast.copy_location(_as_load(s.target), s.target)
        def f():
            cur = self.eval(load, env, fr)
            rhs = self.eval(s.value, env, fr)
            return cur, npmodel.binop(type(s.op).__name__, cur, rhs, self)
        (cur, v), env, pc = self.with_pc(f, env, pc, fr)
        if isinstance(s.target, ast.Name):
            if isinstance(cur, (Sc, IteV)) :
                self.bind(s.target.id, v, env)
            else:
                self.mutate(s.target.id, npmodel.cast_store(v, env.dt.get(s.target.id)), env)
        else:
            self.assign(s.target, v, env, fr)
        return env, pc

    def cond(self, node, env, fr):
        v = self.eval(node, env, fr)
        return npmodel.truth_v(v)

    def st_If(self, s, env, pc, fr):
        c, env, pc = self.with_pc(lambda: self.cond(s.test, env, fr), env, pc, fr)
        c = self.boolify(c)
        c_pc = restrict_bdd(c, pc, True) if pc.op == "ite" else c
        if c_pc is TRUE:
            return self.exec_block(s.body, env, pc, fr)
        if c_pc is FALSE:
            return self.exec_block(s.orelse, env, pc, fr)
        e1, e2 = env.fork(), env.fork()
        lt, lf = literals(c, True), literals(c, False)
        for k in e1:
            if not k.startswith("#"):
                e1[k] = restrict_v(e1[k], lt)
                e2[k] = restrict_v(e2[k], lf)
        e1, p1 = self.exec_block(s.body, e1, T.and_(pc, c), fr)
        e2, p2 = self.exec_block(s.orelse, e2, T.and_(pc, T.not_(c)), fr)
        if p1 is FALSE:
            return e2, p2
        if p2 is FALSE:
            return e1, p1
        # values restricted by the branch but otherwise untouched are restored
        for k in list(e1):
            if k in env and k in e2 and not k.startswith("#"):
                if e1[k] is restrict_keep(env[k], lt, e1[k]) and e2[k] is restrict_keep(env[k], lf, e2[k]):
                    pass
        return self.merge_env(c, e1, e2), T.or_(p1, p2)

    def boolify(self, c):
        if c.op == "opaque":
            return T.cond_atom(c)
        if not T.is_bool(c):
            return T.truth(c) if T.truth(c).op != "opaque" else T.cond_atom(T.truth(c))
        return c

    def st_Return(self, s, env, pc, fr):
        if s.value is None:
            v = VNONE
        else:
            v, env, pc = self.with_pc(lambda: self.eval(s.value, env, fr), env, pc, fr)
        if pc is not FALSE:
            fr.rets.append((pc, v, env))
        return env, FALSE

    def st_Raise(self, s, env, pc, fr):
        typ = "?"
        e = s.exc
        if isinstance(e, ast.Call):
            e = e.func
        if isinstance(e, ast.Name):
            typ = e.id
        elif isinstance(e, ast.Attribute):
            typ = e.attr
        fr.pc = pc
        self.raise_event(fr, typ, TRUE, s, env, False)
        return env, FALSE

    def raise_event(self, fr, typ, cond, node, env, implicit):
        """Record that typ is raised when cond holds at the current point."""
        c = T.and_(fr.pc, cond)
        if c is FALSE:
            return
        for col in reversed(fr.trys):
            if typ in col["types"] or "*" in col["types"]:
                col["hits"].append((c, env.fork()))
                fr.pc = T.and_(fr.pc, T.not_(cond))
                return
        fr.events.append(Event("raise", typ, c, getattr(node, "lineno", 0), implicit))
        if not implicit:
            fr.pc = T.and_(fr.pc, T.not_(cond))

    def st_Try(self, s, env, pc, fr):
        if s.finalbody:
            if any(isinstance(n, (ast.Return, ast.Break, ast.Continue)) for x in s.body + s.orelse + s.finalbody + [y for h in s.handlers for y in h.body] for n in ast.walk(x)):
                raise NotLifted("try with a final clause left early")
            inner = s.body
            if s.handlers:
                inner = [ast.copy_location(ast.Try(s.body, s.handlers, s.orelse, []), s)]
            env, pc = self.exec_block(inner, env, pc, fr)
            return self.exec_block(s.finalbody, env, pc, fr)
        if len(s.handlers) > 1:
            if s.orelse or any(isinstance(n, ast.Raise) for h in s.handlers[:-1] for x in h.body for n in ast.walk(x)):
                raise NotLifted("try with several handlers")
            body = s.body
            for h in s.handlers:
                body = [ast.copy_location(ast.Try(body, [h], [], []), s)]
            return self.exec_block(body, env, pc, fr)
        types = set()
        for h in s.handlers:
            if h.type is None:
                types.add("*")
            elif isinstance(h.type, ast.Tuple):
                types |= {base_tail(x) for x in h.type.elts}
            else:
                types.add(base_tail(h.type))
        if "Exception" in types or "BaseException" in types:
            types.add("*")
        if "LookupError" in types:
            types |= {"KeyError", "IndexError"}
        col = {"types": types, "hits": []}
        fr.trys.append(col)
        env2, pc2 = self.exec_block(s.body, env.fork(), pc, fr)
        fr.trys.pop()
        if types & UNSEEN or self.unseen_keys(s, types):
            # what the body may raise is not followed
            col["hits"].append((T.and_(pc, T.cond_atom(T.opaque("handled exception"))), env.fork()))
        if s.orelse:
            env2, pc2 = self.exec_block(s.orelse, env2, pc2, fr)
        if not col["hits"]:
            return env2, pc2
        hc = FALSE
        henv = None
        for c, e in col["hits"]:
            henv = e if henv is None else self.merge_env(c, e, henv)
            hc = T.or_(hc, c)
        h = s.handlers[0]
        if h.name:
            henv[h.name] = ob("exception")
        henv, hpc = self.exec_block(h.body, henv, hc, fr)
        if hpc is FALSE:
            return env2, pc2
        if pc2 is FALSE:
            return henv, hpc
        return self.merge_env(hc, henv, env2), T.or_(hpc, pc2)

    @staticmethod
    def unseen_keys(s, types):
        """Lookups failing elsewhere than in a subscript."""
        if "KeyError" not in types:
            return False
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "remove", "popitem") for x in s.body for n in ast.walk(x))

    def st_Match(self, s, env, pc, fr):
        q = PLAIN_WHILE.get(s)
        if q is None:
            name = "#subject%d" % s.lineno
            q = PLAIN_WHILE[s] = match_chain(s, name)
        return self.exec_block(q, env, pc, fr)

    def st_With(self, s, env, pc, fr):
        self.note(fr, s, "with")
        return self.exec_block(s.body, env, pc, fr)

    # ---------------------------------------------------------------- loops
    def st_Break(self, s, env, pc, fr):
        fr.loops[-1]["brk"].append((pc, env))
        return env, FALSE

    def st_Continue(self, s, env, pc, fr):
        fr.loops[-1]["cont"].append((pc, env))
        return env, FALSE

    def st_For(self, s, env, pc, fr):
        it = s.iter
        # product(...) -> nested loops
        if isinstance(it, ast.Call) and self.is_product(it, env, fr) and not has_direct(s.body, ast.Break) and not s.orelse:
            args = list(it.args)
            rep = None
            for kw in it.keywords:
                if kw.arg == "repeat":
                    rep = self.eval(kw.value, env, fr)
            if rep is not None:
                k = T.as_int(rep.t) if isinstance(rep, Sc) else None
                args = args * k if k and k <= 4 else None
            if args and isinstance(s.target, (ast.Tuple, ast.List)) and len(s.target.elts) == len(args):
                body = s.body
                for tgt, a in reversed(list(zip(s.target.elts, args))):
                    f = ast.For(target=tgt, iter=a, body=body, orelse=[], lineno=s.lineno, col_offset=0)
                    body = [ast.copy_location(f, s)]
                return self.st_For(body[0], env, pc, fr)
        dom, env, pc = self.with_pc(lambda: self.iter_domain(it, env, fr), env, pc, fr)
        return self.run_loop(s, dom, env, pc, fr)

    def is_product(self, call, env, fr):
        if call.args or call.keywords:
            f = call.func
            if isinstance(f, ast.Name) and f.id not in env:
                imp = fr.mod.imports.get(f.id)
                return bool(imp and imp[0] == "from" and imp[1] == "itertools" and imp[2] == "product")
            if isinstance(f, ast.Attribute) and f.attr == "product" and isinstance(f.value, ast.Name) and f.value.id == "itertools":
                return True
        return False

    def iter_domain(self, node, env, fr):
        """-> ('static', [V...]) or ('sym', n, fn i -> V)"""
        v = self.eval(node, env, fr)
        return self.domain_of(v)

    def domain_of(self, v):
        return npmodel.domain(v)

    def counted(self, s, env, fr):
        """`while i < n: ...; i += 1` as a for loop over range(i, n), or None."""
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and len(s.body) > 1):
            return None
        l, r = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            l, r = r, l
        elif not isinstance(t.ops[0], (ast.Lt, ast.NotEq)):
            return None
        if not isinstance(l, ast.Name) or not isinstance(env.get(l.id), Sc):
            return None
        i, last = l.id, s.body[-1]
        if isinstance(last, ast.AugAssign):
            ok = isinstance(last.target, ast.Name) and last.target.id == i and isinstance(last.op, ast.Add) and isinstance(last.value, ast.Constant) and last.value.value == 1
        elif isinstance(last, ast.Assign):
            b = last.value
            ok = (
                len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i
                and isinstance(b, ast.BinOp) and isinstance(b.op, ast.Add)
                and any(isinstance(x, ast.Name) and x.id == i and isinstance(y, ast.Constant) and y.value == 1 for x, y in ((b.left, b.right), (b.right, b.left)))
            )
        else:
            ok = False
        i0 = env[i].t
        if not ok or not (i0.op == "poly" and T.is_int(i0)) or (isinstance(t.ops[0], ast.NotEq) and T.as_int(i0) != 0):
            return None
        body = s.body[:-1]
        stored = set(assigned_names(body)) | self.mutated_names(body, fr.mod)
        if i in stored or has_direct(body, ast.Continue):
            return None
        free = {x.id for x in ast.walk(r) if isinstance(x, ast.Name)}
        if free & (stored | {i}) or any(isinstance(x, ast.Call) and not (isinstance(x.func, ast.Name) and x.func.id == "len") for x in ast.walk(r)):
            return None
        start, end = "#start%d" % s.lineno, "#end%d" % s.lineno
        env[start] = env[i]
        env[end] = self.eval(r, env, fr)
        L, S = ast.Load(), ast.Store()
        rng = ast.Call(ast.Name("range", L), [ast.Name(start, L), ast.Name(end, L)], [])
        done = ast.IfExp(ast.Compare(ast.Name(start, L), [ast.Lt()], [ast.Name(end, L)]), ast.Name(end, L), ast.Name(start, L))
        f = ast.For(ast.Name(i, S), rng, body, [ast.Assign([ast.Name(i, S)], done)])
        ast.copy_location(f, s)
        return ast.fix_missing_locations(f)

    @staticmethod
    def counted_bound(s):
        t = s.test
        return t.left if isinstance(t.ops[0], ast.Gt) else t.comparators[0]

    @staticmethod
    def plain_while(s):
        """`while True: if c: break; ...` and `while True: if c: ... else: break` with the test in the head."""
        if s.orelse or not (isinstance(s.test, ast.Constant) and s.test.value) or not s.body or not isinstance(s.body[0], ast.If):
            return s
        f, rest = s.body[0], s.body[1:]
        test = after = body = None
        if f.body and isinstance(f.body[-1], ast.Break) and not f.orelse:
            test, body, after = ast.UnaryOp(ast.Not(), f.test), rest, f.body[:-1]
        elif f.orelse and isinstance(f.orelse[-1], ast.Break) and f.body:
            test, body, after = f.test, list(f.body) + rest, f.orelse[:-1]
        elif f.body and isinstance(f.body[-1], ast.Break) and f.orelse:
            test, body, after = ast.UnaryOp(ast.Not(), f.test), list(f.orelse) + rest, f.body[:-1]
        if test is None or not body or has_direct(body, ast.Break) or has_direct(after, (ast.Break, ast.Continue)):
            return s
        return ast.fix_missing_locations(ast.copy_location(ast.While(test, body, after), s))

    def st_While(self, s, env, pc, fr):
        q = PLAIN_WHILE.get(s)
        if q is None:
            q = PLAIN_WHILE[s] = self.plain_while(s)
        s = q
        f = self.while_for.get(id(s), (None, 0))[0]
        f = f or self.counted(s, env, fr)
        if f is not None:
            env["#start%d" % s.lineno] = env[f.target.id]
            env["#end%d" % s.lineno] = self.eval(self.counted_bound(s), env, fr)
            self.while_for[id(s)] = (f, s)
            return self.st_For(f, env, pc, fr)
        return self.run_loop(s, ("while", s.test), env, pc, fr)

    def run_loop(self, s, dom, env, pc, fr):
        if not hasattr(fr, "loops"):
            fr.loops = []
        if dom[0] == "cond":
            # iterating over a conditional value: both versions, merged
            _, c, d1, d2 = dom
            e1, p1 = self.run_loop(s, d1, env.fork(), T.and_(pc, c), fr)
            e2, p2 = self.run_loop(s, d2, env.fork(), T.and_(pc, T.not_(c)), fr)
            if p1 is FALSE:
                return e2, p2
            if p2 is FALSE:
                return e1, p1
            return self.merge_env(c, e1, e2), T.or_(p1, p2)
        if dom[0] == "static":
            if len(dom[1]) >= 6 and all(isinstance(x, Sc) and T.as_const(x.t) is None and x.t.op == "poly" or isinstance(x, Sc) and T.as_const(x.t) is not None for x in dom[1]) and not isinstance(s.iter, ast.Call) and not (len(dom[1]) <= 24 and any(isinstance(x, ast.Return) for y in s.body for x in ast.walk(y))):
                # a table of numbers: kept as one loop over the table
                items = dom[1]
                dom = ("sym", T.const(len(items)), lambda i: pick_v(items, i))
                return SymLoop(self, s, dom, env, pc, fr).run()
            return self.run_static(s, dom[1], env, pc, fr)
        return SymLoop(self, s, dom, env, pc, fr).run()

    def run_static(self, s, items, env, pc, fr):
        brks = []
        for k, v in enumerate(items):
            if pc is FALSE:
                break
            fr.loops.append({"brk": [], "cont": []})
            self.bind_target(s, v, T.const(k), env, fr)
            env, p = self.exec_block(s.body, env, pc, fr)
            L = fr.loops.pop()
            for c, e in L["cont"]:
                env = self.merge_env(c, e, env) if p is not FALSE else e
                p = T.or_(p, c)
            pc = p
            brks += L["brk"]
        if s.orelse and pc is not FALSE:
            env, pc = self.exec_block(s.orelse, env, pc, fr)
        for c, e in brks:
            env = self.merge_env(c, e, env) if pc is not FALSE else e
            pc = T.or_(pc, c)
        return env, pc

    def bind_target(self, s, v, i, env, fr):
        if isinstance(s, ast.While):
            return
        k = T.as_int(i)
        lit = isinstance(s.iter, (ast.Tuple, ast.List)) and k is not None and k < len(s.iter.elts)
        self.assign(s.target, v, env, fr, s.iter.elts[k] if lit else None)
        if lit:
            return
        for tgt, src in elem_sources(s.target, s.iter):
            if isinstance(src, str):
                src = ((src, [[Sc(i)]]),)
            elif tgt not in fr.changed:
                continue
            else:
                src = tuple((x, None) for x in names_in(src) if x in env and not isinstance(env[x], (Sc, BI, Fn)))
            src = tuple(x for x in src if x[0] in env and x[0] != tgt)
            if src:
                env.elem[tgt] = src
                env.alias.pop(tgt, None)

    # ---------------------------------------------------------------- expressions
    def eval(self, n, env, fr) -> V:
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            self.note(fr, n, "expression " + type(n).__name__)
            return ob("expr " + type(n).__name__)
        return m(n, env, fr)

    def ex_Constant(self, n, env, fr):
        v = n.value
        if v is None:
            return VNONE
        if isinstance(v, bool):
            return Sc(TRUE if v else FALSE)
        if isinstance(v, (int, float, complex)):
            return Sc(T.const(v))
        if isinstance(v, str):
            return sstr(v)
        if v is Ellipsis:
            return BI("Ellipsis")
        return ob("constant")

    def ex_JoinedStr(self, n, env, fr):
        return sstr("<fstring>")

    def ex_Name(self, n, env, fr):
        if n.id in env:
            if n.id in env.unb:
                u = T.and_(getattr(fr, "pc", TRUE), env.unb[n.id])
                if u is not FALSE:
                    fr.events.append(Event("unbound", n.id, u, n.lineno, True))
            return env[n.id]
        return self.global_name(fr.mod, n.id, fr)

    def global_name(self, mod, name, fr):
        if name in mod.funcs:
            return Fn(mod.funcs[name], mod, None, None, name)
        if name in mod.imports:
            return self.import_value(mod, mod.imports[name], fr)
        if name in mod.globals:
            key = ("g", mod.name, name)
            if not hasattr(self, "gmemo"):
                self.gmemo = {}
            if key not in self.gmemo:
                self.gmemo[key] = ob("recursive global")
                self.gmemo[key] = self.global_value(mod, name, fr)
            return self.gmemo[key]
        return BI(name)

    def global_value(self, mod, name, fr):
        node = mod.globals[name]
        ref = isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id == "__table__"
        if ref or sum(1 for _ in ast.walk(node)) > 350:
            return Obj(mk("global", "table", name))
        f2 = Frame(self, mod, "<module>", 0)
        f2.events = []
        f2.pc = TRUE
        return self.eval(node, Env(), f2)

    def import_value(self, mod, imp, fr):
        if imp[0] == "mod":
            return BI({"np": "numpy"}.get(imp[1], imp[1]))
        m = self.pkg_module(mod, imp)
        if m is not None:
            if imp[2] in m.funcs or imp[2] in m.globals or imp[2] in m.imports:
                return self.global_name(m, imp[2], fr)
            return ob("import " + imp[2])
        return BI(imp[1] + "." + imp[2])

    def ex_Attribute(self, n, env, fr):
        v = self.eval(n.value, env, fr)
        return npmodel.attribute(v, n.attr, self)

    def ex_Tuple(self, n, env, fr):
        return Tup(self.elts(n.elts, env, fr), False)

    def ex_List(self, n, env, fr):
        return Tup(self.elts(n.elts, env, fr), True)

    def elts(self, elts, env, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                v = self.eval(e.value, env, fr)
                if isinstance(v, Tup):
                    out += v.items
                else:
                    d = npmodel.domain(v)
                    if d[0] == "static":
                        out += d[1]
                    else:
                        return [ob("starred")]
            else:
                out.append(self.eval(e, env, fr))
        return out

    def ex_Set(self, n, env, fr):
        return Obj(mk("hcall", "set", reify(Tup(self.elts(n.elts, env, fr), True))))

    def ex_Dict(self, n, env, fr):
        if not n.keys:
            return DAcc(None, [])
        if any(k is None for k in n.keys):
            return ob("dict unpack")
        return Dct([(self.eval(k, env, fr), self.eval(v, env, fr)) for k, v in zip(n.keys, n.values)])

    def ex_BinOp(self, n, env, fr):
        a = self.eval(n.left, env, fr)
        b = self.eval(n.right, env, fr)
        return npmodel.binop(type(n.op).__name__, a, b, self)

    def ex_UnaryOp(self, n, env, fr):
        v = self.eval(n.operand, env, fr)
        k = type(n.op).__name__
        if k == "Not":
            return Sc(T.not_(self.boolify(npmodel.truth_v(v))))
        if k == "USub":
            return npmodel.map1(T.neg, v, "neg")
        if k == "UAdd":
            return v
        if k == "Invert":
            return npmodel.map1(lambda t: T.not_(t) if T.is_bool(t) else T.sub(T.neg(t), ONE), v, "invert")
        return ob("unary")

    def ex_BoolOp(self, n, env, fr):
        isand = isinstance(n.op, ast.And)
        v = self.eval(n.values[0], env, fr)
        for x in n.values[1:]:
            c = self.boolify(npmodel.truth_v(v))
            if c is (FALSE if isand else TRUE):
                return v
            e2 = env.fork()
            lits = literals(c, isand)
            for k in e2:
                if not k.startswith("#"):
                    e2[k] = restrict_v(e2[k], lits)
            # evaluation of the right operand happens only if reached
            save = getattr(fr, "pc", TRUE)
            fr.pc = T.and_(save, c if isand else T.not_(c))
            w = self.eval(x, e2, fr)
            fr.pc = save
            if isinstance(v, Sc) and T.is_bool(v.t) and isinstance(w, Sc) and T.is_bool(w.t):
                v = Sc(T.and_(c, w.t) if isand else T.or_(c, w.t))
            elif isand:
                v = merge(c, w, v)
            else:
                v = merge(c, v, w)
        return v

    def ex_IfExp(self, n, env, fr):
        c = self.boolify(self.cond(n.test, env, fr))
        if c is TRUE:
            return self.eval(n.body, env, fr)
        if c is FALSE:
            return self.eval(n.orelse, env, fr)
        e1, e2 = env.fork(), env.fork()
        lt, lf = literals(c, True), literals(c, False)
        for k in e1:
            if not k.startswith("#"):
                e1[k] = restrict_v(e1[k], lt)
                e2[k] = restrict_v(e2[k], lf)
        save = getattr(fr, "pc", TRUE)
        fr.pc = T.and_(save, c)
        a = self.eval(n.body, e1, fr)
        fr.pc = T.and_(save, T.not_(c))
        b = self.eval(n.orelse, e2, fr)
        fr.pc = save
        return merge(c, a, b)

    def ex_Compare(self, n, env, fr):
        left = self.eval(n.left, env, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, env, fr)
            v = npmodel.compare(type(op).__name__, left, right, self)
            if res is None:
                res = v
            else:
                res = Sc(T.and_(self.boolify(npmodel.truth_v(res)), self.boolify(npmodel.truth_v(v))))
            left = right
        return res

    def ex_Subscript(self, n, env, fr):
        v = self.eval(n.value, env, fr)
        idx = self.eval_index(n.slice, env, fr)
        if fr.trys and isinstance(v, (Dct, DAcc)) and any(c["types"] & {"KeyError", "*"} for c in fr.trys):
            x = idx[0] if len(idx) == 1 else Tup(list(idx))
            self.raise_event(fr, "KeyError", T.not_(npmodel.dict_lookup(v, x)[0]), n, env, True)
        return npmodel.getitem(v, idx, self)

    def eval_index(self, s, env, fr):
        elts = s.elts if isinstance(s, ast.Tuple) else [s]
        out = []
        for e in elts:
            if isinstance(e, ast.Slice):
                out.append(
                    (
                        "slice",
                        self.eval(e.lower, env, fr) if e.lower else None,
                        self.eval(e.upper, env, fr) if e.upper else None,
                        self.eval(e.step, env, fr) if e.step else None,
                    )
                )
            elif isinstance(e, ast.Starred):
                v = self.eval(e.value, env, fr)
                out += v.items if isinstance(v, Tup) else [ob("starred index")]
            else:
                out.append(self.eval(e, env, fr))
        return out

    def ex_Lambda(self, n, env, fr):
        return Fn(n, fr.mod, env, fr, None)

    def ex_NamedExpr(self, n, env, fr):
        v = self.eval(n.value, env, fr)
        self.bind(n.target.id, v, env)
        return v

    def ex_Starred(self, n, env, fr):
        return ob("starred")

    # comprehension
    def ex_ListComp(self, n, env, fr):
        v = self.comp(n.generators, 0, lambda e: self.eval(n.elt, e, fr), env, fr)
        self.comp_effects(n, env, fr)
        return v

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n, env, fr):
        return Obj(mk("hcall", "set", reify(self.ex_ListComp(n, env, fr))))

    def ex_DictComp(self, n, env, fr):
        v = self.comp(n.generators, 0, lambda e: Tup([self.eval(n.key, e, fr), self.eval(n.value, e, fr)]), env, fr)
        self.comp_effects(n, env, fr)
        d = npmodel.domain(v)
        if d[0] == "static":
            return Dct([(x.items[0], x.items[1]) for x in d[1]])
        if d[0] == "sym":
            def gen(i):
                x = d[2](i)
                return (TRUE, npmodel.component(x, 0, 2), npmodel.component(x, 1, 2))
            return DAcc(None, [("gen", d[1], gen)])
        return ob("dictcomp")

    def comp(self, gens, k, elt, env, fr):
        g = gens[k]
        it = g.iter
        dom = self.domain_of(self.eval(it, env, fr))
        return self.comp_dom(gens, k, elt, env, fr, dom)

    def comp_effects(self, n, env, fr):
        """Variables a comprehension changes as it goes."""
        key = ("comp", n)
        if key not in self.mut_memo:
            own = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            walrus = {x.target.id for x in ast.walk(n) if isinstance(x, ast.NamedExpr)}
            self.mut_memo[key] = sorted((self.mutated_names([ast.Expr(n)], fr.mod) - own) | walrus)
        for x in self.mut_memo[key]:
            if x in env or any(isinstance(q, ast.NamedExpr) for q in ast.walk(n)):
                self.mutate(x, ob("changed in a comprehension"), env) if x in env else env.__setitem__(x, ob("bound in a comprehension"))

    def comp_dom(self, gens, k, elt, env, fr, dom):
        g = gens[k]
        last = k == len(gens) - 1
        if dom[0] == "cond":
            return merge(
                dom[1], self.comp_dom(gens, k, elt, env, fr, dom[2]), self.comp_dom(gens, k, elt, env, fr, dom[3])
            )
        if dom[0] == "static":
            acc = Tup([], True)
            for v in dom[1]:
                e = env.fork()
                self.assign(g.target, v, e, fr)
                c = TRUE
                for i in g.ifs:
                    c = T.and_(c, self.boolify(self.cond(i, e, fr)))
                if c is FALSE:
                    continue
                if last:
                    x = elt(e)
                    acc = npmodel.list_append(acc, x, c)
                else:
                    x = self.comp(gens, k + 1, elt, e, fr)
                    acc = npmodel.list_extend(acc, x, c)
            return acc
        if dom[0] == "sym":
            _, n, fn = dom

            def at(i):
                e = env.fork()
                self.assign(g.target, fn(i), e, fr)
                c = TRUE
                for q in g.ifs:
                    c = T.and_(c, self.boolify(self.cond(q, e, fr)))
                    lits = literals(c, True)
                    for kk in e:
                        if not kk.startswith("#"):
                            e[kk] = restrict_v(e[kk], lits)
                return e, c

            x = T.new_ix(n)
            e, c = at(atom(x))
            save = getattr(fr, "pc", TRUE)
            nev = len(fr.events)
            hits0 = [len(col["hits"]) for col in fr.trys]
            fr.pc = TRUE
            if last:
                v = elt(e)
            else:
                v = self.comp(gens, k + 1, elt, e, fr)
            fr.pc = save
            for col, h0 in zip(fr.trys, hits0):
                col["hits"][h0:] = [(T.and_(save, T.exists([x], hc) if x in hc.fv else hc), env.fork()) for hc, _ in col["hits"][h0:]]
                for hc, _ in col["hits"][h0:]:
                    save = T.and_(save, T.not_(hc))
            fr.pc = save
            for ev in fr.events[nev:]:
                if x in ev.cond.fv:
                    ev.cond = T.exists([x], ev.cond)
                ev.cond = T.and_(save, ev.cond)
            if last:
                return npmodel.build_seq(x, n, c, v)
            return npmodel.build_flat(x, n, c, v)
        return ob("comprehension over " + dom[0])

    # ---------------------------------------------------------------- calls
    def ex_Call(self, n, env, fr):
        # in-place methods on variables
        if isinstance(n.func, ast.Attribute):
            r = self.method_stmt(n, env, fr)
            if r is not None:
                return r
        f = self.eval(n.func, env, fr)
        args, kwargs = self.eval_args(n, env, fr)
        if isinstance(f, BI) and f.name.startswith("numpy.") and "out" in kwargs:
            return self.call_out(f, args, kwargs, n, env, fr)
        return self.call(f, args, kwargs, n, env, fr)

    def call_out(self, f, args, kwargs, n, env, fr):
        """A numpy function that writes its result into an array."""
        out = kwargs.pop("out")
        if isinstance(out, Sc) and out.t is NONE:
            return self.call(f, args, kwargs, n, env, fr)
        v = self.call(f, args, kwargs, n, env, fr)
        node = next(k.value for k in n.keywords if k.arg == "out")
        if isinstance(node, ast.Tuple) and len(node.elts) == 1:
            node = node.elts[0]
        if isinstance(node, (ast.Name, ast.Subscript)):
            i = ast.Slice()
            self.store_sub(ast.Subscript(node, ast.Tuple([ast.Constant(...)], ast.Load()) if "where" in kwargs else i, ast.Store()), ob("masked out") if "where" in kwargs else v, env, fr)
            return self.eval(node, env, fr)
        for x in names_in(node):
            if x in env:
                env[x] = ob("out argument")
        return ob("out argument")

    def eval_args(self, n, env, fr):
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, env, fr)
                if isinstance(v, Tup):
                    args += v.items
                else:
                    args.append(ob("star arg"))
            else:
                args.append(self.eval(a, env, fr))
        kwargs = {}
        for k in n.keywords:
            if k.arg is None:
                v = self.eval(k.value, env, fr)
                if isinstance(v, Dct):
                    for kk, vv in v.kv:
                        if isinstance(kk, Sc) and kk.t.op == "str":
                            kwargs[kk.t.args[0]] = vv
                else:
                    kwargs["**"] = ob("double star")
            else:
                kwargs[k.arg] = self.eval(k.value, env, fr)
        return args, kwargs

    def method_stmt(self, n, env, fr):
        meth = n.func.attr
        recv = n.func.value
        if meth in MUT_METHODS or meth in npmodel.RNG_METHODS:
            root = base_name(recv)
            if root is None or root not in env:
                return None
            cur = self.eval(recv, env, fr)
            if isinstance(cur, Rng):
                args, kwargs = self.eval_args(n, env, fr)
                val, new = npmodel.rng_draw(cur, meth, args, kwargs)
                self.write_back(recv, new, env, fr)
                return val
            if meth not in MUT_METHODS:
                return None
            args, kwargs = self.eval_args(n, env, fr)
            new, ret = npmodel.mutating_method(cur, meth, args, kwargs, self)
            self.write_back(recv, new, env, fr)
            return ret
        return None

    def write_back(self, node, v, env, fr):
        if isinstance(node, ast.Name):
            self.mutate(node.id, v, env)
        elif isinstance(node, ast.Subscript):
            self.store_sub(ast.Subscript(value=node.value, slice=node.slice, ctx=ast.Store()), v, env, fr)
        else:
            b = base_name(node)
            if b:
                env[b] = ob("write back")

    def call(self, f, args, kwargs, n, env, fr):
        if isinstance(f, IteV):
            return merge(f.c, self.call(f.a, args, kwargs, n, env, fr), self.call(f.b, args, kwargs, n, env, fr))
        if isinstance(f, Fn):
            return self.call_fn(f, args, kwargs, n, env, fr)
        if isinstance(f, BI):
            if f.name == "#partial":
                g, pre, kw = f.recv
                return self.call(g, list(pre) + args, {**kw, **kwargs}, n, env, fr)
            return npmodel.call(self, f, args, kwargs, n, env, fr)
        if isinstance(f, Obj):
            return Obj(mk("hcall", "callobj", f.t, *[reify(a) for a in args]))
        return ob("call")

    def bind_args(self, fdef, args, kwargs, mod, fr, defenv=None):
        a = fdef.args
        names = [x.arg for x in a.posonlyargs + a.args]
        kwn = [x.arg for x in a.kwonlyargs]
        out = {}
        for nm, v in zip(names, args):
            out[nm] = v
        if len(args) > len(names):
            if a.vararg:
                out[a.vararg.arg] = Tup(args[len(names) :])
            else:
                return None
        elif a.vararg:
            out[a.vararg.arg] = Tup([])
        for k, v in kwargs.items():
            if k in names + kwn:
                out[k] = v
            elif not a.kwarg:
                return None
        dm = dict(zip(names[len(names) - len(a.defaults) :], a.defaults))
        for x, d in zip(kwn, a.kw_defaults):
            if d is not None:
                dm[x] = d
        for nm in names + kwn:
            if nm not in out:
                if nm in dm:
                    f2 = Frame(self, mod, fdef.name if hasattr(fdef, "name") else "lambda", fr.depth + 1)
                    f2.events = []
                    f2.pc = TRUE
                    out[nm] = self.eval(dm[nm], Env() if defenv is None else defenv, f2)
                else:
                    return None
        return out

    def call_fn(self, f, args, kwargs, n, env, fr):
        node, mod = f.node, f.mod
        if isinstance(node, ast.Lambda):
            bound = self.bind_args(node, args, kwargs, mod, fr, f.env)
            if bound is None:
                return ob("lambda args")
            e = (env if f.frame is fr else f.env).fork()
            e.update(bound)
            if fr.mod is None:
                fr.mod = mod
            return self.eval(node.body, e, fr)
        bound = self.bind_args(node, args, kwargs, mod, fr, f.env)
        if bound is None:
            self.note(fr, n, "argument mismatch for " + str(f.name))
            return ob("argument mismatch for " + str(f.name))
        top = f.env is None
        sig = self.sigs.get(f.name) if top else None
        if sig is not None and not sig.transparent and f.name not in self.inline_anchors:
            return self.call_anchor(f, sig, bound, n, env, fr)
        if fr.depth >= self.MAXDEPTH:
            return ob("inline depth")
        # inline
        f2 = Frame(self, mod, f.name, fr.depth + 1, parent=fr)
        f2.events = fr.events
        f2.trys = fr.trys
        if top:
            e = Env()
        else:
            e = (env if f.frame is fr else f.env).fork()
            e.alias, e.elem = {}, {}
            f2.captured = {k for k in self.nested_effects(node, mod)[1] if k in e}
            if f2.captured and f.frame is not fr:
                raise NotLifted("a nested function changes variables of another frame")
        for k, v in bound.items():
            e[k] = v
            e.alias[k] = "P:" + k
            e["#param:" + k] = v
            e.alias["#param:" + k] = "P:" + k
        base_pc = getattr(fr, "pc", TRUE)
        # run with own path condition, then conjoin events with the caller's
        nev = len(fr.events)
        hits0 = [len(c["hits"]) for c in fr.trys]
        v = self.run_body(node, e, f2)
        raised = FALSE
        for ev in fr.events[nev:]:
            if not ev.implicit and ev.kind == "raise":
                raised = T.or_(raised, ev.cond)
            ev.cond = T.and_(base_pc, ev.cond)
        for c, k in zip(fr.trys, hits0):
            new = []
            for cc, ee in c["hits"][k:]:
                raised = T.or_(raised, cc)
                # resume in the caller's environment
                new.append((T.and_(base_pc, cc), env.fork()))
            c["hits"][k:] = new
        fr.pc = T.and_(base_pc, T.not_(raised)) if raised is not FALSE else base_pc
        lits = literals(base_pc, True)
        if lits:
            v = restrict_v(v, lits)
            for k in f2.final_env or ():
                if f2.final_env[k] is not None and f2.final_env[k] is not bound.get(k[7:]):
                    f2.final_env[k] = restrict_v(f2.final_env[k], lits)
        self.write_back_params(node, bound, f2.final_env, n, env, fr)
        if not top:
            outer = {q for z in own_nodes(node.body) if isinstance(z, ast.Nonlocal) for q in z.names}
            for k in sorted(f2.captured):
                x = (f2.final_env or {}).get(k)
                if x is not None and x is not env.get(k):
                    (self.bind if k in outer else self.mutate)(k, x, env)
        return v

    def write_back_params(self, node, bound, fe, n, env, fr):
        if not isinstance(n, ast.Call):
            return
        names = [x.arg for x in node.args.posonlyargs + node.args.args]
        actual = dict(zip(names, n.args))
        for kw in n.keywords:
            if kw.arg:
                actual[kw.arg] = kw.value
        for p, a in actual.items():
            k = "#param:" + p
            if k in fe and fe[k] is not bound.get(p) and fe[k] is not None:
                if isinstance(a, (ast.Name, ast.Subscript)) and base_name(a) in env:
                    self.write_back(a, fe[k], env, fr)

    def call_anchor(self, f, sig, bound, n, env, fr):
        self.used_calls.add(f.name)
        if sig.ret_sort in ("int", "real", "bit", "bool"):
            T.CALL_SORTS[f.name] = sig.ret_sort
        elif sig.ret[0] == "nd":
            T.COMPLEX_CALLS.add(f.name)
        names = sig.names()
        fnames = [x.arg for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs]
        if f.name.startswith("_"):
            # private: parameters identified by name, renamed ones by position
            ren = {x: x if x in names or k >= len(names) or names[k] in fnames else names[k] for k, x in enumerate(fnames)}
        else:
            ren = {x: x for x in fnames}
        argterms = []
        vals = {}
        for p in fnames:
            q = ren.get(p, p)
            vals[q] = bound[p]
        extra = [q for q in vals if q not in names]
        for q in names:
            if q in vals:
                argterms.append((q, reify(vals[q])))
            else:
                argterms.append((q, mk("absent")))
        for q in extra:
            argterms.append((q, reify(vals[q])))
        call = mk("call", f.name, tuple(argterms))
        dims: dict = {}
        for q, ty in sig.params:
            if q in vals:
                bind_dims(ty, vals[q], dims)
        # value merged over conditional optional arguments is left to the term
        v = reflect_ty(sig.ret, call, dims) if sig.ret[0] != "tup" else Tup(
            [reflect_ty(e, T.aproj(call, k, ty_sort(e)), dims) for k, e in enumerate(sig.ret[1])]
        )
        for typ in sig.opts.get("raises", ()):
            self.raise_event(fr, typ, T.cond_atom(mk("raises", typ, call)), n, env, True)
        muts = self.mutated_params(f.mod, f.node)
        if muts and isinstance(n, ast.Call):
            for k in muts:
                p = fnames[k]
                a = n.args[k] if k < len(n.args) else next((kw.value for kw in n.keywords if kw.arg == p), None)
                if isinstance(a, (ast.Name, ast.Subscript)) and base_name(a) in env:
                    self.write_back(a, v if ren.get(p, p) in sig.mutates else ob("mutated by " + f.name), env, fr)
        return v


GENERATORS: dict = {}
PLAIN_WHILE: dict = {}
UNSEEN = {"IndexError", "StopIteration", "TypeError", "AttributeError", "LinAlgError", "ZeroDivisionError", "ArithmeticError", "FloatingPointError", "OverflowError", "RuntimeError", "*"}


def match_chain(s, name):
    """A match statement over constants as a chain of conditionals."""
    L = ast.Load()

    def test(p, subj):
        if isinstance(p, ast.MatchValue):
            return ast.Compare(subj, [ast.Eq()], [p.value])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(ast.Or(), [test(q, subj) for q in p.patterns])
        if isinstance(p, ast.MatchAs) and p.pattern is None and p.name is None:
            return ast.Constant(True)
        if isinstance(p, ast.MatchSequence) and isinstance(s.subject, ast.Tuple) and len(p.patterns) == len(s.subject.elts) and subj.id == name:
            return ast.BoolOp(ast.And(), [ast.Constant(True)] + [test(q, ast.Subscript(subj, ast.Constant(k), L)) for k, q in enumerate(p.patterns)])
        raise NotLifted("match pattern " + type(p).__name__)

    out: list = []
    for c in reversed(s.cases):
        subj = ast.Name(name, L)
        pre = []
        if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.pattern.name and not c.guard:
            pre, t = [ast.Assign([ast.Name(c.pattern.name, ast.Store())], subj)], ast.Constant(True)
        else:
            t = test(c.pattern, subj)
        if c.guard:
            t = ast.BoolOp(ast.And(), [t, c.guard])
        out = [ast.If(t, pre + c.body, out)]
    out = [ast.Assign([ast.Name(name, ast.Store())], s.subject)] + out
    return [ast.fix_missing_locations(ast.copy_location(x, s)) for x in out]


def own_nodes(body):
    """Nodes of a body outside nested functions."""
    st = list(body)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            st += ast.iter_child_nodes(n)


class ListBuilder(ast.NodeTransformer):
    """Body of a generator function as one collecting what it yields into a list."""

    def visit_FunctionDef(self, n):
        return n

    visit_Lambda = visit_ClassDef = visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Expr(self, n):
        if isinstance(n.value, (ast.Yield, ast.YieldFrom)):
            meth = "append" if isinstance(n.value, ast.Yield) else "extend"
            f = ast.Attribute(ast.Name("#yielded", ast.Load()), meth, ast.Load())
            v = n.value.value or ast.Constant(None)
            return ast.copy_location(ast.Expr(ast.Call(f, [v], [])), n)
        return n

    def visit_Return(self, n):
        return ast.copy_location(ast.Return(ast.Name("#yielded", ast.Load())), n)


def generator_body(fdef):
    """Statements to execute for a call (None: a generator in a form not handled)."""
    r = GENERATORS.get(fdef)
    if r is not None:
        return r[0]
    ys = [n for n in own_nodes(fdef.body) if isinstance(n, (ast.Yield, ast.YieldFrom))]
    body = fdef.body
    if ys:
        stm = [n.value for n in own_nodes(fdef.body) if isinstance(n, ast.Expr)]
        if all(any(y is v for v in stm) for y in ys):
            b = copy.deepcopy(fdef.body)
            first = ast.Assign([ast.Name("#yielded", ast.Store())], ast.List([], ast.Load()))
            b = [ast.copy_location(first, fdef)] + [ListBuilder().visit(x) for x in b]
            b.append(ast.copy_location(ast.Return(ast.Name("#yielded", ast.Load())), fdef))
            body = [ast.fix_missing_locations(x) for x in b]
        else:
            body = None
    GENERATORS[fdef] = (body,)
    return body


def restrict_keep(a, lits, b):
    return b


def base_tail(n):
    return n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else "?"


def _as_load(t):
    import copy

    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


def has_direct(body, kind):
    """Does the block contain a statement of this kind belonging to this loop?"""
    for s in body:
        if isinstance(s, kind):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            if any(has_direct(x, kind) for x in [s.orelse] if isinstance(s, (ast.For, ast.While))):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if has_direct(getattr(s, f, []) or [], kind):
                return True
        for h in getattr(s, "handlers", []) or []:
            if has_direct(h.body, kind):
                return True
    return False


VIEW_ATTRS = {"T", "flat", "base", "mT"}
VIEW_CALLS = {
    "reshape", "ravel", "transpose", "swapaxes", "squeeze", "view", "diagonal", "split", "array_split", "vsplit", "hsplit", "asarray",
    "asanyarray", "atleast_1d", "atleast_2d", "atleast_3d", "ascontiguousarray", "moveaxis", "rollaxis", "expand_dims", "values", "items",
    "get", "setdefault", "next", "iter", "list", "tuple", "reversed", "sorted", "pop", "zip", "enumerate", "islice", "chain",
}


def view_sources(v):
    """Variables whose object (or a part of it) an expression may denote."""
    if isinstance(v, ast.Name):
        return [v.id]
    if isinstance(v, (ast.Subscript, ast.Starred)):
        return view_sources(v.value)
    if isinstance(v, ast.Attribute):
        return view_sources(v.value) if v.attr in VIEW_ATTRS else []
    if isinstance(v, ast.NamedExpr):
        return [v.target.id] + view_sources(v.value)
    if isinstance(v, ast.IfExp):
        return view_sources(v.body) + view_sources(v.orelse)
    if isinstance(v, ast.BoolOp):
        return [x for e in v.values for x in view_sources(e)]
    if isinstance(v, ast.Call):
        f = v.func
        nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        if nm in VIEW_CALLS:
            return [x for e in list(v.args) + ([f.value] if isinstance(f, ast.Attribute) else []) for x in view_sources(e)]
    return []


def names_in(e):
    return list(dict.fromkeys(n.id for n in ast.walk(e) if isinstance(n, ast.Name)))


def elem_sources(target, it):
    """(loop variable, container variable or expression) pairs of an iteration."""
    out = []
    if isinstance(target, ast.Name):
        if isinstance(it, ast.Name):
            out.append((target.id, it.id))
        elif not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range"):
            out.append((target.id, it))
    elif isinstance(target, (ast.Tuple, ast.List)):
        f = it.func if isinstance(it, ast.Call) else None
        if isinstance(f, ast.Name) and f.id == "enumerate" and it.args and len(target.elts) == 2:
            out += elem_sources(target.elts[1], it.args[0])
        elif isinstance(f, ast.Name) and f.id == "zip" and len(target.elts) == len(it.args):
            for t, a in zip(target.elts, it.args):
                out += elem_sources(t, a)
        else:
            for t in target.elts:
                t = t.value if isinstance(t, ast.Starred) else t
                if isinstance(t, (ast.Name, ast.Tuple, ast.List)):
                    out += elem_sources(t, it if not isinstance(it, ast.Name) else ast.Subscript(it, ast.Slice(), ast.Load()))
    return out


from .loops import SymLoop, assigned_names  # noqa: E402
