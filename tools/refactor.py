"""Evaluation aid (not a check): behaviour-preserving rewrites of the package's functions; none may be reported."""
import ast, copy, json, os, sys, time, builtins
sys.path.insert(0, "/verif")
if __name__ == "__main__" and os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import threading, resource
import multiprocessing as mp
from sa.compare import Comparer, SIGS

def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}

def params(fd):
    a = fd.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}

def locals_of(fd):
    return names(fd, ast.Store)

def nested(fd):
    return any(isinstance(x, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(fd) if x is not fd)

def body_start(fd):
    b = fd.body
    return 1 if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0

# every rewrite yields (tag, new FunctionDef, [helper FunctionDefs])
def rename(fd):
    f = copy.deepcopy(fd)
    loc = locals_of(f) - params(f)
    for x in ast.walk(f):
        if isinstance(x, ast.Name) and x.id in loc:
            x.id += "_v"
    yield "rename locals", f, []

class Each(ast.NodeTransformer):
    """apply fn to all nodes, rebuild"""
    def __init__(self, fn): self.fn = fn
    def visit(self, n):
        n = self.generic_visit(n)
        return self.fn(n)

def exprs(fd, fn, tag):
    f = copy.deepcopy(fd)
    before = ast.dump(f)
    f = ast.fix_missing_locations(Each(fn).visit(f))
    if ast.dump(f) != before:
        yield tag, f, []

def flip(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
        if type(n.ops[0]) in m:
            return ast.Compare(n.comparators[0], [m[type(n.ops[0])]()], [n.left])
    return n

def notcmp(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        m = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}
        if type(n.ops[0]) in m:
            return ast.UnaryOp(ast.Not(), ast.Compare(n.left, [m[type(n.ops[0])]()], n.comparators))
    return n

def demorgan(n):
    if isinstance(n, ast.BoolOp):
        return ast.UnaryOp(ast.Not(), ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), [ast.UnaryOp(ast.Not(), v) for v in n.values]))
    return n

def swapif(n):
    if isinstance(n, ast.If) and n.orelse:
        return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    if isinstance(n, ast.IfExp):
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
    return n

def aug(n):
    if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
        return ast.Assign([n.target], ast.BinOp(ast.Name(n.target.id, ast.Load()), n.op, n.value))
    return n

def call(n, s):
    return isinstance(n, ast.Call) and ast.unparse(n.func) == s

def npsyn(n):
    if call(n, "np.conj") and len(n.args) == 1 and not n.keywords:
        return ast.Call(ast.Attribute(n.args[0], "conj", ast.Load()), [], [])
    if call(n, "np.abs") and len(n.args) == 1:
        return ast.Call(ast.Name("abs", ast.Load()), n.args, [])
    if call(n, "np.transpose") and len(n.args) == 1:
        return ast.Attribute(n.args[0], "T", ast.Load())
    if call(n, "np.zeros_like") and len(n.args) == 1 and not n.keywords:
        return ast.BinOp(n, ast.Mult(), ast.Constant(1))
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.Name):
        return ast.BinOp(n.left, ast.Mult(), n.left)
    if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(x, (ast.List, ast.Constant)) and not isinstance(getattr(x, "value", 0), (int, float, complex)) for x in ast.walk(n)):
        return n
    return n

def matmul_dot(n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.MatMult):
        return ast.Call(ast.Attribute(ast.Name("np", ast.Load()), "matmul", ast.Load()), [n.left, n.right], [])
    return n

def dot_matmul(n):
    return n

def commute(n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and not any(isinstance(x, (ast.List, ast.ListComp, ast.Str if hasattr(ast, "Str") else ast.List)) for x in ast.walk(n)):
        return ast.BinOp(n.right, n.op, n.left)
    return n

def range0(n):
    if call(n, "range") and len(n.args) == 1:
        return ast.Call(n.func, [ast.Constant(0), n.args[0]], [])
    return n

def kwargs_len(n):
    return n

def blocks(fd):
    """lists of statements with a setter, addressed by path index"""
    out = []
    for x in ast.walk(fd):
        for fld in ("body", "orelse"):
            b = getattr(x, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
    return out

_cnt = [0]
def fresh(p="t"):
    _cnt[0] += 1
    return f"_{p}{_cnt[0]}"

def N(s): return ast.Name(s, ast.Load())
def S(s): return ast.Name(s, ast.Store())

def temps(fd):
    """every return value / assigned call argument through a temporary"""
    f = copy.deepcopy(fd)
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, ast.Tuple):
                t = fresh(); b[i:i+1] = [ast.Assign([S(t)], s.value), ast.Return(N(t))]; i += 1
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.Tuple):
                pre, el = [], []
                for e in s.value.elts:
                    t = fresh(); pre.append(ast.Assign([S(t)], e)); el.append(N(t))
                b[i:i+1] = pre + [ast.Return(ast.Tuple(el, ast.Load()))]; i += len(pre)
            elif isinstance(s, (ast.Assign, ast.Expr)) and isinstance(s.value, ast.Call) and not any(isinstance(a, ast.Starred) for a in s.value.args):
                pre = []
                for k, a in enumerate(s.value.args):
                    if not isinstance(a, (ast.Name, ast.Constant, ast.GeneratorExp)):
                        t = fresh(); pre.append(ast.Assign([S(t)], a)); s.value.args[k] = N(t)
                b[i:i] = pre; i += len(pre)
            elif isinstance(s, ast.If):
                t = fresh(); tst = s.test; s.test = N(t); b[i:i] = [ast.Assign([S(t)], tst)]; i += 1
            i += 1
    yield "temporaries", ast.fix_missing_locations(f), []

def comp2loop(fd):
    f = copy.deepcopy(fd)
    ch = False
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v = s.value
                wrap = None
                if isinstance(v, ast.Call) and len(v.args) == 1 and isinstance(v.args[0], ast.ListComp):
                    wrap, v = v, v.args[0]
                if isinstance(v, ast.ListComp) and len(v.generators) == 1:
                    g = v.generators[0]
                    t = fresh("acc")
                    app = ast.Expr(ast.Call(ast.Attribute(N(t), "append", ast.Load()), [v.elt], []))
                    inner = [app]
                    for c in g.ifs[::-1]:
                        inner = [ast.If(c, inner, [])]
                    loop = ast.For(g.target, g.iter, inner, [])
                    if wrap: wrap.args = [N(t)]
                    b[i:i+1] = [ast.Assign([S(t)], ast.List([], ast.Load())), loop, ast.Assign(s.targets, wrap or N(t))]
                    i += 2; ch = True
            i += 1
    if ch: yield "comprehension to loop", ast.fix_missing_locations(f), []

def loop2comp(fd):
    f = copy.deepcopy(fd)
    ch = False
    for b in blocks(f):
        for i in range(len(b) - 1):
            s, l = b[i], b[i+1]
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.List) and not s.value.elts and isinstance(l, ast.For) and len(l.body) == 1 and not l.orelse:
                e = l.body[0]; conds = []
                if isinstance(e, ast.If) and len(e.body) == 1 and not e.orelse:
                    conds = [e.test]; e = e.body[0]
                if isinstance(e, ast.Expr) and isinstance(e.value, ast.Call) and ast.unparse(e.value.func) == s.targets[0].id + ".append":
                    b[i] = ast.Assign(s.targets, ast.ListComp(e.value.args[0], [ast.comprehension(l.target, l.iter, conds, 0)]))
                    b[i+1] = ast.Pass(); ch = True
    if ch: yield "loop to comprehension", ast.fix_missing_locations(f), []

def index_loops(fd):
    """for x in xs -> for i in range(len(xs)): x = xs[i]; for i, x in enumerate(xs) likewise"""
    f = copy.deepcopy(fd)
    ch = False
    for x in list(ast.walk(f)):
        if isinstance(x, ast.For):
            if isinstance(x.iter, ast.Name):
                i = fresh("i")
                x.body.insert(0, ast.Assign([x.target], ast.Subscript(x.iter, N(i), ast.Load())))
                x.target = S(i); x.iter = ast.Call(N("range"), [ast.Call(N("len"), [x.iter], [])], []); ch = True
            elif call(x.iter, "enumerate") and len(x.iter.args) == 1 and isinstance(x.iter.args[0], ast.Name) and isinstance(x.target, ast.Tuple) and isinstance(x.target.elts[0], ast.Name):
                i, t = x.target.elts
                xs = x.iter.args[0]
                x.body.insert(0, ast.Assign([t], ast.Subscript(xs, N(i.id), ast.Load())))
                x.target = S(i.id); x.iter = ast.Call(N("range"), [ast.Call(N("len"), [xs], [])], []); ch = True
            elif call(x.iter, "zip") and all(isinstance(a, ast.Name) for a in x.iter.args) and isinstance(x.target, ast.Tuple):
                i = fresh("i")
                for t, a in list(zip(x.target.elts, x.iter.args))[::-1]:
                    x.body.insert(0, ast.Assign([t], ast.Subscript(a, N(i), ast.Load())))
                x.target = S(i); x.iter = ast.Call(N("range"), [ast.Call(N("len"), [x.iter.args[0]], [])], []); ch = True
    if ch: yield "loops by index", ast.fix_missing_locations(f), []

def enum_loops(fd):
    """for i in range(len(xs)) / range(n) with n = len(xs) -> enumerate where xs[i] is read"""
    f = copy.deepcopy(fd)
    ch = False
    for x in list(ast.walk(f)):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and call(x.iter, "range") and len(x.iter.args) == 1 and call(x.iter.args[0], "len") and isinstance(x.iter.args[0].args[0], ast.Name):
            xs, i = x.iter.args[0].args[0].id, x.target.id
            st = {n for s in x.body for n in names(s, ast.Store)}
            if xs in st or i in st: continue
            t = fresh("x")
            class R(ast.NodeTransformer):
                def visit_Subscript(self, n):
                    self.generic_visit(n)
                    if isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == xs and isinstance(n.slice, ast.Name) and n.slice.id == i:
                        return N(t)
                    return n
            x.body = [R().visit(s) for s in x.body]
            x.target = ast.Tuple([S(i), S(t)], ast.Store()); x.iter = ast.Call(N("enumerate"), [N(xs)], []); ch = True
    if ch: yield "loops by enumerate", ast.fix_missing_locations(f), []

def product_loops(fd):
    f = copy.deepcopy(fd)
    ch = False
    class V(ast.NodeTransformer):
        def visit_For(self, x):
            nonlocal ch
            self.generic_visit(x)
            has = any(isinstance(y, (ast.Break,)) for y in ast.walk(x))
            if isinstance(x.iter, ast.Call) and ast.unparse(x.iter.func) in ("product", "itertools.product") and isinstance(x.target, ast.Tuple) and not has and not x.orelse:
                its = list(x.iter.args)
                if x.iter.keywords:
                    k = x.iter.keywords[0].value
                    if not isinstance(k, ast.Constant): return x
                    its = its * k.value
                if len(its) != len(x.target.elts): return x
                body = x.body
                for t, it in list(zip(x.target.elts, its))[::-1]:
                    body = [ast.For(t, copy.deepcopy(it), body, [])]
                ch = True
                return body[0]
            # nested -> product
            if isinstance(x.target, ast.Name) and len(x.body) == 1 and isinstance(x.body[0], ast.For) and isinstance(x.body[0].target, ast.Name) and not has and not (names(x.body[0].iter, ast.Load) & {x.target.id}) and not x.body[0].orelse:
                y = x.body[0]; ch = True
                return ast.For(ast.Tuple([x.target, y.target], ast.Store()), ast.Call(N("product"), [x.iter, y.iter], []), y.body, [])
            return x
    f = V().visit(f)
    if ch: yield "product and nested loops", ast.fix_missing_locations(f), []

def while_loops(fd):
    for kk, x in enumerate([y for y in ast.walk(fd) if isinstance(y, ast.For)]):
        f = copy.deepcopy(fd)
        t = [y for y in ast.walk(f) if isinstance(y, ast.For)][kk]
        if not (call(t.iter, "range") and len(t.iter.args) == 1 and isinstance(t.target, ast.Name)) or any(isinstance(y, ast.Continue) for y in ast.walk(t)): continue
        i = t.target.id
        n = fresh("n")
        for b in blocks(f):
            if t in b:
                p = b.index(t)
                b[p:p+1] = [ast.Assign([S(n)], t.iter.args[0]), ast.Assign([S(i)], ast.Constant(0)), ast.While(ast.Compare(N(i), [ast.Lt()], [N(n)]), t.body + [ast.AugAssign(S(i), ast.Add(), ast.Constant(1))], [])]
        yield f"while loop {kk}", ast.fix_missing_locations(f), []

def guard_continue(fd):
    f = copy.deepcopy(fd); ch = False
    for x in list(ast.walk(f)):
        if isinstance(x, (ast.For, ast.While)):
            b = x.body
            for i, s in enumerate(b):
                if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(b):
                    x.body = b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), b[i+1:], [])]; ch = True; break
                if isinstance(s, ast.If) and not s.orelse and i == len(b) - 1 and not isinstance(s.body[-1], (ast.Break, ast.Return)):
                    x.body = b[:i] + [ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])] + s.body; ch = True; break
    if ch: yield "continue guards", ast.fix_missing_locations(f), []

def else_return(fd):
    f = copy.deepcopy(fd); ch = False
    for b in blocks(f):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and isinstance(s.body[-1], (ast.Return, ast.Raise)) and i + 1 < len(b) and isinstance(b[-1], (ast.Return, ast.Raise)):
                s.orelse = b[i+1:]; del b[i+1:]; ch = True; break
    if ch: yield "else after return", ast.fix_missing_locations(f), []

def noop(fd):
    f = copy.deepcopy(fd)
    for b in blocks(f):
        if not isinstance(b[0], ast.Expr):
            b.insert(0, ast.Pass())
    k = body_start(f)
    f.body.insert(k, ast.Assign([S("_unused")], ast.Constant(0)))
    f.body.insert(k, ast.If(ast.Constant(False), [ast.Expr(ast.Call(N("print"), [ast.Constant("x")], []))], []))
    f.body.insert(k, ast.Assert(ast.Constant(True), None))
    yield "no-op statements", ast.fix_missing_locations(f), []

def impl(fd):
    f = copy.deepcopy(fd); h = copy.deepcopy(fd)
    h.name = "_impl_" + fd.name.lstrip("_"); h.decorator_list = []
    a = fd.args
    h.args = copy.deepcopy(a); h.args.defaults = []; h.args.kw_defaults = [None] * len(a.kwonlyargs)
    if a.vararg or a.kwarg: return
    f.body = [ast.Return(ast.Call(N(h.name), [N(x.arg) for x in a.posonlyargs + a.args], [ast.keyword(x.arg, N(x.arg)) for x in a.kwonlyargs]))]
    yield "body moved to helper", ast.fix_missing_locations(f), [ast.fix_missing_locations(h)]

BI = set(dir(builtins))
def extract_expr(fd):
    """each assigned non-trivial right side into a helper"""
    loc = locals_of(fd) | params(fd)
    f = copy.deepcopy(fd); hs = []
    if nested(fd): return
    for b in blocks(f):
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant, ast.List)):
                if any(isinstance(x, (ast.Yield, ast.NamedExpr)) for x in ast.walk(s.value)): continue
                own = {n for c in ast.walk(s.value) if isinstance(c, ast.comprehension) for n in names(c.target, ast.Store)}
                fv = sorted((names(s.value, ast.Load) & loc) - own)
                h = fresh("h")
                hs.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(v) for v in fv], None, [], [], None, []), [ast.Return(s.value)], [], None))
                hs[-1].type_params = []
                s.value = ast.Call(N(h), [N(v) for v in fv], [])
    if hs: yield "right sides to helpers", ast.fix_missing_locations(f), [ast.fix_missing_locations(h) for h in hs]

def extract_cond(fd):
    loc = locals_of(fd) | params(fd)
    f = copy.deepcopy(fd); hs = []
    for x in ast.walk(f):
        if isinstance(x, ast.If):
            own = {n for c in ast.walk(x.test) if isinstance(c, ast.comprehension) for n in names(c.target, ast.Store)}
            fv = sorted((names(x.test, ast.Load) & loc) - own)
            h = fresh("c")
            hs.append(ast.FunctionDef(h, ast.arguments([], [ast.arg(v) for v in fv], None, [], [], None, []), [ast.Return(x.test)], [], None)); hs[-1].type_params = []
            x.test = ast.Call(N(h), [N(v) for v in fv], [])
    if hs: yield "conditions to helpers", ast.fix_missing_locations(f), [ast.fix_missing_locations(h) for h in hs]

def extract_loop(fd):
    """each top-level for loop into a helper returning what it assigns"""
    loc = locals_of(fd) | params(fd)
    n = sum(isinstance(s, ast.For) for b in blocks(fd) for s in b)
    if nested(fd): return
    for k in range(n):
        f = copy.deepcopy(fd)
        c = -1
        for b in blocks(f):
            for i, s in enumerate(b):
                if isinstance(s, ast.For):
                    c += 1
                    if c == k and not any(isinstance(x, (ast.Return,)) for x in ast.walk(s)):
                        # break/continue of outer loops cannot appear inside without an own loop
                        rd = names(s, ast.Load) & loc
                        own = names(s.target, ast.Store) | {n_ for cc in ast.walk(s) if isinstance(cc, ast.comprehension) for n_ in names(cc.target, ast.Store)}
                        before = set()
                        for st in ast.walk(f):
                            if isinstance(st, ast.Name) and isinstance(st.ctx, ast.Store) and getattr(st, "lineno", 0) < s.lineno: before.add(st.id)
                        before |= params(f)
                        end = max(getattr(z, "end_lineno", 0) or 0 for z in ast.walk(s))
                        after = {z.id for z in ast.walk(f) if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Load) and z.lineno > end}
                        # loops around: everything carried
                        wr = (names(s, ast.Store) - own)
                        outs = sorted(w for w in wr if w in after or w in before)
                        ins = sorted((rd | set(outs)) & before - (own - before))
                        if not set(outs) <= before | wr: continue
                        h = fresh("loop")
                        if outs:
                            r = ast.Tuple([N(o) for o in outs], ast.Load()) if len(outs) > 1 else N(outs[0])
                            tgt = ast.Tuple([S(o) for o in outs], ast.Store()) if len(outs) > 1 else S(outs[0])
                            hf = ast.FunctionDef(h, ast.arguments([], [ast.arg(v) for v in ins], None, [], [], None, []), [s, ast.Return(r)], [], None)
                            b[i] = ast.Assign([tgt], ast.Call(N(h), [N(v) for v in ins], []))
                        else:
                            hf = ast.FunctionDef(h, ast.arguments([], [ast.arg(v) for v in ins], None, [], [], None, []), [s], [], None)
                            b[i] = ast.Expr(ast.Call(N(h), [N(v) for v in ins], []))
                        hf.type_params = []
                        yield f"loop {k} to helper", ast.fix_missing_locations(f), [ast.fix_missing_locations(hf)]

def reorder(fd):
    """swap adjacent independent assignments"""
    for mode in (0, 1):
        f = copy.deepcopy(fd); ch = False
        for b in blocks(f):
            i = mode
            while i + 1 < len(b):
                p, q = b[i], b[i+1]
                ok = all(isinstance(z, ast.Assign) and all(isinstance(t, (ast.Name, ast.Tuple)) for t in z.targets) for z in (p, q))
                pure = ok and not any(isinstance(y, ast.Attribute) and y.attr in ("append", "pop", "add", "random", "shuffle") for z in (p, q) for y in ast.walk(z))
                if pure and not (names(p, ast.Store) & (names(q, ast.Load) | names(q, ast.Store))) and not (names(q, ast.Store) & names(p, ast.Load)):
                    b[i], b[i+1] = q, p; ch = True; i += 1
                i += 1
        if ch: yield f"reorder {mode}", ast.fix_missing_locations(f), []

def inline_temp(fd):
    """inline locals assigned once and read once in the next statement"""
    f = copy.deepcopy(fd); ch = False
    for b in blocks(f):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i+1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(t, (ast.Assign, ast.Return, ast.Expr)):
                v = s.targets[0].id
                uses = [y for y in ast.walk(f) if isinstance(y, ast.Name) and y.id == v]
                here = [y for y in ast.walk(t) if isinstance(y, ast.Name) and y.id == v and isinstance(y.ctx, ast.Load)]
                if len(uses) == 2 and len(here) == 1 and not any(isinstance(y, (ast.ListComp, ast.GeneratorExp, ast.Lambda)) for y in ast.walk(t)):
                    tgt = here[0]
                    b[i+1] = Each(lambda n: s.value if n is tgt else n).visit(t)
                    del b[i]; ch = True; continue
            i += 1
    if ch: yield "inline temporaries", ast.fix_missing_locations(f), []

def ifexp(fd):
    f = copy.deepcopy(fd); ch = False
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp):
                e = s.value; x, y = copy.deepcopy(s), copy.deepcopy(s)
                x.value, y.value = e.body, e.orelse
                b[i] = ast.If(e.test, [x], [y]); ch = True
            elif isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]):
                b[i] = ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)); ch = True
            i += 1
    if ch: yield "if expression", ast.fix_missing_locations(f), []

def lenshape(fd):
    def g(n):
        if call(n, "len") and isinstance(n.args[0], ast.Name):
            a = ast.Call(ast.Attribute(N("np"), "shape", ast.Load()), [n.args[0]], [])
            return n
        if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "shape" and isinstance(n.slice, ast.Constant) and n.slice.value == 0 and isinstance(n.ctx, ast.Load):
            return ast.Call(N("len"), [n.value.value], [])
        return n
    yield from exprs(fd, g, "shape[0] to len")

def matrix_comp(fd):
    """for-loop appends: hoist loop-invariant calls"""
    f = copy.deepcopy(fd); ch = False
    for b in blocks(f):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.For) and not s.orelse:
                st = names(s, ast.Store) | {y.func.value.id for y in ast.walk(s) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and isinstance(y.func.value, ast.Name) and y.func.attr in ("append", "extend", "add", "pop", "random")}
                st |= {y.value.id for y in ast.walk(s) if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Store) and isinstance(y.value, ast.Name)}
                pre = []
                def g(n):
                    if isinstance(n, ast.Call) and ast.unparse(n.func) in ("len", "np.linalg.inv", "np.conj", "np.eye", "np.sqrt") and not (names(n, ast.Load) & st):
                        t = fresh("inv"); pre.append(ast.Assign([S(t)], n)); return N(t)
                    return n
                nb = [Each(g).visit(z) for z in s.body]
                if pre: s.body = nb; b[i:i] = pre; i += len(pre); ch = True
                if pre: break
            i += 1
        if ch: break
    if ch: yield "hoist invariants", ast.fix_missing_locations(f), []

def walrus_neg(n):
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub):
        return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
    return n

ALLF = [rename, temps, comp2loop, loop2comp, index_loops, enum_loops, product_loops, while_loops, guard_continue, else_return, noop, impl,
        extract_expr, extract_cond, extract_loop, reorder, inline_temp, ifexp, lenshape, matrix_comp] + [
        (lambda fd, g=g, t=t: exprs(fd, g, t)) for g, t in ((flip, "flip comparisons"), (notcmp, "not equal as negation"), (demorgan, "De Morgan"), (swapif, "swap branches"), (aug, "expand augmented"), (npsyn, "numpy synonyms"), (matmul_dot, "matmul call"), (commute, "commute products"), (range0, "range from 0"), (walrus_neg, "subtraction as addition"))]

def refactorings(fd):
    _cnt[0] = 0
    for g in ALLF:
        yield from g(fd)

G = {}
def one(a):
    f, k = a
    res = {}
    def run():
        C = G["C"]
        m, fd = C.code.find(f)
        tag, nf, hs = list(refactorings(fd))[k]
        m.funcs[f] = nf
        for h in hs: m.funcs[h.name] = h
        t0 = time.time()
        try:
            r, info = C.compare(f, 2_000_000, 90)
            res.update(f=f, d=tag, v=r.v, why=[w[:400] for w in r.why[:3]], notes=[str(x)[:200] for x in info.get("notes", [])][:2], t=round(time.time() - t0, 1))
        except BaseException as e:
            import traceback
            res.update(f=f, d=tag, v="ERR", why=[traceback.format_exc()[-300:]], t=round(time.time() - t0, 1))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=run); t.start(); t.join()
    return res

if __name__ == "__main__":
    out, jobs = sys.argv[1], int(sys.argv[2])
    fns = sys.argv[3:] or list(SIGS)
    G["C"] = C = Comparer("/verif/spec", os.environ.get("CODE", "/repo/src/spgrep"), "/verif/certified")
    tasks = []
    for f in fns:
        m, fd = C.code.find(f)
        if fd is None: continue
        for k, r in enumerate(refactorings(fd)):
            tasks.append((f, k))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    rs = []
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as p, open(out, "w") as fh:
        for r in p.imap_unordered(one, tasks):
            fh.write(json.dumps(r) + "\n"); fh.flush(); rs.append(r)
    for v in ("DIFF", "ERR", "UND"):
        for r in rs:
            if r["v"] == v: print(v, r["f"], "|", r["d"], "|", "; ".join(w[:160] for w in r["why"][:2]), r.get("notes"))
    print({v: sum(r["v"] == v for r in rs) for v in ("EQ", "UND", "DIFF", "ERR")})
