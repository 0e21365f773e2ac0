"""Evaluation aid (not a check): apply small AST mutations to /repo functions and report the verdicts."""
import ast, copy, sys, time, random
sys.path.insert(0, "/verif")
from sa.compare import *

def mutants(fd):
    """yield (desc, mutated FunctionDef)"""
    nodes = list(ast.walk(fd))
    # index nodes by position in walk
    def with_mut(k, fn):
        f2 = copy.deepcopy(fd)
        n = list(ast.walk(f2))[k]
        r = fn(n)
        if r is False: return None
        return ast.fix_missing_locations(f2)
    def replace(k, newfn):
        f2 = copy.deepcopy(fd)
        tgt = list(ast.walk(f2))[k]
        new = newfn(tgt)
        class Tr(ast.NodeTransformer):
            def visit(self, node):
                if node is tgt: return ast.copy_location(new, node)
                return super().generic_visit(node) if True else node
        f2 = Tr().visit(f2)
        return ast.fix_missing_locations(f2)
    doc = fd.body[0].value if fd.body and isinstance(fd.body[0], ast.Expr) and isinstance(fd.body[0].value, ast.Constant) else None
    for k, n in enumerate(nodes):
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}
            if type(n.op) in sw:
                def f(m, op=sw[type(n.op)]): m.op = op()
                yield f"L{ln} binop {type(n.op).__name__}", with_mut(k, f)
            if isinstance(n.op, ast.MatMult):
                def f(m): m.left, m.right = m.right, m.left
                yield f"L{ln} swap matmul", with_mut(k, f)
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.LtE: ast.Lt, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
            if type(n.ops[0]) in sw:
                def f(m, op=sw[type(n.ops[0])]): m.ops = [op()]
                yield f"L{ln} cmp {type(n.ops[0]).__name__}", with_mut(k, f)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
            yield f"L{ln} drop {type(n.op).__name__}", replace(k, lambda m: m.operand)
        elif isinstance(n, ast.BoolOp):
            def f(m): m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield f"L{ln} boolop", with_mut(k, f)
            for j in range(len(n.values)):
                def f(m, j=j): m.values = [v for i, v in enumerate(m.values) if i != j]
                if len(n.values) > 2: yield f"L{ln} drop bool operand {j}", with_mut(k, f)
                else: yield f"L{ln} drop bool operand {j}", replace(k, lambda m, j=j: m.values[1 - j])
        elif isinstance(n, ast.Constant) and n is not doc and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                def f(m): m.value = not m.value
            elif isinstance(n.value, int):
                def f(m): m.value = m.value + 1
            else:
                def f(m): m.value = m.value * 2
            yield f"L{ln} const {n.value}", with_mut(k, f)
        elif isinstance(n, ast.Call):
            nm = ast.unparse(n.func)
            if nm in ("np.conj", "np.linalg.inv", "np.transpose", "np.real", "np.abs", "np.rint", "np.around", "np.linalg.norm", "remainder1", "sorted", "np.sqrt") and n.args:
                yield f"L{ln} drop {nm}", replace(k, lambda m: m.args[0])
            for j, kw in enumerate(n.keywords):
                def f(m, j=j): m.keywords = [x for i, x in enumerate(m.keywords) if i != j]
                yield f"L{ln} drop kw {kw.arg} of {nm}", with_mut(k, f)
            if len(n.args) == 2:
                def f(m): m.args = m.args[::-1]
                yield f"L{ln} swap args of {nm}", with_mut(k, f)
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("conj",) and not n.args:
                yield f"L{ln} drop .conj()", replace(k, lambda m: m.func.value)
        elif isinstance(n, ast.Attribute) and n.attr == "T":
            yield f"L{ln} drop .T", replace(k, lambda m: m.value)
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.ctx, ast.Load):
            def f(m): m.slice.elts = m.slice.elts[::-1]
            yield f"L{ln} swap idx {ast.unparse(n)}", with_mut(k, f)
        elif isinstance(n, ast.If):
            yield f"L{ln} if->True", with_mut(k, lambda m: setattr(m, "test", ast.Constant(True)))
            yield f"L{ln} if->False", with_mut(k, lambda m: setattr(m, "test", ast.Constant(False)))
        elif isinstance(n, (ast.Raise,)):
            yield f"L{ln} drop raise", replace(k, lambda m: ast.Pass())
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield f"L{ln} drop {type(n).__name__}", replace(k, lambda m: ast.Pass())
        elif isinstance(n, ast.AugAssign):
            yield f"L{ln} drop augassign", replace(k, lambda m: ast.Pass())

if __name__ == "__main__":
    ref, code = "/tmp/ref", "/repo/src/spgrep"
    import os
    ref = os.environ.get("REF", ref)
    fns = sys.argv[1:] or list(SIGS)
    C = Comparer(ref, code)
    tot = {}
    for f in fns:
        m, fd = C.code.find(f)
        cnt = {"DIFF": 0, "UND": 0, "EQ": 0}
        t0 = time.time()
        out = []
        for desc, mf in mutants(fd):
            if mf is None: continue
            m.funcs[f] = mf
            T.LIMIT[0]=1<<60; C.cache = {k: v for k, v in C.cache.items() if k[0] == id(C.spec)}
            print("      ..", desc, file=sys.stderr, flush=True); r, info = C.compare(f)
            cnt[r.v] += 1
            out.append((r.v, desc, r.why[:2], info.get("notes")))
            if time.time() - t0 > 900: out.append(("--", "time", (), None)); break
        m.funcs[f] = fd
        print(f"## {f}: {cnt} {time.time()-t0:.0f}s", flush=True)
        for v, d, w, nt in out:
            if v != "DIFF" or "-v" in sys.argv:
                print("   ", v, d, [x[:150] for x in w][:2] if v != "EQ" else "", (nt or "")and str(nt)[:100], flush=True)
