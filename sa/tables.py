"""Checks of literal tables, read from the syntax tree (nothing is imported or run)."""
from __future__ import annotations

import ast

from .diff import DIFF, EQ, UND


class Lit(Exception):
    pass


def module_literals(mod):
    """name -> literal value of module-level assignments that are written as literals."""
    out, bad = {}, {}
    for st in mod.tree.body:
        tg = None
        if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
            tg, val = st.targets[0].id, st.value
        elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.value is not None:
            tg, val = st.target.id, st.value
        if tg is None:
            continue
        try:
            out[tg] = (ast.literal_eval(val), st.lineno, val)
        except Exception as e:
            bad[tg] = str(e)
    return out, bad


def find_table(prog, name):
    for m in prog.mods.values():
        lits, _ = module_literals(m)
        if name in lits:
            return m, lits[name]
    return None, None


# ---------------------------------------------------------------------- integer matrices
ID = ((1, 0, 0), (0, 1, 0), (0, 0, 1))


def mul(a, b):
    return tuple(tuple(sum(a[i][k] * b[k][j] for k in range(3)) for j in range(3)) for i in range(3))


def det(a):
    return (
        a[0][0] * (a[1][1] * a[2][2] - a[1][2] * a[2][1])
        - a[0][1] * (a[1][0] * a[2][2] - a[1][2] * a[2][0])
        + a[0][2] * (a[1][0] * a[2][1] - a[1][1] * a[2][0])
    )


def trace(a):
    return a[0][0] + a[1][1] + a[2][2]


def closure(gens, cap=200):
    g = {ID}
    todo = [ID]
    while todo:
        x = todo.pop()
        for h in gens:
            y = mul(x, h)
            if y not in g:
                g.add(y)
                todo.append(y)
                if len(g) > cap:
                    raise Lit("not a finite crystallographic group")
    return frozenset(g)


_TYPE = {(3, 1): "1", (-1, 1): "2", (0, 1): "3", (1, 1): "4", (2, 1): "6",
         (-3, -1): "-1", (1, -1): "m", (0, -1): "-3", (-1, -1): "-4", (-2, -1): "-6"}


def census(g):
    out: dict = {}
    for m in g:
        t = _TYPE.get((trace(m), det(m)))
        out[t] = out.get(t, 0) + 1
    return out


def inv_of(m, g):
    for x in g:
        if mul(m, x) == ID:
            return x
    return None


# Standard settings of the 32 point groups, by generators.  Names: rotation axis/plane normal.
_c2 = {"a": ((1, 0, 0), (0, -1, 0), (0, 0, -1)), "b": ((-1, 0, 0), (0, 1, 0), (0, 0, -1)), "c": ((-1, 0, 0), (0, -1, 0), (0, 0, 1))}


def neg(m):
    return tuple(tuple(-x for x in r) for r in m)


_m = {k: neg(v) for k, v in _c2.items()}
_i = neg(ID)
_c4 = ((0, -1, 0), (1, 0, 0), (0, 0, 1))
_c3 = ((0, -1, 0), (1, -1, 0), (0, 0, 1))
_c6 = ((1, -1, 0), (1, 0, 0), (0, 0, 1))
_c3d = ((0, 0, 1), (1, 0, 0), (0, 1, 0))
_d2 = ((0, 1, 0), (1, 0, 0), (0, 0, -1))       # x,y -> y,x : 2_110 (tetragonal/cubic), hexagonal 2_110
_h2 = ((0, -1, 0), (-1, 0, 0), (0, 0, -1))     # -y,-x,-z : hexagonal 2_1-10

STANDARD = {
    "1": [[]],
    "-1": [[_i]],
    "2": [[_c2[x]] for x in "abc"],
    "m": [[_m[x]] for x in "abc"],
    "2/m": [[_c2["b"], _i]],
    "222": [[_c2["a"], _c2["b"]]],
    "mm2": [[_c2["a"], _m["b"]], [_c2["b"], _m["a"]], [_c2["c"], _m["a"]]],
    "mmm": [[_c2["a"], _c2["b"], _i]],
    "4": [[_c4]],
    "-4": [[neg(_c4)]],
    "4/m": [[_c4, _i]],
    "422": [[_c4, _c2["a"]]],
    "4mm": [[_c4, _m["a"]]],
    "-42m": [[neg(_c4), _c2["a"]], [neg(_c4), _m["a"]]],
    "4/mmm": [[_c4, _c2["a"], _i]],
    "3": [[_c3]],
    "-3": [[_c3, _i]],
    "32": [[_c3, _h2], [_c3, _d2]],
    "3m": [[_c3, neg(_h2)], [_c3, neg(_d2)]],
    "-3m": [[_c3, _h2, _i], [_c3, _d2, _i]],
    "6": [[_c6]],
    "-6": [[neg(_c6)]],
    "6/m": [[_c6, _i]],
    "622": [[_c6, _d2]],
    "6mm": [[_c6, neg(_d2)]],
    "-6m2": [[neg(_c6), neg(_d2)], [neg(_c6), _d2]],
    "6/mmm": [[_c6, _d2, _i]],
    "23": [[_c2["a"], _c2["b"], _c3d]],
    "m-3": [[_c2["a"], _c2["b"], _c3d, _i]],
    "432": [[_c4, _c2["a"], _c3d]],
    "-43m": [[neg(_c4), _c2["a"], _c3d]],
    "m-3m": [[_c4, _c2["a"], _c3d, _i]],
}


def check_pointgroup_tables(prog):
    """Obligations over the point-group table and the solvable-chain table.  Yields dicts."""
    m, ds = find_table(prog, "pg_dataset")
    m2, ch = find_table(prog, "pg_solvable_chain")
    if ds is None or ch is None:
        yield {"ob": "tables", "verdict": UND, "why": "tables are not written as module-level literals"}
        return
    (D, dl, _), (C, cl, _) = ds, ch
    where = f"{m.path}:{dl}"
    where2 = f"{m2.path}:{cl}"
    try:
        sets = {}
        for sym, settings in D.items():
            for i, ops in enumerate(settings):
                sets[sym, i] = [tuple(tuple(int(x) for x in r) for r in o) for o in ops]
    except Exception:
        yield {"ob": "tables", "verdict": UND, "why": "unexpected layout of the point-group table"}
        return

    def ob(name, ok, why, w=where):
        return {"ob": name, "verdict": EQ if ok else DIFF, "why": why, "where": w}

    for sym, gens in STANDARD.items():
        yield ob(f"{sym}: tabulated", sym in D, f"point group {sym} is missing from the table")
        if sym not in D:
            continue
        want = {closure(g) for g in gens}
        have = {frozenset(sets[sym, i]) for i in range(len(D[sym]))}
        yield ob(f"{sym}: settings", want <= have,
                 f"point group {sym}: {len(want - have)} of the standard settings is not matched by any tabulated setting")
    for (sym, i), ops in sets.items():
        g = set(ops)
        lab = f"{sym}[{i}]"
        yield ob(f"{lab}: distinct", len(g) == len(ops), f"{lab}: repeated operation")
        yield ob(f"{lab}: closed", ID in g and all(mul(a, b) in g for a in g for b in g), f"{lab}: not closed under multiplication")
        if sym in STANDARD:
            std = closure(STANDARD[sym][0])
            yield ob(f"{lab}: type", census(g) == census(std), f"{lab}: operations {census(g)} are not those of point group {sym}")
        if sym not in C:
            if sym != "1":
                yield ob(f"{lab}: chain", False, f"{sym}: no chain entry", where2)
            continue
        if sym == "1":
            continue
        if i >= len(C[sym]):
            yield ob(f"{lab}: chain", False, f"{lab}: no chain entry for this setting", where2)
            continue
        try:
            (sub, j), gen = C[sym][i]
            H = sets.get((sub, j))
        except Exception:
            yield {"ob": f"{lab}: chain", "verdict": UND, "why": "unexpected layout of the chain table"}
            continue
        # the generators down the chain index the operations of this setting
        gens, s2, j2 = [], sym, i
        ok = True
        while s2 != "1":
            try:
                (s3, j3), gg = C[s2][j2]
            except Exception:
                ok = False
                break
            gens.append(gg)
            s2, j2 = s3, j3
            if len(gens) > 10:
                ok = False
                break
        yield ob(f"{lab}: chain ends", ok, f"{lab}: the chain does not end in the trivial group", where2)
        if not ok:
            continue
        okidx = all(isinstance(x, int) and 0 <= x < len(ops) for x in gens)
        yield ob(f"{lab}: indices", okidx, f"{lab}: chain generators {gens} are not indices of its operations", where2)
        if not okidx:
            continue
        seq = [ops[x] for x in gens]
        K = frozenset([ID])
        series = [K]
        for x in reversed(seq):
            K2 = closure(list(K) + [x])
            norm = all(mul(mul(x, h), inv_of(x, K2)) in K for h in K)
            yield ob(f"{lab}: normal step {len(series)}", norm, f"{lab}: adding operation {x} does not normalise the subgroup of order {len(K)}", where2)
            # quotient generated by x: order p is the least power of x inside K
            p, y = 1, x
            while y not in K:
                y = mul(y, x)
                p += 1
            yield ob(f"{lab}: split step {len(series)}", y == ID,
                     f"{lab}: power {p} of operation {x} lies in the subgroup of order {len(K)} but is not the identity; the induction takes the order of the generator for the order of the quotient", where2)
            yield ob(f"{lab}: cyclic step {len(series)}", len(K2) == p * len(K) and p > 1,
                     f"{lab}: operation {x} does not extend the subgroup of order {len(K)} by a cyclic quotient", where2)
            prime = p > 1 and all(p % q for q in range(2, p))
            yield ob(f"{lab}: prime step {len(series)}", prime or len(K) == 1,
                     f"{lab}: quotient of order {p} over the non-trivial subgroup of order {len(K)}: a cyclic induction step needs a prime quotient there", where2)
            K = K2
            series.append(K)
        yield ob(f"{lab}: generates", K == frozenset(ops), f"{lab}: the chain generates a group of order {len(K)}, not {len(ops)}", where2)
        if H is not None and gen < len(ops):
            yield ob(f"{lab}: subgroup", frozenset(H) <= frozenset(ops), f"{lab}: {sub}[{j}] is not a subgroup", where2)


if __name__ == "__main__":
    import sys
    from .lift import Program
    n = 0
    for o in check_pointgroup_tables(Program(sys.argv[1])):
        n += 1
        if o["verdict"] != EQ:
            print(o)
    print(n)
