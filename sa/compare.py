"""Compare every analysed function of the code with its reference definition."""
from __future__ import annotations

import ast
import os
import sys
import time

from . import edits
from . import terms as T
from .diff import DIFF, EQ, UND, Diff, R, any_of, dif, one_integer, sh, size_cond, solve, und
from .lift import Lifter, Program, modes_of
from .sigs import SIGS
from .values import reify

sys.setrecursionlimit(30000)


class Lifted:
    def __init__(self, prog, fname, inline=frozenset(), mode=None):
        self.ok = False
        self.why = ""
        m, d = prog.find(fname)
        self.mod, self.fdef = m, d
        if d is None:
            self.why = "not found"
            return
        L = Lifter(prog, SIGS, inline=set(inline))
        try:
            v, ev, fr = L.lift(m, d, SIGS.get(fname), mode)
            t = reify(v)
            self.value = t
            self.raises = {}
            self.unbound = T.FALSE
            self.warns = T.FALSE
            for e in ev:
                if e.kind == "raise" and not e.implicit:
                    self.raises[e.typ] = T.or_(self.raises.get(e.typ, T.FALSE), e.cond)
                elif e.kind == "unbound":
                    self.unbound = T.or_(self.unbound, e.cond)
                elif e.kind == "warn":
                    self.warns = T.or_(self.warns, e.cond)
            self.lines = {(e.typ or e.kind): e.line for e in ev}
            self.mut = {}
            fe = fr.final_env
            params = [a.arg for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs]
            sigp = [n for n, _ in SIGS[fname].params] if fname in SIGS else params
            for k, p in enumerate(params):
                a, b = fe.get("#param:" + p), fr.__dict__.get("params0", {}).get(p)
                q = sigp[k] if p not in sigp and k < len(sigp) else p
                if a is not None:
                    self.mut[q] = reify(a)
            self.calls = set(L.used_calls)
            self.visited = set(L.visited)
            self.notes = list(L.notes)
            self.ok = True
        except RecursionError:
            self.why = "recursion limit"
        except Exception as e:  # an unsupported construct never becomes an alarm
            import traceback

            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.why = f"{type(e).__name__}: {e} @ {tb.filename.split('/')[-1]}:{tb.lineno}"


def raise_any(l):
    r = T.FALSE
    for c in l.raises.values():
        r = T.or_(r, c)
    return r


def guard(t, dc):
    """Value with the don't-care set (raising inputs) collapsed."""
    if dc is T.FALSE or dc.op == "opaque":
        return t
    if t.op == "tup":
        return T.mk("tup", *[guard(x, dc) for x in t.args])
    return T.ite(dc, T.NONE, t)


def size_equalities(dc, cap=8):
    """Equalities between sizes that hold on every input that is not rejected."""
    if dc.op != "ite":
        return []
    atoms, todo, seen = [], [dc], set()
    while todo:
        x = todo.pop()
        if x in seen or x.op != "ite":
            continue
        seen.add(x)
        if x.args[0].op == "eq0" and x.args[0] not in atoms and size_cond(x.args[0]):
            atoms.append(x.args[0])
        todo += x.args[1:]
    out = []
    for a in atoms[:cap]:
        if T.restrict(dc, a, False) is T.TRUE:
            out.append(a.args[0])
    return out


def apply_equalities(t, eqs):
    for p in eqs:
        m = solve(p)
        if m:
            t = T.subst(t, m)
    return t


def comps(t):
    return list(t.args) if t.op == "tup" else [t]


def pushtup(t):
    """ite of equally long tuples -> tuple of ites (componentwise comparison)."""
    if t.op != "ite":
        return t
    leaves = []

    def walk(x, seen):
        if x in seen:
            return
        seen.add(x)
        if x.op == "ite":
            walk(x.args[1], seen)
            walk(x.args[2], seen)
        else:
            leaves.append(x)

    walk(t, set())
    lens = {len(x.args) if x.op == "tup" else -1 for x in leaves if x.op != "none"}
    if len(lens) != 1 or -1 in lens or any(x.op == "none" for x in leaves):
        return t
    (n,) = lens

    def proj(x, k):
        if x.op == "ite":
            return T.ite(T.cond_atom(x.args[0]), proj(x.args[1], k), proj(x.args[2], k))
        return x.args[k]

    return T.mk("tup", *[proj(t, k) for k in range(n)])


def opaque_reason(t):
    return next((str(x.args[0]) for x in T.subnodes(t) if x.op == "opaque"), "?")


ASPECTS = ("value", "raise", "mutation", "warn", "defaults")


def compare_lifted(s, c, D=None) -> dict:
    """Verdict per observable aspect of a call: result, rejected inputs, final state of the arguments, warnings."""
    D = D or Diff()
    if not s.ok or not c.ok:
        r = und("not lifted: " + (s.why or c.why))
        return {"value": r, "raise": r, "mutation": r, "warn": r}
    raises, muts = [], []
    for typ in sorted(set(s.raises) | set(c.raises)):
        a, b = s.raises.get(typ, T.FALSE), c.raises.get(typ, T.FALSE)
        if a is not b:
            r = D.diff(a, b)
            if b is T.FALSE and not a.opaque:
                r = dif(f"{typ} is never raised; expected when {sh(a)}")
            if a is T.FALSE and r.v == DIFF and (b.hard or b.opaque):
                r = R(UND, r.why)
            raises.append(r.at(f"raise {typ}"))
    u = T.and_(c.unbound, T.not_(T.or_(s.unbound, raise_any(s))))
    if u is not T.FALSE:
        raises.append(und("a local variable is not assigned when " + sh(u)))
    dc = T.or_(raise_any(s), raise_any(c))
    eqs = size_equalities(raise_any(s))
    if not eqs or size_equalities(raise_any(c)) != eqs:
        eqs = size_equalities(dc)
    fix = lambda t: apply_equalities(t, eqs) if eqs else t
    sv, cv = pushtup(fix(s.value)), pushtup(fix(c.value))
    dc = fix(dc)
    value = und("not modelled: " + opaque_reason(cv)) if cv.opaque else R(EQ)
    if sv is not cv:
        sv, cv = guard(sv, dc), guard(cv, dc)
        w = one_integer(sv, cv)
        value = dif(w) if w else D.diff(sv, cv)
        if w == "" and value.v == DIFF:
            value = R(UND, value.why)
        value = value.at("return ")
    for p in s.mut:
        if p in c.mut and s.mut[p] is not c.mut[p]:
            a, b = guard(fix(s.mut[p]), dc), guard(fix(c.mut[p]), dc)
            if a is not b:
                r = D.diff(a, b)
                muts.append(r.at(f"final value of parameter {p} "))
    warn = R(EQ)
    sw, cw = fix(s.warns), fix(c.warns)
    if sw is not cw:
        r = D.diff(sw, cw)
        if c.warns is T.FALSE and not s.warns.opaque:
            r = dif(f"warning no longer issued when {sh(s.warns)}")
        elif r.v == DIFF:
            r = R(UND, r.why)
        warn = r.at("warning ")
    return {"value": value, "raise": any_of(raises), "mutation": any_of(muts), "warn": warn}


def option_strings(l) -> set:
    """The strings an option is compared with anywhere in a lifted function."""
    out = set()
    if l.ok:
        for t in [l.value, l.warns, *l.raises.values(), *l.mut.values()]:
            for x in T.subnodes(t):
                if x.op == "eqv" and len(x.args) == 2 and any(a.op == "strsym" for a in x.args):
                    out |= {a.args[0] for a in x.args if a.op == "str"}
    return out


def overall(rs: dict) -> R:
    return any_of(list(rs.values()))


def const_default(node):
    try:
        return ast.literal_eval(node)
    except Exception:
        return ast.dump(node)


def defaults_of(fdef):
    a = fdef.args
    pos = a.posonlyargs + a.args
    out = {}
    for p, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
        out[p.arg] = const_default(d)
    for p, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            out[p.arg] = const_default(d)
    return [p.arg for p in pos] + [p.arg for p in a.kwonlyargs], out


def compare_defaults(s, c, fname) -> R:
    rs = []
    if fname.startswith("_") or s.fdef is None or c.fdef is None:
        return R(EQ)
    sn, sd = defaults_of(s.fdef)
    cn, cd = defaults_of(c.fdef)
    for p in sd:
        if p in cn:
            if p not in cd:
                rs.append(dif(f"parameter {p} lost its default {sd[p]!r}"))
            elif sd[p] != cd[p]:
                if isinstance(sd[p], (int, float, bool, type(None))) and isinstance(cd[p], (int, float, bool, type(None))):
                    rs.append(dif(f"default of {p} is {cd[p]!r} instead of {sd[p]!r}"))
                elif sd[p] != cd[p]:
                    rs.append(und(f"default of {p}: {cd[p]!r} / {sd[p]!r}"))
    return any_of(rs)


def call_signatures(prog):
    """Parameter names and default expressions of every function of a program."""
    sigs = {}
    for m in prog.mods.values():
        for n, d in m.funcs.items():
            names, _ = defaults_of(d)
            a = d.args
            pos = a.posonlyargs + a.args
            defs = {p.arg: v for p, v in zip(pos[len(pos) - len(a.defaults) :], a.defaults)}
            defs.update({p.arg: v for p, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            sigs[n] = (names, defs)
    return sigs


class Comparer:
    def __init__(self, specdir, codedir, certdir=None):
        self.spec = Program(specdir)
        self.code = Program(codedir)
        self.cert = Program(certdir) if certdir else None
        self.cache: dict = {}
        self.ifaces: dict = {}

    def changed_functions(self, fname):
        """fname and the helpers without a reference of their own it uses, as far as they differ from the certified source."""
        seen, todo, out = set(), [fname], []
        while todo:
            f = todo.pop()
            if f in seen:
                continue
            seen.add(f)
            _m, a = self.cert.find(f)
            m, b = self.code.find(f)
            if b is None:
                continue
            if a is None or ast.dump(a) != ast.dump(b):
                out.append((f, m, a, b))
            for d in (a, b):
                if d is not None:
                    todo += [x.id for x in ast.walk(d) if isinstance(x, ast.Name) and x.id not in SIGS and x.id not in seen]
        return out

    def edit(self, fname):
        """The one point at which the current source of fname departs from the certified source (see sa/edits.py)."""
        if self.cert is None:
            return None
        sigs = self.signatures()
        globs = set(call_signatures(self.cert))
        ch = [(f, m, a, b, edits.one_point(a, b, sigs, globs)) for f, m, a, b in self.changed_functions(fname)]
        ch = [x for x in ch if not edits.same(x[2], x[3], sigs)]
        if len(ch) != 1 or ch[0][4] is None:
            return None
        return ch[0][0], ch[0][1], ch[0][4]

    def signatures(self):
        sigs, csigs = call_signatures(self.cert), call_signatures(self.code)
        return {n: (names, defs, csigs[n]) for n, (names, defs) in sigs.items() if n in csigs}

    def interface_changed(self, fname):
        """Whether an internal helper takes other parameters, or returns something else to callers that changed with it."""
        if fname not in self.ifaces:
            self.ifaces[fname] = self._interface_changed(fname)
        return self.ifaces[fname]

    def _interface_changed(self, fname):
        if self.cert is None:
            return False
        a, b = self.cert.find(fname)[1], self.code.find(fname)[1]
        if a is None or b is None or ast.dump(a) == ast.dump(b):
            return False
        if sorted(defaults_of(a)[0]) != sorted(defaults_of(b)[0]):
            return True
        sigs = self.signatures()
        if edits.same(a, b, sigs):
            return False
        for m in self.code.mods.values():
            for n, d in m.funcs.items():
                if n != fname and any(isinstance(x, ast.Name) and x.id == fname for x in ast.walk(d)):
                    c = self.cert.find(n)[1]
                    if c is None or not edits.same(c, d, sigs):
                        s, c = self.lifted(self.spec, fname), self.lifted(self.code, fname)
                        return overall(compare_lifted(s, c)).v != EQ
        return False

    def changed_interfaces(self, calls):
        return frozenset(f for f in calls if f.startswith("_") and f in SIGS and self.interface_changed(f))

    def small(self, fname):
        """Functions worth expanding at their call sites when the two versions call different functions."""
        n = 0
        for prog in (self.spec, self.code):
            _m, d = prog.find(fname)
            if d is not None:
                n = max(n, sum(isinstance(x, ast.stmt) for x in ast.walk(d)))
        return n <= 25

    def lifted(self, prog, fname, inline=frozenset(), mode=None):
        k = (id(prog), fname, inline, tuple(sorted(mode.items())) if mode else ())
        if k not in self.cache:
            self.cache[k] = Lifted(prog, fname, inline, mode)
        return self.cache[k]

    def by_modes(self, fname, info):
        """Compare the two versions configuration by configuration."""
        out: dict = {}
        n = 0
        base = [self.lifted(p, fname) for p in (self.spec, self.code)]
        strings = sorted(set().union(*[option_strings(b) for b in base]))
        for mode in modes_of(SIGS[fname], strings=tuple(strings)) if fname in SIGS else []:
            s = self.lifted(self.spec, fname, mode=mode)
            c = self.lifted(self.code, fname, mode=mode)
            tag = ", ".join(f"{k}={v}" for k, v in mode.items())
            for asp, r in compare_lifted(s, c).items():
                out.setdefault(asp, []).append(r if r.v == EQ else r.at(f"[{tag}] "))
            n += 1
        info["configurations"] = n
        return {a: any_of(rs) for a, rs in out.items()} if n else None

    def compare(self, fname, nodes=3_000_000, seconds=240) -> tuple:
        """Verdict for one function within a budget; running out of budget is never an alarm."""
        T.set_budget(nodes, seconds)
        try:
            return self._compare(fname)
        except T.Budget as e:
            why = f"analysis budget exceeded ({e})"
        except RecursionError:
            why = "recursion limit"
        finally:
            T.LIMIT[0], T.LIMIT[1] = 1 << 60, None
        return und(why), {"function": fname, "verdict": UND, "why": [why]}

    def _compare(self, fname) -> tuple:
        t0 = time.time()
        s = self.lifted(self.spec, fname)
        c = self.lifted(self.code, fname)
        info = {"function": fname, "attempts": 1}
        if s.fdef is None:
            info["verdict"] = UND
            return und("no reference definition"), info
        if c.fdef is None:
            info["verdict"] = UND
            return und("function not found in the code"), info
        info["file"] = c.mod.path
        info["line"] = c.fdef.lineno
        inline: frozenset = self.changed_interfaces(s.calls | c.calls)
        if inline:
            # an internal helper is called in another way: compare with it expanded on both sides
            s, c = self.lifted(self.spec, fname, inline), self.lifted(self.code, fname, inline)
            info["expanded"] = sorted(inline)
        best = compare_lifted(s, c)
        if inline:
            best = {a: R(UND, r.why) if r.v == DIFF else r for a, r in best.items()}
        if fname.startswith("_") and overall(best).v != EQ and self.interface_changed(fname):
            inline = frozenset([fname])
            best = {a: und("the internal interface of this helper changed; its callers are compared with it expanded") for a in best}
        for _ in range(0 if inline else 3):
            if overall(best).v == EQ or not (s.ok and c.ok):
                break
            extra = {f for f in (s.calls ^ c.calls) - inline if self.small(f)}
            if not extra:
                break
            inline = inline | frozenset(extra)
            s = self.lifted(self.spec, fname, inline)
            c = self.lifted(self.code, fname, inline)
            info["attempts"] += 1
            r2 = compare_lifted(s, c)
            for a in best:
                # fewer opaque call boundaries: the finer comparison decides, an undecided one withdraws
                if r2[a].v == EQ or best[a].v == UND:
                    best[a] = r2[a]
        if overall(best).v != EQ and not inline:
            # every option fixed: decided configurations settle an undecided comparison, and confirm a difference
            r3 = self.by_modes(fname, info)
            if r3 is not None:
                for a in best:
                    if best[a].v != EQ and (best[a].v == UND or r3[a].v != DIFF):
                        best[a] = r3[a]
        best["defaults"] = compare_defaults(s, c, fname)
        if overall(best).v == UND and not inline:
            e = self.edit(fname)
            if e is not None:
                where, m, ed = e
                r = dif(f"{where} ({m.path}) {ed}; everything else is as in the source proved equal to the reference, and the edit is not shown irrelevant")
                und_ = [a for a in ("value", "raise", "mutation", "warn") if best[a].v == UND]
                first = [a for a in und_ if a == "raise"] if ed.guard else []
                for a in first or und_[:1]:
                    best[a] = r
                info["edit"] = str(ed)
        info["aspects"] = {a: {"verdict": r.v, "why": list(r.why)} for a, r in best.items()}
        best = overall(best)
        info["verdict"] = best.v
        info["why"] = list(best.why)
        info["size"] = sum(1 for _ in T.subnodes(c.value)) if c.ok else 0
        info["wall_s"] = round(time.time() - t0, 2)
        info["notes"] = (c.notes if c.ok else [c.why])[:3]
        info["calls"] = sorted(c.calls) if c.ok else []
        info["visited"] = sorted(map(str, c.visited))[:30] if c.ok else []
        return best, info


if __name__ == "__main__":
    specdir, codedir = sys.argv[1:3]
    C = Comparer(specdir, codedir, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "certified"))
    fns = sys.argv[3:] or list(SIGS)
    for f in fns:
        r, info = C.compare(f)
        print(f"{r.v:5} {f} {info.get('wall_s')}s")
        if r.v != EQ:
            for w in r.why[:4]:
                print("       ", w[: int(os.environ.get("SHOW", 700))])
