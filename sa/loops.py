"""Symbolic loops: closed forms (sums, quantifiers, comprehensions, guarded stores) where the update
is recognised, an uninterpreted ``fold``/``while`` node over the state equations otherwise."""
from __future__ import annotations

import ast

from . import terms as T
from .terms import FALSE, NONE, ONE, TRUE, ZERO, atom, mk
from .values import *  # noqa: F401,F403
from . import npmodel


def assigned_names(body):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(stmts):
        for s in stmts:
            if isinstance(s, ast.Assign):
                for t in s.targets:
                    tgt(t)
            elif isinstance(s, (ast.AugAssign, ast.AnnAssign)):
                tgt(s.target)
            elif isinstance(s, ast.For):
                tgt(s.target)
            elif isinstance(s, ast.FunctionDef):
                if s.name not in out:
                    out.append(s.name)
                continue
            elif isinstance(s, ast.With):
                for it in s.items:
                    if it.optional_vars is not None:
                        tgt(it.optional_vars)
            for e in ast.walk(s):
                if isinstance(e, ast.NamedExpr):
                    tgt(e.target)
            for f in ("body", "orelse", "finalbody"):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    walk(b)
            for h in getattr(s, "handlers", []) or []:
                walk(h.body)

    walk(body)
    return out


class Uns(Exception):
    pass


def eqval(a, b):
    if same(a, b):
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, (Fn, BI)):
        return False
    try:
        x, y = reify(a), reify(b)
    except RecursionError:
        raise
    return x is y and x.op != "opaque"


class SymLoop:
    def __init__(self, L, s, dom, env, pc, fr):
        self.L, self.s, self.dom, self.env, self.pc, self.fr = L, s, dom, env, pc, fr

    # ------------------------------------------------------------------------------
    def run(self):
        L, s, env, pc, fr = self.L, self.s, self.env, self.pc, self.fr
        names = assigned_names(s.body)
        if isinstance(s, ast.For):
            tn = assigned_names([ast.Assign(targets=[s.target], value=None)])
        else:
            tn = []
        muts = L.mutated_names([s], fr.mod)
        # aliases of mutated names
        groups = {env.alias.get(m) for m in muts if env.alias.get(m)}
        for k, g in env.alias.items():
            if g in groups:
                muts.add(k)
        # containers linked to loop elements of outer loops
        todo = list(muts)
        while todo:
            for x, _ in env.elem.get(todo.pop(), ()):
                if x not in muts:
                    muts.add(x)
                    todo.append(x)
        self.assigned = [n for n in names if n not in tn]
        cand = []
        for n in list(env):
            if (n in names or n in muts) and n not in tn:
                cand.append(n)
        # names bound to one object that is only changed in place share one state
        self.twins = {}
        for k in list(cand):
            g = env.alias.get(k)
            if k.startswith("#param:") and g is not None and k not in names:
                rep = next((r for r in cand if not r.startswith("#") and r not in names and env.alias.get(r) == g and env[r] is env[k]), None)
                if rep is not None:
                    self.twins[k] = rep
                    cand.remove(k)
        # views are read off the array they are part of
        self.derived = []
        while True:
            taken = {k for k, _, _ in self.derived}
            k = next(
                (
                    k
                    for k in cand
                    if len(env.elem.get(k, ())) == 1 and env.elem[k][0][1] is not None and k not in names and env.elem[k][0][0] not in names
                    and (env.elem[k][0][0] in taken or env.elem[k][0][0] in cand and env.elem[k][0][0] not in env.elem)
                ),
                None,
            )
            if k is None:
                break
            self.derived.append((k,) + env.elem[k][0])
            cand.remove(k)
        if self.dom[0] == "opaque":
            return self.havoc(cand, names, tn)
        self.cand = cand
        self.tn = tn
        if self.dom[0] == "while":
            self.n = None
            self.i = T.new_ix(None)
            self.kind = "while"
        else:
            self.n = self.dom[1]
            if self.n.op == "opaque":
                return self.havoc(cand, names, tn)
            self.kind = "for"
            if T.as_int(self.n) == 0:
                return env, pc
            self.i = T.new_ix(self.n)
        # which candidates really change (optimistic iteration)
        hints = L.__dict__.setdefault("loop_hints", {})
        state: list = [k for k in hints.get(id(s), ()) if k in cand]
        states: dict = {}
        for _ in range(8):
            states = {k: self.mkstate(k, env[k]) for k in state} if not states else {
                k: states[k] if k in states else self.mkstate(k, env[k]) for k in state
            }
            res = self.one_pass(states)
            changed = [
                k
                for k in cand
                if k not in state and res["live"] and not eqval(res["out"].get(k), env.get(k))
            ]
            # list element types learnt from the body
            relearn = False
            for k in state:
                if self.refine_state(k, states, res):
                    relearn = True
            if not changed and not relearn:
                break
            state += changed
        else:
            return self.havoc(cand, names, tn)
        self.state, self.states, self.res = state, states, res
        hints[id(s)] = tuple(state)
        try:
            nret = len(fr.rets)
            e, p = self.solve()
            for k in names + tn:
                e.unb.pop(k, None)
            for k, r in self.twins.items():
                e[k] = e[r]
            self.derive(e)
            for c, v, e2 in fr.rets[nret:]:
                for k, r in self.twins.items():
                    if e2 is not env and r in e2:
                        e2[k] = e2[r]
                if e2 is not env:
                    self.derive(e2)
            return e, p
        except Uns as e:
            L.note(fr, s, "loop: " + str(e))
            return self.havoc(cand, names, tn)

    def derive(self, e):
        for k, base, idxs in self.derived:
            x = e[base]
            for i in idxs:
                x = npmodel.getitem(x, i, self.L)
            e[k] = x

    def havoc(self, cand, names, tn):
        env = self.env
        for k in list(cand) + list(names) + list(tn) + list(self.twins) + [k for k, _, _ in self.derived]:
            env[k] = ob("loop")
            env.alias.pop(k, None)
            env.unb.pop(k, None)
        # a return inside an uninterpreted loop
        for n in ast.walk(self.s):
            if isinstance(n, ast.Return):
                self.fr.rets.append((T.and_(self.pc, T.cond_atom(T.opaque("loop return"))), ob("loop return"), env))
                break
        for n in ast.walk(self.s):
            if isinstance(n, ast.Raise):
                self.fr.events.append(_ev("raise", "?", T.cond_atom(T.opaque("loop raise")), n.lineno))
        return env, self.pc

    # ------------------------------------------------------------------------------
    def mkstate(self, k, v):
        """Symbolic value at the start of an iteration: (value, [symbols], shape tag)."""
        if isinstance(v, Sc):
            srt = leaf_sort(v.t)
            if srt == "obj":
                if v.t is NONE:
                    st = T.new_st("sc", "int")
                    return StV(self.optsc(st, "int"), [st], ("optsc", "int"))
                st = T.new_st("obj", "obj")
                return StV(Obj(st), [st], ("obj",))
            if srt == "bool":
                st = T.new_st("sc", "bool")
                return StV(Sc(T.cond_atom(st)), [st], ("sc", "bool"))
            st = T.new_st("sc", srt)
            return StV(Sc(atom(st)), [st], ("sc", srt))
        if isinstance(v, Arr):
            ty = typeof(v)
            st = T.new_st("arr", ty[2] if ty[2] != "obj" else "complex")
            if ty[2] == "bool":
                val = Arr(v.dims, lambda idx: as_bool_el(T.el(st, idx)), v.nd)
            else:
                val = Arr(v.dims, lambda idx: T.el(st, idx), v.nd, term=st)
            if not v.nd:
                # possibly a list under construction
                return StV(val, [st], ("listarr", v.rank, ty[2]), init=v)
            return StV(val, [st], ("arr", v.rank, st.args[2] if ty[2] != "bool" else "bool", v.dims))
        if isinstance(v, Rng):
            st = T.new_st("sc", "int")
            return StV(Rng(atom(st)), [st], ("rng",))
        if isinstance(v, Tup) and v.lst:
            st = T.new_st("list", "obj")
            if v.items and not isinstance(v.items[0], Sc):
                e = typeof(v.items[0])
                return StV(Seq(T.lenof(st), lambda i: reflect(e, T.item(st, i, sort_tag(e))), term=st), [st], ("list", e))
            if v.items:
                ty = typeof(v)
                if ty[0] == "arr" and ty[2] in ("bit", "int", "real", "complex"):
                    st = T.new_st("list", ty[2])
                    return StV(reflect(ty, st), [st], ("list", ("sc", ty[2])))
            return StV(Obj(st, "list"), [st], ("list", None))
        if isinstance(v, Tup):
            parts = [self.mkstate(k, x) for x in v.items]
            return StV(Tup([p.val for p in parts]), [s for p in parts for s in p.syms], ("tup", parts))
        if isinstance(v, LAcc):
            st = T.new_st("list", "obj")
            return StV(Obj(st, "list"), [st], ("list", None))
        if isinstance(v, Seq):
            st = T.new_st("list", "obj")
            e = typeof(v)[1]
            return StV(Seq(T.lenof(st), lambda i: reflect(e, T.item(st, i, sort_tag(e))), term=st), [st], ("list", e))
        if isinstance(v, (DAcc, Dct)):
            st = T.new_st("dict", "obj")
            return StV(DAcc(Obj(st), []), [st], ("dict",))
        if isinstance(v, IteV):
            ty = typeof(v)
            if ty[0] == "opt":
                st = T.new_st("obj", "obj")
                return StV(reflect(ty, st), [st], ("ty", ty))
            a, b = self.mkstate(k, v.a), None
            st = T.new_st("obj", "obj")
            return StV(Obj(st), [st], ("obj",))
        st = T.new_st("obj", "obj")
        return StV(Obj(st, v.ty if isinstance(v, Obj) else None), [st], ("obj",))

    def optsc(self, st, srt):
        return Sc(T.mk_ite(mk("isnone", st), NONE, atom(st)))

    def refine_state(self, k, states, res):
        """Improve the type of a state from its update. Returns True if the pass must be repeated."""
        S = states[k]
        u = res["out"].get(k)
        if u is None:
            return False
        tag = S.tag
        if tag[0] == "list" and tag[1] is None:
            e = None
            while isinstance(u, IteV):
                u = u.a if isinstance(u.a, (LAcc, IteV)) else u.b
            if isinstance(u, LAcc):
                t = typeof(LAcc(Tup([], True), u.parts))
                if t[0] == "arr":
                    e = ("sc", t[2])
                elif t[0] == "seq":
                    e = t[1]
            if e is not None and e[0] in ("sc", "arr", "seq", "tup"):
                st = S.syms[0]
                if e[0] == "sc":
                    if e[1] in ("obj",):
                        return False
                    val = reflect(("arr", 1, e[1], False), st)
                else:
                    val = Seq(T.lenof(st), lambda i: reflect(e, T.item(st, i, sort_tag(e))), term=st)
                states[k] = StV(val, [st], ("list", e))
                return True
            return False
        if tag[0] == "list" and tag[1] is not None:
            w = u
            while isinstance(w, IteV):
                w = w.a if isinstance(w.a, (LAcc, IteV)) else w.b
            if isinstance(w, LAcc):
                w = LAcc(Tup([], True), w.parts)
            t = typeof(w)
            e2 = ("sc", t[2]) if t[0] == "arr" and t[1] == 1 else t[1] if t[0] == "seq" else None
            j = join_type(tag[1], e2)
            if j is not None and j != tag[1]:
                st = S.syms[0]
                if j[0] == "sc":
                    st = T.new_st("list", j[1])
                    val = reflect(("arr", 1, j[1], False), st)
                else:
                    val = Seq(T.lenof(st), lambda i: reflect(j, T.item(st, i, sort_tag(j))), term=st)
                states[k] = StV(val, [st], ("list", j))
                return True
            return False
        if tag[0] == "listarr":
            st = S.syms[0]
            if isinstance(u, LAcc):
                # grows: length is state
                if S.growing:
                    return False
                val = reflect(("arr", tag[1], tag[2], False), st)
                states[k] = StV(val, [st], tag)
                states[k].growing = True
                return True
            return False
        if tag[0] == "sc":
            if isinstance(u, Sc):
                us = leaf_sort(u.t)
                j = join_sort(tag[1], us) if us != "obj" else tag[1]
                if j != tag[1]:
                    st = T.new_st("sc", j)
                    states[k] = StV(Sc(atom(st)), [st], ("sc", j))
                    return True
            return False
        if tag[0] == "arr" and tag[2] != "complex":
            if isinstance(u, Arr):
                us = typeof(u)[2]
                j = join_sort(tag[2], us)
                if j != tag[2] and j in ("int", "real", "complex"):
                    st = T.new_st("arr", j)
                    d = tag[3]
                    states[k] = StV(Arr(d, lambda idx: T.el(st, idx), True, term=st), [st], ("arr", tag[1], j, d))
                    return True
            return False
        if tag[0] == "optsc":
            if isinstance(u, Sc):
                us = "bool"
                for leaf in leaves(u.t):
                    if leaf is not NONE:
                        us = join_sort(us, sort_of(leaf))
                if us in ("real", "complex") and tag[1] == "int":
                    st = T.new_st("sc", us)
                    states[k] = StV(self.optsc(st, us), [st], ("optsc", us))
                    return True
                if us == "obj":
                    st = T.new_st("obj", "obj")
                    states[k] = StV(Obj(st), [st], ("obj",))
                    return True
            elif isinstance(u, IteV):
                ty = typeof(u)
                st = T.new_st("obj", "obj")
                if ty[0] == "opt" and ty[1][0] in ("arr", "seq", "tup"):
                    states[k] = StV(reflect(ty, st), [st], ("ty", ty))
                else:
                    states[k] = StV(Obj(st), [st], ("obj",))
                return True
            else:
                ty = typeof(u)
                st = T.new_st("obj", "obj")
                if ty[0] in ("arr", "seq", "tup"):
                    states[k] = StV(reflect(("opt", ty), st), [st], ("ty", ("opt", ty)))
                else:
                    states[k] = StV(Obj(st), [st], ("obj",))
                return True
        return False

    # ------------------------------------------------------------------------------
    def one_pass(self, states):
        L, s, fr = self.L, self.s, self.fr
        env = self.env.fork()
        for k, S in states.items():
            env[k] = S.val
        for k, r in self.twins.items():
            env[k] = env[r]
        self.derive(env)
        fr.loops.append({"brk": [], "cont": []})
        nev, nret = len(fr.events), len(fr.rets)
        hits0 = [len(c["hits"]) for c in fr.trys]
        nnotes = len(L.notes)
        save_pc = getattr(fr, "pc", TRUE)
        fr.pc = TRUE
        p = TRUE
        test = TRUE
        if self.kind == "while":
            test = L.boolify(L.cond(s.test, env, fr))
            fr.pc = TRUE
            if test is not TRUE:
                lits = literals(test, True)
                for kk in env:
                    if not kk.startswith("#"):
                        env[kk] = restrict_v(env[kk], lits)
        else:
            v = self.dom[2](atom(self.i))
            L.bind_target(s, v, atom(self.i), env, fr)
        env, p = L.exec_block(s.body, env, p, fr)
        lo = fr.loops.pop()
        for c, e in lo["cont"]:
            env = L.merge_env(c, e, env) if p is not FALSE else e
            p = T.or_(p, c)
        evs = fr.events[nev:]
        rets = fr.rets[nret:]
        del fr.events[nev:]
        del fr.rets[nret:]
        hits = []
        for c, k0 in zip(fr.trys, hits0):
            hits.append(c["hits"][k0:])
            del c["hits"][k0:]
        fr.pc = save_pc
        return {
            "out": env,
            "live": p is not FALSE,
            "p": p,
            "brk": lo["brk"],
            "evs": evs,
            "rets": rets,
            "hits": hits,
            "test": test,
        }

    # ------------------------------------------------------------------------------
    def solve(self):
        L, fr, i, n = self.L, self.fr, self.i, self.n
        res, states = self.res, self.states
        out = res["out"]
        live = res["live"]
        # closed forms: k -> (pre: fn(bound term) -> V) value after `bound` full iterations
        closed: dict = {}
        todo = {}
        for k in self.state:
            u = out.get(k) if live else self.env[k]
            todo[k] = u
        allsyms = {st: k for k in self.state for st in states[k].syms}
        smap: dict = {}
        progress = True
        while progress and todo:
            progress = False
            for k in list(todo):
                u = todo[k]
                if smap:
                    u = subst_v(u, smap)
                others = [st for st in allsyms if st not in states[k].syms and st not in smap]
                try:
                    f = self.closed_form(k, u, others)
                except Uns:
                    f = None
                if f is None:
                    continue
                closed[k] = f
                pre = f(atom(i), False)
                self.bind_syms(states[k], pre, smap)
                del todo[k]
                progress = True
        # exit conditions
        raised = FALSE
        for ev in res["evs"]:
            if ev.kind == "raise" and not ev.implicit:
                raised = T.or_(raised, ev.cond)
        for hs in res["hits"]:
            for c, _ in hs:
                raised = T.or_(raised, c)
        sub = lambda t: T.subst(t, smap) if smap else t
        if todo:
            return self.solve_fold(todo, closed, smap, raised, allsyms)
        if self.kind == "while":
            return self.solve_fold(todo, closed, smap, raised, allsyms)
        brk = [(sub(c), e) for c, e in res["brk"]]
        rets = [(sub(c), v, e) for c, v, e in res["rets"]]
        raised = sub(raised)
        xb = FALSE
        for c, _ in brk:
            xb = T.or_(xb, c)
        xr = FALSE
        for c, _, _ in rets:
            xr = T.or_(xr, c)
        x = T.or_(T.or_(xb, xr), raised)
        pc0 = self.pc
        env = self.env
        kinds = [c for c in (xb, xr, raised) if c is not FALSE]
        if x.op == "opaque" or any(c.op == "opaque" for c in kinds):
            raise Uns("opaque exit")
        ex = T.exists([i], x)
        istar = T.first(i, x, "first") if ex is not FALSE else None
        star = {i: istar} if istar is not None else {}

        def at_star(v):
            return subst_v(subst_v(v, smap), star)

        # events
        for ev in res["evs"]:
            c = sub(ev.cond)
            if xb is not FALSE or xr is not FALSE:
                # reached only if no earlier exit
                if ev.implicit or len(kinds) > 1:
                    if i in c.fv:
                        c2 = T.and_(ex, T.subst(c, star)) if not ev.implicit else T.exists([i], c)
                    else:
                        c2 = c
                else:
                    c2 = T.exists([i], c)
            else:
                c2 = T.exists([i], c)
            ev.cond = T.and_(pc0, T.and_(c2, T.lt(ZERO, n)) if i not in c.fv else c2)
            if ev.cond is not FALSE:
                fr.events.append(ev)
        for col, hs in zip(fr.trys, res["hits"]):
            for c, e in hs:
                col["hits"].append((T.and_(pc0, T.exists([i], sub(c))), env.fork()))
        # returns
        for c, v, e in rets:
            if len(kinds) == 1 and len(rets) == 1:
                cc = ex
            else:
                cc = T.and_(ex, T.subst(c, star))
            vv = at_star(v) if i in fv_of_safe(v) or smap else v
            fr.rets.append((T.and_(pc0, cc), vv, self.final_env(closed, env, lambda e2: e2)))
        # break
        fin = env.fork()
        for k in self.state:
            fin[k] = closed[k](n, True)
        self.after_names(fin, out, smap, n, live)
        pc_out = T.and_(pc0, T.not_(ex))
        if self.s.orelse and pc_out is not FALSE:
            fin, pc_out = L.exec_block(self.s.orelse, fin, pc_out, fr)
        if brk:
            for c, e in brk:
                be = env.fork()
                for k in list(self.cand) + [q for q in self.assigned if q in e] + self.tn:
                    if k in e and e[k] is not None:
                        if k in env and k not in self.state and same(e[k], env[k]):
                            continue
                        be[k] = at_star(e[k])
                cc = ex if (len(brk) == 1 and len(kinds) == 1) else T.and_(ex, T.subst(c, star))
                bc = T.and_(pc0, cc)
                if bc is FALSE:
                    continue
                if pc_out is FALSE:
                    fin, pc_out = be, bc
                else:
                    fin = L.merge_env(cc, be, fin)
                    pc_out = T.or_(pc_out, bc)
        return fin, pc_out

    def final_env(self, closed, env, f):
        return env

    def after_names(self, fin, out, smap, n, live):
        """Loop targets and temporaries after the loop: value in the last iteration."""
        last = {self.i: T.sub(n, ONE)} if n is not None else {}
        for k in self.tn + [q for q in self.assigned if q not in self.cand]:
            v = out.get(k)
            if v is None:
                continue
            if isinstance(v, (Fn, BI)):
                fin[k] = v
                continue
            if n is None:
                fin[k] = ob("loop temporary")
            else:
                try:
                    fin[k] = subst_v(subst_v(v, smap), last)
                except RecursionError:
                    fin[k] = ob("loop temporary")
            fin.alias.pop(k, None)
            fin.elem.pop(k, None)

    def bind_syms(self, S, v, smap):
        tag = S.tag
        if tag[0] == "tup":
            for p, x in zip(tag[1], v.items if isinstance(v, Tup) else [ob("tuple state")] * len(tag[1])):
                self.bind_syms(p, x, smap)
            return
        t = reify(v)
        st = S.syms[0]
        smap[st] = t.args[0] if False else t
        if isinstance(v, Rng):
            smap[st] = v.count

    # ------------------------------------------------------------------------------
    def closed_form(self, k, u, others):
        """-> fn(bound, final) -> V giving the value after `bound` iterations, or None."""
        S = self.states[k]
        init = self.env[k]
        i = self.i
        tag = S.tag
        if u is None:
            return None
        syms = set(S.syms)
        oth = set(others)
        if tag[0] == "tup":
            if not isinstance(u, Tup) or not isinstance(init, Tup):
                return None
            fs = []
            for p, x, w in zip(tag[1], u.items, init.items):
                f = self.closed_one(p, x, w, oth | (syms - set(p.syms)))
                if f is None:
                    return None
                fs.append(f)
            return lambda b, final: Tup([f(b, final) for f in fs])
        return self.closed_one(S, u, init, oth)

    def closed_one(self, S, u, init, oth):
        i = self.i
        tag = S.tag
        st = S.syms[0]
        bad = oth
        if tag[0] == "rng":
            if not isinstance(u, Rng) or u.count.fv & bad:
                return None
            f = self.scalar_form(atom(st), st, u.count, init.count, "int", [])
            return None if f is None else (lambda b, final: Rng(f(b, final)))
        if tag[0] in ("sc", "optsc"):
            if not isinstance(u, Sc):
                return None
            if u.t.fv & bad or u.t.opaque:
                return None
            it = init.t
            if tag[0] == "optsc":
                f = self.opt_form(st, u.t, it)
            else:
                f = self.scalar_form(S.val.t, st, u.t, it, tag[1], [])
            return None if f is None else (lambda b, final: Sc(f(b, final)))
        if tag[0] in ("arr", "listarr"):
            if isinstance(u, LAcc) and tag[0] == "listarr":
                return self.list_form(S, u, init, bad)
            ui = u
            if not isinstance(ui, Arr):
                return None
            dims = init.dims
            if len(ui.dims) != len(dims):
                if st in fv_of(ui) or fv_of(ui) & bad:
                    return None
                return self.last_value(ui, init)
            if any(a is not b for a, b in zip(ui.dims, dims)):
                t = reify(ui)
                if st in t.fv or t.fv & bad:
                    return None
                return self.last_value(ui, init)
            xs = [T.new_ix(d) for d in dims]
            ax = [atom(x) for x in xs]
            ut = ui.fn(ax)
            if ut.fv & bad or ut.opaque:
                return None
            iv = init.fn(ax)
            sv = S.val.fn(ax)
            f = self.scalar_form(sv, st, ut, iv, tag[2], xs)
            if f is None:
                return None

            def make(b, final):
                t = f(b, final)
                return Arr(dims, lambda idx: T.subst(t, dict(zip(xs, idx))), init.nd)

            return make
        if tag[0] == "list":
            return self.list_form(S, u, init, bad)
        if tag[0] == "dict":
            if not isinstance(u, DAcc) or not isinstance(u.base, Obj) or u.base.t is not st:
                return None
            for p in u.parts:
                if p[0] != "item":
                    return None
                for t in (p[1], reify(p[2]), reify(p[3])):
                    if st in t.fv or t.fv & bad:
                        return None
            if isinstance(init, Dct):
                base, parts0 = None, [("item", TRUE, a, b) for a, b in init.kv]
            else:
                base, parts0 = init.base, init.parts
            if len(u.parts) != 1:
                return None
            p = u.parts[0]

            def make(b, final):
                bound = b
                return DAcc(
                    base,
                    parts0
                    + [
                        (
                            "gen",
                            bound,
                            lambda t: (
                                T.subst(p[1], {i: t}),
                                subst_v(p[2], {i: t}),
                                subst_v(p[3], {i: t}),
                            ),
                        )
                    ],
                )

            return make
        if tag[0] in ("obj", "ty"):
            t = reify(u)
            if st in t.fv or t.fv & bad or t.opaque:
                return None
            return self.last_value(u, init)
        return None

    def last_value(self, u, init):
        i = self.i

        def make(b, final):
            k = T.sub(b, ONE)
            prev = subst_v(u, {i: k})
            empty = T.eq(b, ZERO)
            if final and self.n is not None:
                # zero-trip loops keep the initial value
                pass
            return merge(empty, init, prev)

        return make

    def list_form(self, S, u, init, bad):
        i = self.i
        st = S.syms[0]
        if not isinstance(u, LAcc):
            # rebuilt list each iteration
            t = reify(u)
            if st in t.fv or t.fv & bad or t.opaque:
                if isinstance(u, Seq):
                    return self.seq_store_form(S, u, init, bad)
                return None
            return self.last_value(u, init)
        base = u.base
        if not (isinstance(base, (Obj, Seq, Arr)) and (base is S.val or reify(base) is st or reify(base) is reify(S.val))):
            return None
        for p in u.parts:
            if st in p[1].fv or p[1].fv & bad or p[1].op == "opaque":
                return None
            t = reify(p[2])
            if st in t.fv or t.fv & bad or t.op == "opaque":
                return None
        if len(u.parts) == 1 and u.parts[0][0] == "item":
            _, c, v = u.parts[0]
            mkacc = lambda w, b: npmodel.build_seq(w, b, T.subst(c, {i: atom(w)}), subst_v(v, {i: atom(w)}))
        elif self.disjoint_total(u.parts):
            # exactly one item per iteration
            v = u.parts[-1][2]
            for p in reversed(u.parts[:-1]):
                v = merge(p[1], p[2], v)
            mkacc = lambda w, b: npmodel.build_seq(w, b, TRUE, subst_v(v, {i: atom(w)}))
        elif len(u.parts) == 1:
            _, c, v = u.parts[0]
            mkacc = lambda w, b: npmodel.build_flat(w, b, T.subst(c, {i: atom(w)}), subst_v(v, {i: atom(w)}))
        else:
            v = LAcc(Tup([], True), u.parts)
            mkacc = lambda w, b: npmodel.build_flat(w, b, TRUE, subst_v(v, {i: atom(w)}))

        def make(b, final):
            w = T.new_ix(b)
            r = mkacc(w, b)
            return npmodel.concat_lists(init, r) if not empty_list(init) else r

        return make

    def disjoint_total(self, parts):
        if not all(p[0] == "item" for p in parts):
            return False
        cs = FALSE
        for p in parts:
            if T.and_(cs, p[1]) is not FALSE:
                return False
            cs = T.or_(cs, p[1])
        return cs is TRUE

    def seq_store_form(self, S, u, init, bad):
        """list of arrays with element assignment lst[f(i)] = v(i)"""
        a0 = npmodel.to_arr(init)
        if a0 is None or not isinstance(a0, Arr):
            # e.g. [None for _ in range(n)]
            if isinstance(init, Seq):
                x = T.new_ix(init.n)
                e = u.fn(atom(x))
                s0 = S.val.fn(atom(x))
                if isinstance(e, IteV):
                    c, new, old = e.c, e.a, e.b
                    if eqval(old, s0):
                        pass
                    elif eqval(new, s0):
                        c, new, old = T.not_(c), old, new
                    else:
                        return None
                    if (c.fv | fv_of(new)) & (bad | set(S.syms)):
                        return None
                    return self.guarded_seq(x, c, new, init)
            return None
        ua = npmodel.to_arr(u)
        if not isinstance(ua, Arr) or ua.rank != a0.rank:
            return None
        xs = [T.new_ix(d) for d in a0.dims]
        ax = [atom(x) for x in xs]
        sv = npmodel.to_arr(S.val.fn(ax[0]))
        if not isinstance(sv, Arr):
            return None
        svt = sv.fn(ax[1:])
        ut = ua.fn(ax)
        if ut.fv & bad or ut.opaque:
            return None
        f = self.scalar_form(svt, S.syms[0], ut, a0.fn(ax), "complex", xs)
        if f is None:
            return None

        def make(b, final):
            t = f(b, final)

            def dims_at(j):
                e = init.fn(j) if isinstance(init, Seq) else None
                d = e.dims if isinstance(e, Arr) else None
                return d if d is not None and len(d) == a0.rank - 1 else a0.dims[1:]

            return Seq(
                init.n if isinstance(init, Seq) else a0.dims[0],
                lambda j: Arr(dims_at(j), lambda idx: T.subst(t, dict(zip(xs, [j] + list(idx)))), True),
            )

        return make

    def guarded_seq(self, x, c, new, init):
        i = self.i

        def make(b, final):
            w = T.new_ix(b)
            cw = T.subst(c, {i: atom(w)})
            some, at = self.last_hit(w, cw, b)
            return Seq(
                init.n,
                lambda j: merge(
                    T.subst(some, {x: j}), subst_v(subst_v(new, {i: at}), {x: j}), init.fn(j)
                ),
            )

        return make

    # ------------------------------------------------------------------------------
    def last_hit(self, w, c, bound):
        """(exists w<bound. c, last such w)"""
        d = solve_eq(w, c)
        if d is not None:
            e, rest = d
            rng = TRUE
            if not in_range(e, bound):
                rng = T.and_(T.le(ZERO, e), T.lt(e, bound))
                if not T.is_int(e):
                    rng = T.and_(rng, T.eq(T.rnd("floor", e), e))
            return T.and_(rng, rest), e
        if w not in c.fv:
            return T.and_(c, T.lt(ZERO, bound)), T.sub(bound, ONE)
        return T.exists([w], c), T.first(w, c, "last")

    def scalar_form(self, sv, st, u, init, srt, xs):
        """Closed form of the recurrence s' = u(s, i), s given by sv (element of the state)."""
        i = self.i
        if u is sv:
            return lambda b, final: init
        if st not in u.fv:
            def last(b, final):
                k = T.sub(b, ONE)
                pv = T.subst(u, {i: k})
                if pv is init:
                    return init
                return T.ite(T.eq(b, ZERO), init, pv)

            return last
        if srt == "bool":
            if sv.op != "ite" or sv.args[1] is not TRUE:
                return None
            a = sv.args[0]
            u1, u0 = T.restrict(u, a, True), T.restrict(u, a, False)
            if st in u1.fv or st in u0.fv:
                return None
            keep = T.and_(u1, T.not_(u0))
            flip = T.and_(u0, T.not_(u1))
            if flip is not FALSE:
                return None

            def bform(b, final):
                w = T.new_ix(b)
                m = {i: atom(w)}
                k1, k0 = T.subst(u1, m), T.subst(u0, m)
                if k1 is TRUE:
                    return T.or_(init, T.exists([w], k0))
                if k0 is FALSE:
                    return T.and_(init, T.forall([w], k1))
                some, at = self.last_hit(w, T.not_(T.subst(keep, m)), b)
                return T.ite(some, T.subst(T.subst(u1, {i: at}), {}), init)

            return bform
        # additive
        try:
            e = T.sub(u, sv)
        except Exception:
            e = None
        if e is not None and not e.opaque and st not in e.fv:
            def aform(b, final):
                w = T.new_ix(b)
                return T.add(init, T.sum_([w], T.subst(e, {i: atom(w)})))

            return aform
        # guarded: u = c ? e : s
        g = guard_of(u, sv)
        if g is not None:
            c, e = g
            if st not in c.fv and st not in e.fv:
                def gform(b, final):
                    w = T.new_ix(b)
                    some, at = self.last_hit(w, T.subst(c, {i: atom(w)}), b)
                    return T.ite(some, T.subst(e, {i: at}), init)

                return gform
            # guarded sum: c ? s + e : s  covered above; c ? e : s + d -> unsupported
        # multiplicative
        if sv.op == "poly" and not xs:
            z = T.subst(u, {st: ZERO})
            o = T.subst(u, {st: ONE})
            if z is ZERO and st not in o.fv and T.mul(o, sv) is u and srt in ("int", "real", "complex"):
                def pform(b, final):
                    w = T.new_ix(b)
                    if i not in o.fv:
                        return T.mul(init, T.pow_term(o, b))
                    return T.mul(init, T.prod_(w, T.subst(o, {i: atom(w)})))

                return pform
            # running extremum: s' = min/max(s, e) or (e < s ? e : s)
        if sv.op == "poly":
            m = extremum_of(u, sv, st)
            if m is not None:
                op, e = m

                def mform(b, final):
                    w = T.new_ix(b)
                    t = T.extremum(op + "_over", [w], T.subst(e, {i: atom(w)}))
                    return T.ite(T.eq(b, ZERO), init, T.funn(op, init, t))

                return mform
        return None

    def opt_form(self, st, u, init):
        """s is None or a number; u = (c [and s is None]) ? e : s"""
        i = self.i
        a = mk("isnone", st)
        un, us = T.restrict(u, a, True), T.restrict(u, a, False)
        ss = atom(st)
        if us is ss and st not in un.fv:
            # set once: first hit
            g = guard_of(un, NONE)
            if g is None:
                return None
            c, e = g

            def fform(b, final):
                w = T.new_ix(b)
                cw = T.subst(c, {i: atom(w)})
                if w not in cw.fv:
                    return T.ite(T.and_(cw, T.lt(ZERO, b)), T.subst(e, {i: ZERO}), init)
                d = solve_eq(w, cw)
                some = T.exists([w], cw)
                at = d[0] if d is not None else T.first(w, cw, "first")
                return T.ite(some, T.subst(e, {i: at}), init)

            return fform if init is NONE else None
        g1, g2 = guard_of(un, NONE), guard_of(us, ss)
        if g1 is not None and g2 is not None and g1[0] is g2[0] and g1[1] is g2[1] and st not in g1[0].fv and st not in g1[1].fv:
            c, e = g1

            def lform(b, final):
                w = T.new_ix(b)
                some, at = self.last_hit(w, T.subst(c, {i: atom(w)}), b)
                return T.ite(some, T.subst(e, {i: at}), init)

            return lform
        return None

    # ------------------------------------------------------------------------------
    def solve_fold(self, todo, closed, smap, raised, allsyms):
        """Uninterpreted recursion over the remaining state."""
        L, fr, i, n = self.L, self.fr, self.i, self.n
        res, states, env = self.res, self.states, self.env
        out = res["out"]
        sub = lambda t: T.subst(t, smap) if smap else t
        subv = lambda v: subst_v(v, smap) if smap else v
        keys = list(todo)
        brk = [(sub(c), e) for c, e in res["brk"]]
        rets = [(sub(c), v, e) for c, v, e in res["rets"]]
        raised = sub(raised)
        test = sub(res["test"])
        syms = [st for k in keys for st in states[k].syms]
        inits, upds = {}, {}
        for k in keys:
            ini = self.sym_terms(states[k], env[k])
            upd = self.sym_terms(states[k], subv(out.get(k)) if res["live"] else env[k])
            for st, a, b in zip(states[k].syms, ini, upd):
                inits[st], upds[st] = a, b
        for st in syms:
            if inits[st].opaque or upds[st].opaque:
                # the recursion itself is not understood
                pass
        xb = FALSE
        for c, _ in brk:
            xb = T.or_(xb, c)
        xr = FALSE
        for c, _, _ in rets:
            xr = T.or_(xr, c)
        # a comparison with the very value at which the loop is left: the update does not matter there, so let it be none
        left = T.or_(T.or_(xb, xr), raised)
        if left is not FALSE and left.op == "ite":
            points = {x.args[0] for x in T.subnodes(left) if x.op == "eq0"}
            for k in keys:
                if states[k].tag[0] != "sc":
                    continue
                st = states[k].syms[0]
                if upds[st].op == "ite" and any(
                    x.op == "lt0" and any(T.as_int(f(x.args[0], q)) is not None for q in points for f in (T.sub, T.add))
                    for x in T.subnodes(upds[st])
                    if isinstance(x, N)
                ):
                    upds[st] = T.ite(left, self.from_syms(states[k], [st], None).t, upds[st])
        # canonical order
        ph = mk("st", 0, "placeholder", "obj")
        pmap = {}
        for st in syms:
            pmap[st] = mk("st", 0, st.args[1], st.args[2])
        rank = {}
        for st in syms:
            rank[st] = (T.cdg(T.subst(inits[st], pmap)), T.cdg(T.subst(upds[st], pmap)))
        order = sorted(syms, key=lambda st: rank[st])
        exits = mk("tup", xb, xr, raised, test)

        def node(bound, what, order=order):
            w = T.new_ix(None)
            m = T.Ren({i: atom(w)})
            parts = [bound if bound is not None else NONE]
            parts += [inits[st] for st in order]
            parts += [T.subst(upds[st], m) for st in order]
            parts.append(T.subst(exits, m))
            if what is not None:
                parts.append(T.subst(what, m))
            return T.close_state(self.kind if self.kind == "while" else "fold", [w] + list(order), tuple(parts))

        base = node(n, None)
        fin_state = {}
        trivial = xb is FALSE and xr is FALSE and raised is FALSE and self.kind == "for"
        symset = set(syms)
        if trivial and len(order) > 1:
            # independent recurrences are separate nodes
            dep = {st: (upds[st].fv & symset) | {st} for st in syms}
            ch = True
            while ch:
                ch = False
                for st in syms:
                    new = set().union(*[dep[x] for x in dep[st]])
                    if new - dep[st]:
                        dep[st] = dep[st] | new
                        ch = True
            made = {}
            for st in syms:
                sub_order = tuple(x for x in order if x in dep[st])
                if sub_order not in made:
                    made[sub_order] = base if len(sub_order) == len(order) else node(n, None, sub_order)
                fin_state[st] = T.aproj(made[sub_order], sub_order.index(st), st.args[2])
        else:
            for q, st in enumerate(order):
                fin_state[st] = T.aproj(base, q, st.args[2])
        icount = atom(T.aproj(base, "count", "int"))

        def final_of(k, which=fin_state):
            return self.from_syms(states[k], [which[st] for st in states[k].syms], env[k])

        fin = env.fork()
        for k in keys:
            fin[k] = final_of(k)
        hasexit = xb is not FALSE or xr is not FALSE or self.kind == "while"
        # closed variables at the end: substitute the state of exit
        full = n if not hasexit else icount
        back = {}
        for k in keys:
            self.bind_syms_t(states[k], [fin_state[st] for st in states[k].syms], back)
        for k in closed:
            v = closed[k](full, True)
            try:
                fv = fv_of(v)
            except Exception:
                fv = frozenset()
            if fv & set(order):
                v = ob("loop state")
            fin[k] = v
        if xb is not FALSE:
            # state at the break
            for c, e in brk:
                for k in list(self.cand) + [q for q in self.assigned if q in e]:
                    v = e.get(k)
                    if v is None or (k in env and same(v, env[k])):
                        continue
                    if k in self.state:
                        if not eqval(v, states[k].val):
                            t = reify(subv(v))
                            pn = node(n, mk("tup", c, t))
                            fin[k] = merge(
                                T.cond_atom(T.aproj(base, "brk", "bool")),
                                reflect(typeof(v), T.aproj(pn, "brkval", sort_tag(typeof(v)))),
                                fin[k],
                            )
                    else:
                        t = reify(subv(v))
                        pn = node(n, mk("tup", c, t))
                        w = reflect(typeof(v), T.aproj(pn, "brkval", sort_tag(typeof(v))))
                        fin[k] = merge(T.cond_atom(T.aproj(base, "brk", "bool")), w, fin.get(k)) if k in fin else w
        for k in self.tn + [q for q in self.assigned if q not in self.cand]:
            if k in fin and xb is not FALSE and k not in self.tn:
                continue
            v = out.get(k)
            if v is None:
                continue
            if isinstance(v, (Fn, BI)):
                fin[k] = v
                continue
            t = reify(subv(v))
            if i not in t.fv and not (t.fv & set(order)):
                fin[k] = v
            else:
                pn = node(n, t)
                ty = typeof(v)
                fin[k] = reflect(ty, T.aproj(pn, "last", sort_tag(ty)))
            fin.alias.pop(k, None)
        # events
        for ev in res["evs"]:
            c = sub(ev.cond)
            if i in c.fv or c.fv & set(order):
                c = T.cond_atom(T.aproj(node(n, c), "some", "bool")) if c.op != "opaque" else c
            elif n is not None:
                c = T.and_(c, T.lt(ZERO, n))
            ev.cond = T.and_(self.pc, c)
            if ev.cond is not FALSE:
                fr.events.append(ev)
        for col, hs in zip(fr.trys, res["hits"]):
            for c, e in hs:
                c = sub(c)
                if i in c.fv or c.fv & set(order):
                    c = T.cond_atom(T.aproj(node(n, c), "some", "bool"))
                col["hits"].append((T.and_(self.pc, c), env.fork()))
        pc_out = self.pc
        rcond = FALSE
        for c, v, e in rets:
            cc = T.cond_atom(T.aproj(node(n, c), "ret", "bool"))
            t = reify(subv(v))
            if i in t.fv or t.fv & set(order):
                ty = typeof(v)
                vv = reflect(ty, T.aproj(node(n, mk("tup", c, t)), "retval", sort_tag(ty)))
            else:
                vv = subv(v)
            fr.rets.append((T.and_(self.pc, cc), vv, env))
            rcond = T.or_(rcond, cc)
        if raised is not FALSE:
            rcond = T.or_(rcond, T.cond_atom(T.aproj(node(n, raised), "some", "bool")))
        pc_out = T.and_(pc_out, T.not_(rcond))
        if self.kind == "while" and res["test"] is TRUE and xb is FALSE:
            pc_out = FALSE
        if self.s.orelse and pc_out is not FALSE:
            if xb is FALSE:
                fin, pc_out = L.exec_block(self.s.orelse, fin, pc_out, fr)
            else:
                bc = T.cond_atom(T.aproj(base, "brk", "bool"))
                e2, p2 = L.exec_block(self.s.orelse, fin.fork(), T.and_(pc_out, T.not_(bc)), fr)
                if p2 is FALSE:
                    pc_out = T.and_(pc_out, bc)
                else:
                    fin = L.merge_env(bc, fin, e2)
        return fin, pc_out

    def sym_terms(self, S, v):
        tag = S.tag
        if tag[0] == "tup":
            if not isinstance(v, Tup) or len(v.items) != len(tag[1]):
                return [T.opaque("tuple state")] * len(S.syms)
            r = []
            for p, x in zip(tag[1], v.items):
                r += self.sym_terms(p, x)
            return r
        if isinstance(v, Rng):
            return [v.count]
        return [reify(v)]

    def bind_syms_t(self, S, ts, m):
        for st, t in zip(S.syms, ts):
            m[st] = t

    def from_syms(self, S, ts, init):
        tag = S.tag
        t = ts[0]
        k = tag[0]
        if k == "tup":
            outv = []
            q = 0
            for p in tag[1]:
                outv.append(self.from_syms(p, ts[q : q + len(p.syms)], None))
                q += len(p.syms)
            return Tup(outv)
        if k == "sc":
            return Sc(T.cond_atom(t)) if tag[1] == "bool" else Sc(atom(t))
        if k == "optsc":
            return Sc(T.mk_ite(mk("isnone", t), NONE, atom(t)))
        if k == "rng":
            return Rng(atom(t))
        if k == "arr":
            if tag[2] == "bool":
                return Arr(tag[3], lambda idx: as_bool_el(T.el(t, idx)), True)
            return Arr(tag[3], lambda idx: T.el(t, idx), True, term=t)
        if k == "listarr":
            if S.growing:
                return reflect(("arr", tag[1], tag[2], False), t)
            d = init.dims if isinstance(init, Arr) else [T.lenof(t)]
            return Arr(d, (lambda idx: as_bool_el(T.el(t, idx))) if tag[2] == "bool" else (lambda idx: T.el(t, idx)), False, term=None if tag[2] == "bool" else t)
        if k == "list":
            e = tag[1]
            if e is None:
                return Obj(t, "list")
            if e[0] == "sc":
                return reflect(("arr", 1, e[1], False), t)
            return Seq(T.lenof(t), lambda i: reflect(e, T.item(t, i, sort_tag(e))), term=t)
        if k == "dict":
            return DAcc(Obj(t), [])
        if k == "ty":
            return reflect(tag[1], t)
        return Obj(t)


def join_type(a, b):
    """Least common element type (None: not comparable)."""
    if a is None or b is None or a[0] != b[0]:
        return None
    if a[0] == "sc":
        if "obj" in (a[1], b[1]):
            return a
        return ("sc", join_sort(a[1], b[1]))
    if a[0] == "arr":
        if a[1] != b[1] or "obj" in (a[2], b[2]):
            return a
        return (a[0], a[1], join_sort(a[2], b[2])) + tuple(a[3:])
    if a[0] == "seq":
        e = join_type(a[1], b[1])
        return a if e is None else ("seq", e)
    if a[0] == "tup" and len(a[1]) == len(b[1]):
        return ("tup", [join_type(x, y) or x for x, y in zip(a[1], b[1])])
    return a


class StV:
    __slots__ = ("val", "syms", "tag", "growing", "init")

    def __init__(self, val, syms, tag, init=None):
        self.val, self.syms, self.tag, self.growing, self.init = val, syms, tag, False, init


def empty_list(v):
    return isinstance(v, Tup) and not v.items or (isinstance(v, LAcc) and not v.parts and empty_list(v.base))


def leaves(t, seen=None):
    seen = set() if seen is None else seen
    if t in seen:
        return
    seen.add(t)
    if t.op == "ite":
        yield from leaves(t.args[1], seen)
        yield from leaves(t.args[2], seen)
    else:
        yield t


def guard_of(u, sv):
    """u = c ? e : sv with e not containing the leaf sv; -> (c, e)"""
    if sv.op == "ite":
        return None
    ls = list(leaves(u))
    if sv not in ls or len(ls) < 2:
        return None
    c = T.lift1(lambda p: FALSE if p is sv else TRUE, u)
    other = next(x for x in ls if x is not sv)
    memo = {}

    def go(t):
        """Replace sv leaves by the sibling value so that the guard disappears where possible."""
        r = memo.get(t)
        if r is None:
            if t.op == "ite":
                a, b = t.args[1], t.args[2]
                if a is sv:
                    r = go(b)
                elif b is sv:
                    r = go(a)
                else:
                    a, b = go(a), go(b)
                    r = a if a is b else T.mk_ite(t.args[0], a, b)
            else:
                r = t if t is not sv else other
            memo[t] = r
        return r

    return c, go(u)


def solve_eq(v, c):
    """If c implies v == e (e free of v): (e, c[v:=e]); c a Boolean diagram."""
    for a, val in implied(c):
        if val and a.op == "eq0" and v in a.fv:
            p = a.args[0]
            co = None
            rest = {}
            for m, cf in p.args[0]:
                if m == ((v, T.Fr(1)),):
                    co = cf
                else:
                    rest[m] = cf
            if co is None or co[1] != 0:
                continue
            e = T._scale(T.poly_from(rest), (-1 / co[0], T.Fr(0)))
            if v in e.fv:
                continue
            return e, T.subst(c, {v: e})
    return None


def implied(c):
    """All literals implied by c (not only along the spine)."""
    seen = set()
    out = []
    atoms = []

    def walk(t):
        if t in seen or t.op != "ite":
            return
        seen.add(t)
        if t.args[0] not in atoms:
            atoms.append(t.args[0])
        walk(t.args[1])
        walk(t.args[2])

    walk(c)
    for a in atoms[:40]:
        if T.restrict(c, a, False) is FALSE:
            out.append((a, True))
    return out


def in_range(e, bound):
    return T.le(ZERO, e) is TRUE and T.lt(e, bound) is TRUE and T.is_int(e)


def extremum_of(u, sv, st):
    if u.op == "poly" and len(u.args[0]) == 1:
        m, c = u.args[0][0]
        if c == (1, 0) and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ("min", "max"):
            a = m[0][0]
            rest = [x for x in a.args if x is not sv]
            if len(rest) == len(a.args) - 1 and not any(st in x.fv for x in rest):
                e = rest[0] if len(rest) == 1 else atom(mk(a.op, *rest))
                return a.op, e
    if u.op == "ite":
        g = guard_of(u, sv)
        if g is not None:
            c, e = g
            if st not in e.fv:
                if c is T.lt(e, sv) or c is T.le(e, sv):
                    return "min", e
                if c is T.lt(sv, e) or c is T.le(sv, e):
                    return "max", e
    return None


def fv_of_safe(v):
    try:
        return fv_of(v)
    except Exception:
        return frozenset()


def _ev(kind, typ, cond, line):
    from .lift import Event

    return Event(kind, typ, cond, line)
