import sys, time
sys.setrecursionlimit(20000)
from .lift import Program, Lifter, Sig
from .values import reify
from . import terms as T
from .sigs import SIGS
def main():
    prog = Program("/repo/src/spgrep")
    only = sys.argv[1:]
    for mn, m in prog.mods.items():
        for f, d in m.funcs.items():
            if only and f not in only: continue
            t=time.time()
            L = Lifter(prog, SIGS)
            pass
            try:
                v, ev, fr = L.lift(m, d, SIGS.get(f))
                t2 = reify(v)
                s = T.show(t2)
                print(f"{mn}.{f}: {time.time()-t:.2f}s opaque={t2.opaque} hard={t2.hard} size={len(s)} events={[(e.typ,e.cond.opaque) for e in ev]} notes={L.notes[:4]}")
                if only: print(s[:6000])
            except Exception as e:
                import traceback
                tb = traceback.extract_tb(e.__traceback__)[-1]
                print(f"{mn}.{f}: EXC {type(e).__name__} {e} @ {tb.filename.split('/')[-1]}:{tb.lineno}")
                if only: traceback.print_exc()
main()
