import sys, os
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
import refactor as RF, ast, threading
from sa.compare import *
import sa.diff as DD
if '-l' in sys.argv: DD.sh = lambda t, n=0: T.show(t, 5000) if isinstance(t, (T.N, tuple)) else str(t)
f, tag = sys.argv[1], sys.argv[2]
def run():
    C = Comparer("/verif/spec", "/repo/src/spgrep", "/verif/certified")
    m, fd = C.code.find(f)
    for t, nf, hs in RF.refactorings(fd):
        if t == tag:
            m.funcs[f] = nf
            for h in hs: m.funcs[h.name] = h
            if "-s" in sys.argv:
                for h in hs: print(ast.unparse(h))
                print(ast.unparse(nf))
            r, info = C.compare(f, 3_000_000, 200)
            print(r.v, info.get("wall_s"), info.get("notes"))
            for w in r.why: print("   ", w[:6000])
threading.stack_size(512 << 20); t = threading.Thread(target=run); t.start(); t.join()
