"""Evaluation aid (not a check): mutate functions of /repo in parallel; one JSON line per mutant."""
import json, os, sys, time
import multiprocessing as mp
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import threading, resource
from mutants import mutants
from sa.compare import Comparer, SIGS
import ast
def one(a):
    f, k = a
    res = {}
    def run():
        C = G["C"]
        m, fd = C.code.find(f)
        lst = list(mutants(fd))
        desc, mf = lst[k]
        m.funcs[f] = mf
        t0 = time.time()
        try:
            r, info = C.compare(f, 2_000_000, 60)
            asp = {x: y["verdict"] for x, y in (info.get("aspects") or {}).items()}
            res.update(f=f, k=k, d=desc, v=r.v, why=[w[:300] for w in r.why[:3]], asp=asp, notes=[str(x)[:160] for x in info.get("notes", [])][:2], t=round(time.time() - t0, 1))
        except BaseException as e:
            res.update(f=f, k=k, d=desc, v="ERR", why=[repr(e)[:200]], t=round(time.time() - t0, 1))
    threading.stack_size(512 << 20)
    t = threading.Thread(target=run); t.start(); t.join()
    return res
G = {}
if __name__ == "__main__":
    out, jobs = sys.argv[1], int(sys.argv[2])
    fns = sys.argv[3:] or list(SIGS)
    G["C"] = C = Comparer("/verif/spec", "/repo/src/spgrep", "/verif/certified")
    tasks = []
    for f in fns:
        m, fd = C.code.find(f)
        if fd is None: continue
        for k, (d, mf) in enumerate(mutants(fd)):
            if mf is not None: tasks.append((f, k))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    with mp.get_context("fork").Pool(jobs, maxtasksperchild=1) as p, open(out, "w") as fh:
        for r in p.imap_unordered(one, tasks):
            fh.write(json.dumps(r) + "\n"); fh.flush()
    print(len(tasks), "done")
