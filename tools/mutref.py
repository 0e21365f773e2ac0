"""Evaluation aid (not a check): small mutations of functions that were already rewritten (ref..ref5).

EQ verdicts are to be read (equivalent mutant, or a hole); DIFF/UND tell how much a rewrite costs in detection.
usage: mutref.py [MODULES=manual_ref2,...] ; env N (mutants per rewrite), SEED, JOBS
"""
import ast, importlib, os, random, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, "/verif/tools")
sys.path.insert(0, "/verif")
import manual_ref as M
import mutants

def cases(mods, n, seed):
    out = []
    for mod in mods:
        m = importlib.import_module(mod)
        for id, file, pairs in list(m.R):
            src = open(M.SRC + "/" + file).read()
            new = src
            if any(o not in new for o, _ in pairs):
                continue
            for o, w in pairs:
                new = new.replace(o, w, 1)
            a, b = ast.parse(src), ast.parse(new)
            fa = {f.name: ast.dump(f) for f in a.body if isinstance(f, ast.FunctionDef)}
            ch = [f for f in b.body if isinstance(f, ast.FunctionDef) and fa.get(f.name) != ast.dump(f)]
            names = [f.name for f in ch if f.name in fa]
            if not names:
                continue
            ms = []
            for f in ch:
                for d, g in mutants.mutants(f):
                    if g is not None and "drop raise" not in d:
                        ms.append((f, d, g))
            rnd = random.Random(f"{seed}{id}")
            rnd.shuffle(ms)
            for f, d, g in ms[:n]:
                t = ast.Module([g if x is f else x for x in b.body], [])
                out.append((mod, id, file, names, f.name, d, ast.unparse(ast.fix_missing_locations(t)), ast.unparse(f), ast.unparse(g)))
    return out

def run(c):
    mod, id, file, names, fn, d, text, _, _ = c
    w = tempfile.mkdtemp(prefix="mutref")
    try:
        shutil.copytree(M.SRC, w + "/s", ignore=shutil.ignore_patterns("__pycache__"))
        open(f"{w}/s/{file}", "w").write(text)
        try:
            o = subprocess.run([sys.executable, "-m", "sa.compare", "spec", w + "/s"] + names, cwd="/verif", env={**os.environ, "PYTHONHASHSEED": "0"}, capture_output=True, text=True, timeout=300)
        except subprocess.TimeoutExpired:
            return c, "TIME", ""
        vs = re.findall(r"^(EQ|UND|DIFF)\b", o.stdout, re.M)
        v = "DIFF" if "DIFF" in vs else "UND" if "UND" in vs else "EQ" if vs else "ERR"
        return c, v, o.stdout + o.stderr[-300:]
    finally:
        shutil.rmtree(w)

if __name__ == "__main__":
    mods = sys.argv[1:] or ["manual_ref", "manual_ref2", "manual_ref3", "manual_ref5"]
    cs = cases(mods, int(os.environ.get("N", "2")), os.environ.get("SEED", "1"))
    cnt = {}
    with ThreadPoolExecutor(int(os.environ.get("JOBS", "7"))) as ex:
        for c, v, o in ex.map(run, cs):
            cnt[v] = cnt.get(v, 0) + 1
            mod, id, file, names, fn, d, text, f0, g0 = c
            import difflib
            dl = [x for x in difflib.unified_diff(f0.split("\n"), g0.split("\n"), n=0, lineterm="") if x[:1] in "+-" and x[:3] not in ("+++", "---")]
            print(f"{v:5}{mod[7:]:6}{id:24}{fn} {d}\n        " + "\n        ".join(dl[:6]) + ("\n   " + o[:500] if v in ("UND", "ERR") else ""), flush=True)
    print(cnt)
