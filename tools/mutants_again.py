"""Evaluation aid (not a check): rerun the mutants of an earlier run that had one of the given verdicts."""
import json, os, sys
sys.path.insert(0, "/verif"); sys.path.insert(0, "/verif/tools")
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import multiprocessing as mp, resource
import mutants_par as M
old, out, verdicts = sys.argv[1], sys.argv[2], sys.argv[3].split(",")
R = [json.loads(l) for l in open(old)]
M.G["C"] = M.Comparer("/verif/spec", "/repo/src/spgrep", "/verif/certified")
todo = [(r["f"], r["k"]) for r in R if r["v"] in verdicts]
resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
new = {}
with mp.get_context("fork").Pool(7, maxtasksperchild=1) as p:
    for r in p.imap_unordered(M.one, todo):
        new[r["f"], r["k"]] = r
with open(out, "w") as fh:
    for r in R:
        fh.write(json.dumps(new.get((r["f"], r["k"]), r)) + "\n")
