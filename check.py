#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--repo DIR]: decide one property from the current source of the package."""
import argparse
import json
import multiprocessing as mp
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

from sa.compare import Comparer  # noqa: E402
from sa.diff import DIFF, EQ, UND  # noqa: E402
from sa.effects import Effects  # noqa: E402
from sa.lift import Program  # noqa: E402
from sa.props import PROPS  # noqa: E402
from sa.sigs import SIGS  # noqa: E402
from sa.tables import check_pointgroup_tables  # noqa: E402


def worker(q, C, fname, nodes, seconds):
    resource.setrlimit(resource.RLIMIT_AS, (5 << 30, 5 << 30))
    import threading

    def run():
        try:
            _r, info = C.compare(fname, nodes, seconds)
        except MemoryError:
            info = {"function": fname, "verdict": UND, "why": ["memory limit"]}
        except BaseException as e:  # an error of the analysis is never an alarm
            info = {"function": fname, "verdict": UND, "why": [f"analysis error {type(e).__name__}: {e}"]}
        q.put(info)

    threading.stack_size(512 << 20)
    t = threading.Thread(target=run)
    t.start()
    t.join()


def run_functions(C, fns, nodes, seconds, deadline, jobs):
    """Each function in a process of its own."""
    todo, live, out = list(fns), {}, {}
    ctx = mp.get_context("fork")
    while todo or live:
        while todo and len(live) < jobs:
            f = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=worker, args=(q, C, f, nodes, seconds))
            p.start()
            live[f] = (p, q, time.time())
        for f, (p, q, t0) in list(live.items()):
            if not q.empty():
                out[f] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del live[f]
            elif not p.is_alive():
                out[f] = {"function": f, "verdict": UND, "why": ["analysis process ended without an answer"]}
                del live[f]
            elif time.time() > deadline or time.time() - t0 > seconds + 60:
                p.kill()
                out[f] = {"function": f, "verdict": UND, "why": ["analysis time limit"]}
                del live[f]
        time.sleep(0.01)
    return out


def load_known(pid):
    known = []
    path = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                f = dict(x.split("=", 1) for x in line[7:].split(" :: ")[0].split() if "=" in x)
                if f.get("property") == pid:
                    known.append((f.get("function"), f.get("aspect"), line.split(" :: ", 1)[-1]))
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--jobs", type=int, default=7)
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    P = PROPS[pid]
    pkg = os.path.join(a.repo, "src", "spgrep")
    thorough = a.tier == "thorough"
    code = Program(pkg)
    C = Comparer(os.path.join(HERE, "spec"), pkg, os.path.join(HERE, "certified"))
    heavy = ["enumerate_unitary_irreps_from_solvable_group_chain", "enumerate_spinor_small_corepresentations", "get_spacegroup_spinor_irreps"]
    fns = sorted(P["functions"], key=lambda f: (f not in heavy, f))
    infos = run_functions(C, fns, 12_000_000 if thorough else 3_000_000, 500 if thorough else 200, t0 + (820 if thorough else 700), a.jobs)

    viol, undecided, samples = [], [], []
    n_ob = n_ok = 0
    for f in fns:
        i = infos[f]
        asp = i.get("aspects") or {}
        for k in P["functions"][f]:
            n_ob += 1
            r = asp.get(k, {"verdict": i["verdict"], "why": i.get("why", [])})
            if r["verdict"] == EQ:
                n_ok += 1
            elif r["verdict"] == DIFF:
                viol.append({"function": f, "aspect": k, "where": f"{i.get('file')}:{i.get('line')}", "why": list(r["why"])[:4],
                             "rule": "value-flow term of the function differs definitely from the reference definition"})
            else:
                undecided.append({"function": f, "aspect": k, "why": [w[:300] for w in r["why"][:2]]})
        samples.append({"function": f, "where": f"{i.get('file')}:{i.get('line')}", "verdict": i["verdict"], "term_nodes": i.get("size"),
                        "configurations": i.get("configurations"), "wall_s": i.get("wall_s"), "calls": i.get("calls", [])[:12]})
    stats = {}
    if "tables" in P["extra"]:
        n = 0
        for o in check_pointgroup_tables(code):
            n += 1
            n_ob += 1
            if o["verdict"] == EQ:
                n_ok += 1
            elif o["verdict"] == DIFF:
                viol.append({"function": o["ob"], "aspect": "table", "where": o["where"], "why": [o["why"]],
                             "rule": "point-group and chain tables: closed groups, standard settings, normal series with cyclic quotients"})
            else:
                undecided.append({"function": o["ob"], "aspect": "table", "why": [o["why"]]})
        stats["table_obligations"] = n
    E = None
    if set(P["extra"]) & {"state", "inputs"}:
        E = Effects(code)
        muts = E.input_mutation()
        if "inputs" in P["extra"]:
            bad = {r["function"] for r in muts}
            pub = [f for f in E.fns.values() if f.owner is None and not f.name.startswith("_")]
            n_ob += len(pub)
            n_ok += len([f for f in pub if f.name not in bad])
            for r in muts:
                viol.append({"function": r["function"], "aspect": "inputs", "where": r["where"], "why": [r["why"]],
                             "rule": "no store, in-place method or out-argument reaches memory shared with a parameter of a public function"})
        if "state" in P["extra"]:
            st = E.hidden_state()
            bad = {r["function"] for r in st}
            n_ob += len(E.fns)
            n_ok += len([f for f in E.fns.values() if f.name not in bad])
            for r in st:
                viol.append({"function": r["function"], "aspect": "state", "where": r["where"], "why": [r["why"]],
                             "rule": "no unseeded or global random state, no module-level object written, no memoised mutable result"})
            samples += [{"function": f.name, "where": f"{f.mod.path}:{f.fdef.lineno}"} for f in list(E.fns.values())[:20]]
        stats.update(E.checked)

    known = load_known(pid)
    alarms = []
    for v in viol:
        k = next((x for x in known if x[0] == v["function"] and x[1] == v["aspect"]), None)
        if k:
            print(f"KNOWN-FINDING: property={pid} {k[2]}")
        else:
            alarms.append(v)
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", "replay", pid + ".json")
    with open(replay, "w") as fh:
        json.dump({"property": pid, "repo": a.repo, "violations": alarms, "rerun": f"python3 check.py {pid} --tier {a.tier}"}, fh, indent=1)
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED") or 0), "level": "other",
        "coverage": {
            "explanation": "Static comparison of value-flow terms lifted from the current source with reference definitions, per function and "
            "observable aspect (result, rejected inputs, final state of arguments, warnings, defaults), plus the analyses named in `analyses`. "
            "An obligation is one aspect of one function, one table fact, or one function under the effect rules; discharged means proved equal "
            "(or free of the effect) for every input within the stated domain; undecided obligations are listed and raise no alarm.",
            "analyses": (["reference comparison"] if fns else []) + list(P["extra"]),
            "functions_compared": len(fns), "obligations": n_ob, "discharged": n_ok, "undecided": len(undecided),
            "undecided_list": undecided[:20], "samples": samples, **stats,
        },
        "assumptions": [
            "numpy/scipy/spglib functions behave as modelled in sa/npmodel.py or as uninterpreted functions of their arguments",
            "arguments have the shapes declared in sa/sigs.py; arithmetic is over the reals/complexes (rounding is not modelled)",
        ],
        "wall_s": round(time.time() - t0, 2), "violations": len(alarms),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for v in alarms:
        print(f"  {v['function']} [{v['aspect']}] at {v['where']}")
        for w in v["why"][:2]:
            print("     ", w[:400])
    for u in undecided[:6]:
        print(f"  undecided: {u['function']} [{u['aspect']}] {'; '.join(u['why'])[:200]}")
    print(f"property {pid}: {n_ok}/{n_ob} obligations discharged, {len(undecided)} undecided, {len(alarms)} violated, {ev['wall_s']} s")
    if alarms:
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
