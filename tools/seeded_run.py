"""Evaluation aid: run the check of each planted bug's property against a scratch copy with the bug applied."""
import json, os, shutil, subprocess, sys
root = "/verif/seeded"
sc = "/tmp/seeded_run"
ids = sys.argv[1:] or sorted(os.listdir(root))
if os.path.exists(sc):
    shutil.rmtree(sc)
shutil.copytree("/repo/src", sc + "/src")
subprocess.run("git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x", shell=True, cwd=sc)
for i in ids:
    d = f"{root}/{i}"
    m = json.load(open(d + "/meta.json"))
    subprocess.run("git checkout -q -- .", shell=True, cwd=sc)
    r = subprocess.run(["git", "apply", d + "/patch.diff"], cwd=sc, capture_output=True, text=True)
    if r.returncode:
        print(i, "DOES NOT APPLY", r.stderr[:200]); continue
    e = subprocess.run([sys.executable, "/verif/check.py", m["property"], "--repo", sc], capture_output=True, text=True)
    tail = [l for l in e.stdout.splitlines() if l.strip()]
    print(f"{'CAUGHT' if e.returncode == 1 else 'missed' if e.returncode == 0 else 'ERROR'} {i}")
    for l in tail[:4] if e.returncode != 0 else tail[:4]:
        print("      ", l[:260])
    if e.returncode not in (0, 1):
        print(e.stderr[-500:])
shutil.rmtree(sc)
