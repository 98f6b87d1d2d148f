"""Run a check against seeded changes in scratch copies: try_bugs.py [ids...] [--checks A,B]  (default: the bug's own property)"""
import json, os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
checks = None
if "--checks" in args:
    k = args.index("--checks"); checks = args[k + 1].split(","); del args[k:k + 2]
ids = args or sorted(os.listdir("/verif/seeded"))
def run(i):
    d = f"/verif/seeded/{i}"
    meta = json.load(open(f"{d}/meta.json"))
    root = f"/tmp/plant/try-{i}"
    shutil.rmtree(root, ignore_errors=True); os.makedirs("/tmp/plant", exist_ok=True)
    subprocess.run(["cp", "-a", "/repo", root], check=True)
    r = subprocess.run(["git", "apply", f"{d}/patch.diff"], cwd=root)
    res = []
    for c in checks or [meta["property"]]:
        t = time.time()
        ev = f"{root}/.evidence"
        p = subprocess.run(["/verif/bin/check", c], capture_output=True, text=True,
                           env=dict(os.environ, VERIF_REPO=root, VERIF_PROCS="3", VERIF_SEED="1", VERIF_TIER="quick"))
        line = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")][:1]
        why = line or (p.stdout + p.stderr).strip().splitlines()[-2:]
        res.append(f"{i:24s} {c} rc={p.returncode} {time.time()-t:.0f}s {why}")
    shutil.rmtree(root)
    return res
with ThreadPoolExecutor(3) as ex:
    for res in ex.map(run, ids):
        for l in res: print(l, flush=True)
