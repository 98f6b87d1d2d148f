"""Turn an edit (old text -> new text) plus a demo into /verif/seeded/<id>.

usage: plant.py BUGS.py [ids...]     BUGS.py defines BUGS = [dict(id, property, file, edits, demo, needs, breaks)]
Works in scratch copies under /tmp; runs the stable tests and the demo both ways there.
"""
import json, os, subprocess, sys, shutil, runpy
from concurrent.futures import ThreadPoolExecutor
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", PYTHONHASHSEED="0", CUDA_VISIBLE_DEVICES="")

DEMO_SH = """#!/bin/bash
# exit 0: behaviour as it should be; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$here/demo.py"
"""

def tests(root):
    out = "/tmp/junit_" + os.path.basename(root) + ".xml"
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--continue-on-collection-errors", f"--junitxml={out}",
                    "--ignore=tests/test_edges.py", "--ignore=tests/test_metrics.py", "--ignore=tests/test_pooling.py"],
                   cwd=root, env=dict(ENV, PYTHONPATH=root), capture_output=True)
    import xml.etree.ElementTree as ET
    good = set()
    for tc in ET.parse(out).iter("testcase"):
        if not list(tc):
            good.add(tc.get("classname") + "::" + tc.get("name"))
    os.remove(out)
    return good

def plant(b):
    root = f"/tmp/plant/{b['id']}"
    shutil.rmtree(root, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", root], check=True)
    for f, old, new in b["edits"]:
        p = f"{root}/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            shutil.rmtree(root); return b["id"], f"edit matches {s.count(old)} times in {f}"
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=root, capture_output=True, text=True).stdout
    d = f"/verif/seeded/{b['id']}"
    os.makedirs(d, exist_ok=True)
    open(f"{d}/patch.diff", "w").write(diff)
    open(f"{d}/demo.py", "w").write(b["demo"].lstrip("\n"))
    open(f"{d}/demo.sh", "w").write(DEMO_SH); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    r = {}
    for name, cwd in (("clean", "/repo"), ("patched", root)):
        p = subprocess.run(["bash", f"{d}/demo.sh"], cwd=cwd, capture_output=True, text=True, env=ENV)
        r[name] = (p.returncode, (p.stdout + p.stderr)[-300:])
    good = tests(root)
    missing = GOOD - good
    ok = r["clean"][0] == 0 and r["patched"][0] != 0 and not missing
    if not ok:
        shutil.rmtree(d)
    if not b.get("keep"):
        shutil.rmtree(root)
    return b["id"], "ok" if ok else f"REJECTED clean={r['clean']} patched={r['patched']} failing={sorted(missing)[:3]}"

if __name__ == "__main__":
    GOOD = tests("/repo") 
    BUGS = runpy.run_path(sys.argv[1])["BUGS"]
    ids = sys.argv[2:]
    todo = [b for b in BUGS if not ids or b["id"] in ids]
    with ThreadPoolExecutor(6) as ex:
        for i, msg in ex.map(plant, todo):
            print(i, msg, flush=True)
