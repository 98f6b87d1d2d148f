"""Runs one property's harnesses, in parallel, and writes its evidence file."""
import ast
import builtins
import importlib
import json
import multiprocessing as mp
import os
import sys
import time
from fractions import Fraction
from importlib.machinery import FileFinder, SourceFileLoader

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path[:0] = [REPO, HERE]


class _Source(SourceFileLoader):
    """always compile the source in the working tree, never a cached bytecode file"""

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return compile(_Casts().visit(ast.parse(self.get_data(path), path)), path, "exec", dont_inherit=True)


class _Casts(ast.NodeTransformer):
    """int(v) and float(v) keep symbolic numbers symbolic; on ordinary values they are the builtins"""

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in ("int", "float") and len(node.args) == 1 and not node.keywords \
                and not isinstance(node.args[0], ast.Starred):
            f = ast.Name(id=f"__symx_{node.func.id}__", ctx=ast.Load())
            node = ast.copy_location(ast.Call(func=ast.copy_location(f, node.func), args=node.args, keywords=[]), node)
        return node


builtins.__symx_int__ = int
builtins.__symx_float__ = float


def _hook(path):
    if path != REPO and not path.startswith(REPO + "/"):
        raise ImportError("not the code under test")
    return FileFinder(path, (_Source, [".py"]))


sys.path_hooks.insert(0, _hook)
sys.path_importer_cache.clear()

FAMILIES = {"P": "padding", "U": "specs", "S": "shapes", "K": "pooling", "F": "filtering", "M": "metrics", "C": "cfa",
            "X": "misc", "G": "general"}


def family(pid):
    return importlib.import_module("checks." + FAMILIES[pid[0]])


def enc(v):
    if isinstance(v, Fraction):
        return {"frac": [str(v.numerator), str(v.denominator)]}
    return v


def dec(v):
    if isinstance(v, dict) and "frac" in v:
        return Fraction(int(v["frac"][0]), int(v["frac"][1]))
    return v


def _preload(fam):
    """import the code under test before any mode is active; failures surface in the harness"""
    from symx import pymath, state
    pymath.install()
    for m in getattr(fam, "IMPORTS", ()):
        try:
            importlib.import_module(m)
        except Exception:
            pass
    state.snapshot()


def trace_functions(f):
    """names of the repository functions entered while f runs"""
    seen = set()

    def prof(frame, event, arg):
        if event == "call":
            co = frame.f_code
            fn = co.co_filename
            if fn.startswith(REPO + "/"):
                seen.add(fn[len(REPO) + 1:] + ":" + co.co_qualname)
    sys.setprofile(prof)
    try:
        return f(), seen
    finally:
        sys.setprofile(None)


def run_cfg(job):
    pid, cfg, budget, tier = job
    import torch
    torch.set_num_threads(1)
    from symx.engine import explore, Options
    fam = family(pid)
    opt = Options()
    opt.max_seconds = budget
    for k, v in getattr(fam, "OPTIONS", {}).get(pid, {}).items():
        setattr(opt, k, v)
    t0 = time.time()
    harness = fam.HARNESS[cfg["h"]]
    (rep, status, info), funcs = trace_functions(lambda: explore(harness, cfg, opt))
    return cfg, rep, status, info, sorted(funcs), time.time() - t0


def _init():
    import torch
    torch.set_num_threads(1)


def main(argv):
    if argv and argv[0] == "--replay":
        return replay_file(argv[1])
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    import torch
    torch.set_num_threads(1)
    fam = family(pid)
    _preload(fam)
    from symx import engine
    limit = 800 if tier == "quick" else 6 * 3600
    cfgs = fam.PROPS[pid](tier)
    known = load_known(pid)
    total = engine.new_report()
    funcs, samples, bad, viol, kn = set(), [], [], [], []
    jobs = [(pid, c, limit - 30, tier) for c in cfgs]
    # large jobs first when the family says so
    jobs.sort(key=lambda j: -j[1].get("weight", 1))
    nproc = int(os.environ.get("VERIF_PROCS", "0")) or min(8, os.cpu_count() or 1)
    slow = []
    if nproc == 1 or len(jobs) == 1:
        it, pool = map(run_cfg, jobs), None
    else:
        pool = mp.get_context("fork").Pool(min(nproc, len(jobs)), initializer=_init, maxtasksperchild=40)
        it = pool.imap_unordered(run_cfg, jobs)
    done = 0
    try:
        for cfg, rep, status, info, fs, dt in it:
            done += 1
            engine.merge(total, rep)
            funcs.update(fs)
            slow.append((round(dt, 2), cfg))
            if status == "violation":
                k = match_known(known, cfg, info)
                if k is not None:
                    kn.append(k)
                    continue
                viol.append((cfg, info))
                break
            if status == "inconclusive":
                bad.append((cfg, info))
                if time.time() - t0 > limit:
                    break
    finally:
        if pool is not None:
            pool.terminate()
            pool.join()
    wall = time.time() - t0
    rc = 0
    if viol:
        cfg, info = viol[0]
        path = write_replay(pid, cfg, info)
        print(f"counterexample: {info['what'].splitlines()[0]}")
        print(f"real code: {info['replayed']}")
        print(f"configuration: {json.dumps({k: v for k, v in cfg.items()})}")
        print(f"VIOLATION property={pid} replay={path}")
        rc = 1
    elif bad:
        for cfg, info in bad[:5]:
            print(f"INCONCLUSIVE {pid} {json.dumps(cfg)}: {info}", file=sys.stderr)
        rc = 2
    for k in sorted(set(kn)):
        print(f"KNOWN-FINDING: property={pid} {k}")
    slow.sort(key=lambda x: -x[0])
    write_evidence(pid, tier, seed, fam, cfgs, done, total, funcs, wall, len(viol), slow)
    if os.environ.get("VERIF_VERBOSE"):
        print(json.dumps({"slowest": slow[:6]}))
    print(f"{pid} {tier}: {'ok' if rc == 0 else 'rc=%d' % rc}; {done}/{len(cfgs)} configurations, {total['paths']} paths, "
          f"{total['obligations']} obligations, {total['queries']} queries, solver {total['solver_s']:.2f}s, wall {wall:.1f}s")
    return rc


def load_known(pid):
    p = os.path.join(HERE, "known_findings.json")
    try:
        data = json.load(open(p))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == pid]


def match_known(known, cfg, info):
    for f in known:
        if all(cfg.get(k) == v for k, v in f["configuration"].items()) and f.get("contains", "") in (info["what"] + info["replayed"]):
            return f["what"]
    return None


def write_replay(pid, cfg, info):
    d = os.path.join(HERE, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{pid}.json")
    json.dump({"property": pid, "configuration": cfg, "values": {k: enc(v) for k, v in info["model"].items()},
               "what": info["what"], "real_code": info["replayed"],
               "how": f"bin/check --replay {p}"}, open(p, "w"), indent=1, default=str)
    return p


def replay_file(p):
    d = json.load(open(p))
    import torch
    torch.set_num_threads(1)
    fam = family(d["property"])
    _preload(fam)
    from symx.engine import replay
    ok, msg = replay(fam.HARNESS[d["configuration"]["h"]], d["configuration"], {k: dec(v) for k, v in d["values"].items()})
    print(("reproduced: " if ok else "not reproduced: ") + msg)
    return 1 if ok else 0


def write_evidence(pid, tier, seed, fam, cfgs, done, tot, funcs, wall, nviol, slow):
    meta = fam.META[pid]
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["branches"] + tot["obligations"],
            "traces_validated_against_impl": tot["paths"] + tot["restarts"],
            "samples": ([{"configuration": s[1]} for s in slow[:3]] + tot["samples"])[:8],
            "explanation": "symbolic execution of the repository's own functions on real torch; one state = one explored path "
                           "(each also ran concretely with solver-chosen values), one transition = one branch alternative or "
                           "obligation handed to the solver",
            "configurations": done, "paths": tot["paths"], "branch_alternatives": tot["branches"],
            "infeasible_alternatives": tot["infeasible"],
            "obligations": tot["obligations"], "discharged": tot["discharged"],
            "element_equalities_identical_after_normalisation": tot["identical"],
            "kernel_values_cross_validated": tot["crossval"],
            "solver": "z3 (Python API)", "queries": tot["queries"], "unsat": tot["unsat"], "sat": tot["sat"],
            "unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 3), "max_query_s": round(tot["max_query_s"], 3),
            "max_symbolic_values_per_path": tot["decls"], "uninitialised_cells_tracked": tot["undef_cells"],
            "functions_encoded": sorted(funcs), "torch_operations_encoded": tot["ops"],
            "bounds": meta["bounds"], "outside_the_bounds": meta.get("outside", ""),
            "exhaustive": False,
        },
        "assumptions": meta.get("assumptions", []) + COMMON,
        "wall_s": round(wall, 2), "violations": nviol,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1, default=str)


COMMON = [
    "real arithmetic stands for floating point: rounding is not modelled (kernel results are cross-validated at solver-chosen values)",
    "tensor elements are finite; NaN/Inf inputs are outside the claim unless stated",
    "the torch kernels behave as documented (data movement is encoded by running the kernel itself on labels)",
    "z3 is trusted for unsat answers; every sat answer is replayed on the real code before it is reported",
]

if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
