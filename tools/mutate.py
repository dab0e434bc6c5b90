"""Mutation testing of the checks (a development tool, no check runs it).

python tools/mutate.py OUT.jsonl SEED COUNT WORKERS [FILE...]
Changes one operator, constant, condition or statement of a copy of the code,
runs the checks of the properties anchored in that file (one shard,
interpreted) and records which one noticed.
"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TOP = "moving_mesh_transport/"
S, F, L = "solver_classes/", "solver_functions/", "loading_and_saving/"
MAP = {
    S + "functions.py": "P01 P02 P14 P15 P12 P16 P26 P11",
    S + "make_phi.py": "P03 P11",
    S + "build_problem.py": "P12 P17 P11 P09 P13",
    S + "chebyshev_matrix_builder.py": "P07 P10",
    S + "cubic_spline.py": "P23",
    S + "matrices.py": "P06 P07 P09 P10",
    S + "mesh.py": "P04 P05 P25",
    S + "mesh_functions.py": "P25 P04 P05",
    S + "mutables.py": "P12",
    S + "numerical_flux.py": "P08 P09 P10",
    S + "opacity.py": "P17 P09",
    S + "phi_class.py": "P18 P09 P10",
    S + "radiative_transfer.py": "P19",
    S + "rhs_class_1.py": "P09 P10 P24 P18 P17",
    S + "sources.py": "P13 P09",
    S + "uncollided_solutions.py": "P14 P15 P16",
    S + "GMAT_sphere.py": "P07",
    F + "Chebyshev_matrix_reader.py": "P07 P11",
    F + "main_functions.py": "P11 P26 P22",
    F + "run_functions.py": "P26",
    F + "wave_loc_estimator.py": "P25",
    "solver.py": "P26",
    L + "load_parameters.py": "P20",
    L + "load_solution.py": "P21",
    L + "save_output.py": "P21 P26",
    L + "load_bench.py": "P22",
    L + "load_bench_su_olson.py": "P22",
    "misc_functions.py": "P22",
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
       ast.Div: ast.Mult, ast.Pow: ast.Mult}


def sites(tree):
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef):
            continue
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and getattr(n.func, "id", "") == "print":
                continue
            if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
                out.append((n, "cmp"))
            if isinstance(n, ast.BinOp) and type(n.op) in BIN:
                out.append((n, "bin"))
            if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                out.append((n, "const"))
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
                out.append((n, "neg"))
            if isinstance(n, ast.If):
                out.append((n, "if"))
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                out.append((n, "drop"))
            if isinstance(n, ast.BoolOp):
                out.append((n, "bool"))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) \
                    and n.attr in ("tfinal", "t0", "x0", "sigma_t", "sigma_s"):
                out.append((n, "attr"))
    return out


def change(n, kind, r):
    if kind == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif kind == "bin":
        n.op = BIN[type(n.op)]()
    elif kind == "const":
        v = n.value
        n.value = v + r.choice([1, -1]) if isinstance(v, int) else v * 1.5 + (
            v == 0)
    elif kind == "neg":
        n.op = ast.UAdd()
    elif kind == "if":
        n.test = ast.UnaryOp(ast.Not(), n.test)
    elif kind == "drop":
        n.targets = [ast.Name("_unused", ast.Store())]
        if isinstance(n, ast.AugAssign):
            n.value = ast.Constant(0)
            n.op = ast.Add()
    elif kind == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == "attr":
        n.attr = {"tfinal": "t0", "t0": "tfinal", "sigma_t": "sigma_s",
                  "sigma_s": "sigma_t", "x0": "t0"}[n.attr]


def mutants(files, count, seed):
    r = random.Random(seed)
    pool = []
    for f in files:
        text = open(os.path.join("/repo", TOP, f)).read()
        n = len(sites(ast.parse(text)))
        weight = min(n, 400)
        pool += [(f, i) for i in r.sample(range(n), weight)]
    r.shuffle(pool)
    for f, i in pool[:count]:
        text = open(os.path.join("/repo", TOP, f)).read()
        tree = ast.parse(text)
        n, kind = sites(tree)[i]
        before = ast.unparse(n).splitlines()[0]
        line = n.lineno
        if kind == "drop" and isinstance(n, ast.AugAssign):
            n.op, n.value = ast.Add(), ast.Constant(0)
        else:
            change(n, kind, r)
        after = ast.unparse(n).splitlines()[0]
        try:
            new = ast.unparse(ast.fix_missing_locations(tree))
            compile(new, f, "exec")
        except Exception:           # noqa: BLE001
            continue
        yield dict(file=f, line=line, kind=kind, before=before[:160],
                   after=after[:160]), new


def judge(slot, m, new):
    top = f"/tmp/mut/{slot}"
    path = os.path.join(top, "repo", TOP, m["file"])
    keep = open(path, newline="").read()
    open(path, "w").write(new)
    t0 = time.time()
    m["killed"] = None
    try:
        for pid in MAP[m["file"]].split():
            wd = os.path.join(top, "wd")
            shutil.rmtree(wd, ignore_errors=True)
            os.makedirs(wd)
            sys.path.insert(0, VERIF)
            from pbt.core import env_for
            env = env_for("interp", wd)
            env.update(PBT_REPO=os.path.join(top, "repo"), PBT_NOSHRINK="1")
            out = os.path.join(wd, "r.json")
            try:
                p = subprocess.run(
                    [sys.executable, "-m", "pbt.core", "worker", pid, "quick",
                     "7", "0", "1", out, "30", "interp"], cwd=wd, env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=150)
                d = json.load(open(out)) if os.path.exists(out) else None
                if d is None or not d["done"]:
                    m["killed"], m["how"] = pid, "crash " + p.stdout.decode(
                        errors="replace")[-200:]
                elif d["failures"]:
                    m["killed"] = pid
                    m["how"] = d["failures"][0]["what"][:200]
            except subprocess.TimeoutExpired:
                m["killed"], m["how"] = pid, "timeout"
            if m["killed"]:
                break
    finally:
        open(path, "w", newline="").write(keep)
    m["secs"] = round(time.time() - t0)
    return m


def main():
    out, seed, count, workers = sys.argv[1], int(sys.argv[2]), \
        int(sys.argv[3]), int(sys.argv[4])
    files = sys.argv[5:] or list(MAP)
    slots = list(range(workers))
    base = int(os.environ.get("SLOT0", "0"))
    for s in slots:
        top = f"/tmp/mut/{base + s}"
        shutil.rmtree(top, ignore_errors=True)
        shutil.copytree("/repo", os.path.join(top, "repo"),
                        ignore=shutil.ignore_patterns(".git", "*.hdf5"))
    import queue
    q = queue.Queue()
    for s in slots:
        q.put(base + s)

    def job(x):
        m, new = x
        s = q.get()
        try:
            m = judge(s, m, new)
        finally:
            q.put(s)
        with open(out, "a") as f:
            f.write(json.dumps(m) + "\n")

    with ThreadPoolExecutor(workers) as ex:
        list(ex.map(job, [(copy.deepcopy(m), n)
                          for m, n in mutants(files, count, seed)]))


if __name__ == "__main__":
    main()
