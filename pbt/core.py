"""The generated-input search behind every check.

A property module declares Check objects: a Hypothesis strategy that yields a
JSON-serialisable case, and a function that runs the code under test on the
case and raises Violation when the oracle disagrees.  The function returns
True when the case was non-trivial by the module's RULE.

worker()  runs one shard of one property in this process.
run()     is the parent: it spawns the shards, collects counts, confirms a
          failure found on the interpreted code with the compiled code, writes
          the evidence file and the replay file, and decides the exit status.
"""
import argparse
import hashlib
import json
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
PY = sys.executable
PYVENV = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"


class Violation(Exception):
    """The oracle and the code disagree."""


class CaseTimeout(Exception):
    pass


class Check:
    def __init__(self, name, strategy, fn, quick=200, thorough=None, jit=None,
                 known=None):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12
        self.jit = jit if jit is not None else max(1, min(60, quick // 4))


def hypothesis():
    try:
        import hypothesis as h
    except ImportError:
        sys.path.append(PYVENV)
        import hypothesis as h
    return h


def load_property(pid):
    import importlib
    hypothesis()
    return importlib.import_module("pbt.props." + pid.lower())


def canon(case):
    return json.dumps(case, sort_keys=True)


def digest(text):
    return hashlib.sha1(text.encode()).hexdigest()[:16]


def describe(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    where = [f"{os.path.basename(f.filename)}:{f.lineno}" for f in tb][-4:]
    return f"{type(exc).__name__}: {str(exc)[:600]} @ {' < '.join(reversed(where))}"


def _alarm(signum, frame):
    raise CaseTimeout("no answer within the time limit of a case")


def execute(check, case, limit):
    """Run one case; returns (nontrivial, None) or (None, failure text)."""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        return bool(check.fn(case)), None
    except Exception as e:          # noqa: BLE001 - any escape is a verdict
        return None, describe(e)
    finally:
        signal.alarm(0)


# --------------------------------------------------------------------------
def worker(pid, tier, seed, shard, nshards, out, budget, mode):
    h = hypothesis()
    prop = load_property(pid)
    started = time.time()
    limit = 120 if mode == "interp" else 800
    res = {"checks": {}, "failures": [], "done": False}
    cur = out + ".current"

    def save():
        with open(out + ".tmp", "w") as f:
            json.dump(res, f)
        os.replace(out + ".tmp", out)

    for ci, check in enumerate(prop.CHECKS):
        n = _count(prop, check, tier, mode)
        share = n // nshards + (1 if shard < n % nshards else 0)
        # a rotating start so that a check with n < nshards runs somewhere
        if n < nshards:
            share = 1 if (shard - ci) % nshards < n else 0
        if share == 0:
            continue
        st = {"evaluations": 0, "nontrivial": {}, "samples": [], "trivial": 0,
              "skipped": 0}
        res["checks"][check.name] = st
        state = {"fail": None, "first_fail_t": None}
        t_end = started + budget * (ci + 1) / len(prop.CHECKS)

        def one(case):
            now = time.time()
            if state["fail"] is None:
                if now > t_end and st["evaluations"] >= 1:
                    st["skipped"] += 1
                    return
            elif now - state["first_fail_t"] > 45:
                return                      # shrinking has had its time
            text = canon(case)
            with open(cur, "w") as f:
                f.write(json.dumps({"check": check.name, "case": case,
                                    "t": now}))
            nontrivial, fail = execute(check, case, limit)
            if state["fail"] is None:
                st["evaluations"] += 1
                if fail is None:
                    if nontrivial:
                        st["nontrivial"][digest(text)] = 1
                        if len(st["samples"]) < 2 or (
                                len(st["samples"]) < 3
                                and st["evaluations"] % 17 == 0):
                            st["samples"].append(case)
                    else:
                        st["trivial"] += 1
            if fail is not None:
                if state["fail"] is None:
                    state["first_fail_t"] = now
                if state["fail"] is None or \
                        (len(text), text) <= state["fail"][0]:
                    state["fail"] = ((len(text), text), case, fail)
                raise Violation(fail)

        s = int(hashlib.sha1(
            f"{seed}/{pid}/{check.name}/{shard}".encode()).hexdigest()[:8], 16)
        settings = h.settings(
            max_examples=share, database=None, deadline=None,
            suppress_health_check=list(h.HealthCheck), print_blob=False,
            report_multiple_bugs=False,
            phases=[h.Phase.explicit, h.Phase.generate] + (
                [] if os.environ.get("PBT_NOSHRINK") else [h.Phase.shrink]),
            verbosity=h.Verbosity.quiet)
        try:
            h.seed(s)(settings(h.given(check.strategy)(one)))()
        except Exception as e:      # noqa: BLE001
            if state["fail"] is None:
                res["failures"].append({
                    "check": check.name, "case": None, "harness": True,
                    "what": describe(e)})
        st["seconds"] = round(time.time() - started, 1)
        st["nontrivial"] = list(st["nontrivial"])
        if state["fail"] is not None:
            res["failures"].append({"check": check.name,
                                    "case": state["fail"][1],
                                    "what": state["fail"][2]})
            save()
            break
        save()
    res["done"] = True
    save()
    return 0


def _count(prop, check, tier, mode):
    if mode == "jit":
        return check.jit if tier == "quick" else check.jit * 4
    if tier != "quick":
        return check.thorough
    # modules without a budget of their own are short ones
    return int(check.quick * (1 if hasattr(prop, "QUICK_BUDGET") else 8))


# --------------------------------------------------------------------------
def env_for(mode, scratch):
    env = dict(os.environ)
    for k in ("NUMBA_DISABLE_JIT", "NUMBA_BOUNDSCHECK"):
        env.pop(k, None)
    env.update(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
               PYTHONHASHSEED="0", PBT_MODE=mode, PYTHONPATH=VERIF,
               OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               NUMBA_NUM_THREADS="1", PBT_SCRATCH=scratch)
    if os.path.isdir("/opt/venv/mplconfig"):
        env.setdefault("MPLCONFIGDIR", "/opt/venv/mplconfig")
    return env


def spawn_shards(pid, tier, seed, mode, nshards, budget, hard, scratch):
    procs = []
    for i in range(nshards):
        wd = os.path.join(scratch, f"{mode}{i}")
        os.makedirs(wd, exist_ok=True)
        out = os.path.join(wd, "result.json")
        log = open(os.path.join(wd, "log"), "w")
        p = subprocess.Popen(
            [PY, "-m", "pbt.core", "worker", pid, tier, str(seed), str(i),
             str(nshards), out, str(budget), mode],
            cwd=wd, env=env_for(mode, wd), stdout=log,
            stderr=subprocess.STDOUT, start_new_session=True)
        procs.append((p, out, wd))
    deadline = time.time() + hard
    results, failures, errors = [], [], []
    for p, out, wd in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
            how = f"worker ended with status {rc}"
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc, how = None, "no answer: worker had to be stopped"
        data = None
        if os.path.exists(out):
            data = json.load(open(out))
            results.append(data)
            failures += data["failures"]
        if data is None or not data["done"]:
            cur = None
            if os.path.exists(out + ".current"):
                try:
                    cur = json.load(open(out + ".current"))
                except ValueError:
                    cur = None
            log = open(os.path.join(wd, "log")).read()[-1500:]
            if cur is not None:
                failures.append({"check": cur["check"], "case": cur["case"],
                                 "what": how + ": " + log[-300:]})
            else:
                errors.append({"check": None, "case": None, "harness": True,
                               "what": how + ": " + log})
    return results, failures, errors


def replay(pid, path, limit=800):
    """Re-run one replay file in this process; exit 1 if it fails."""
    data = json.load(open(path))
    prop = load_property(pid)
    from pbt import shim
    for c in prop.CHECKS:
        if c.name == data["check"]:
            _, fail = execute(c, data["case"], limit)
            if fail is None:
                shim.say(f"replay passes: {pid}/{c.name} mode={shim.MODE}")
                return 0
            shim.say(f"replay fails: {pid}/{c.name} mode={shim.MODE}: {fail}")
            return 1
    shim.say("no such check")
    return 3


def run(pid, tier=None, argv=()):
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"pbt-{pid}-")
    try:
        return _run(pid, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def probe_import(pid, scratch):
    """Import the property module in interp mode to learn its constants."""
    code = ("import json,sys\nfrom pbt import core\n"
            f"p=core.load_property({pid!r})\n"
            "from pbt import shim\n"
            "shim.say(json.dumps({'rule':p.RULE,"
            "'assumptions':getattr(p,'ASSUMPTIONS',[]),"
            "'quick_budget':getattr(p,'QUICK_BUDGET',60),"
            "'interp':getattr(p,'INTERP',True),"
            "'mode':getattr(p,'CONFIRM','jit')}))")
    r = subprocess.run([PY, "-c", code], cwd=scratch,
                       env=env_for("interp", scratch), capture_output=True,
                       text=True, timeout=200)
    lines = [x for x in r.stdout.splitlines() if x.startswith("{")]
    if not lines:
        return None, (r.stdout + r.stderr)[-1500:]
    return json.loads(lines[-1]), None


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def run_known(pid, scratch):
    """Print a KNOWN-FINDING line for each listed finding that still fails."""
    lines = []
    for d in known_findings(pid):
        wd = os.path.join(scratch, "kf")
        os.makedirs(wd, exist_ok=True)
        r = subprocess.run(
            [PY, "-m", "pbt.known", d["probe"]], cwd=wd,
            env=env_for("interp", wd), capture_output=True, text=True,
            timeout=300)
        still = r.returncode == 1
        if still:
            print(f"KNOWN-FINDING: property={pid} {d['what']}", flush=True)
        lines.append({"finding": d["what"], "still_fails": still})
    return lines


def _run(pid, tier, seed, t0, scratch):
    info, err = probe_import(pid, scratch)
    replays = os.path.join(VERIF, "replays")
    os.makedirs(replays, exist_ok=True)
    failures, errors, results = [], [], []
    phases = []
    if info is None:
        # the code under test does not even import
        failures = [{"check": "import", "case": {}, "what": err,
                     "import": True}]
        info = {"rule": "import", "assumptions": [], "quick_budget": 40}
    else:
        nsh = int(os.environ.get("PBT_SHARDS", "8"))
        if tier == "quick":
            plan = [("interp", nsh, info["quick_budget"], 420)]
        else:
            plan = [("interp", nsh, 330, 600), ("jit", 2, 150, 420)]
        for mode, n, budget, hard in plan:
            r, f, e = spawn_shards(pid, tier, seed, mode, n, budget, hard,
                                   scratch)
            phases.append({"mode": mode, "shards": n})
            for x in f:
                x["mode"] = mode
            results += r
            failures += f
            errors += e
            if f or e:
                break
    known = run_known(pid, scratch) if not failures else []

    verdict = None
    artefacts = []
    failures.sort(key=lambda f: (bool(f.get("harness")), len(canon(f["case"]))))
    for f in failures[:3]:
        if f.get("harness"):
            errors.append(f)
            continue
        path = os.path.join(
            replays, f"{pid}-{f['check']}-{digest(canon(f['case']))}.json")
        with open(path, "w") as fh:
            json.dump({"property": pid, "check": f["check"],
                       "case": f["case"], "what": f["what"], "seed": seed},
                      fh, indent=1)
        if f.get("import"):
            verdict = (f, path)
            break
        confirmed = True
        if f.get("mode") == "interp":
            confirmed = confirm(pid, path, scratch)
        if confirmed:
            verdict = (f, path)
            break
        artefacts.append({"check": f["check"], "what": f["what"]})
        os.unlink(path)
    if verdict is None and artefacts and not errors:
        # The interpreted stand-in disagreed and the compiled code did not:
        # search again on the compiled code alone.
        r, f, e = spawn_shards(pid, "quick", seed, "jit", 6, 60, 480, scratch)
        phases.append({"mode": "jit", "shards": 6, "why": artefacts})
        results, errors = results + r, errors + e
        for x in f:
            if x.get("harness"):
                errors.append(x)
                continue
            path = os.path.join(
                replays, f"{pid}-{x['check']}-{digest(canon(x['case']))}.json")
            with open(path, "w") as fh:
                json.dump({"property": pid, "check": x["check"],
                           "case": x["case"], "what": x["what"],
                           "seed": seed}, fh, indent=1)
            verdict = (x, path)
            break

    evidence(pid, tier, seed, info, results, phases, known, verdict, t0)
    if verdict is not None:
        f, path = verdict
        print(f"{pid}/{f['check']}: {f['what']}")
        print(f"minimal case: {canon(f['case'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        return 1
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR:", e["what"], file=sys.stderr)
        return 2
    return 0


def confirm(pid, path, scratch):
    wd = os.path.join(scratch, "confirm")
    os.makedirs(wd, exist_ok=True)
    p = subprocess.Popen([PY, "-m", "pbt.core", "replay", pid, path], cwd=wd,
                         env=env_for("jit", wd), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        p.communicate(timeout=480)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return True
    return p.returncode != 0


def evidence(pid, tier, seed, info, results, phases, known, verdict, t0):
    per, samples, evals, skipped = {}, [], 0, 0
    seen = set()
    for r in results:
        for name, st in r["checks"].items():
            d = per.setdefault(name, {"evaluations": 0, "trivial": 0,
                                      "distinct_nontrivial": 0})
            d["evaluations"] += st["evaluations"]
            d["trivial"] += st["trivial"]
            evals += st["evaluations"]
            skipped += st["skipped"]
            new = {(name, k) for k in st["nontrivial"]} - seen
            seen |= new
            d["distinct_nontrivial"] += len(new)
            have = sum(1 for s in samples if s["check"] == name)
            for c in st["samples"][:max(0, 2 - have)]:
                samples.append({"check": name, "case": c})
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(seen),
                       "rule": info["rule"], "samples": samples,
                       "per_check": per, "phases": phases,
                       "out_of_budget": skipped, "known_findings": known},
          "assumptions": info["assumptions"],
          "wall_s": round(time.time() - t0, 2),
          "violations": 0 if verdict is None else 1}
    if verdict is not None:
        ev["coverage"]["violation"] = {"check": verdict[0]["check"],
                                       "what": verdict[0]["what"],
                                       "replay": verdict[1]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    path = os.path.join(VERIF, "evidence", pid + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)


if __name__ == "__main__":
    what = sys.argv[1]
    if what == "worker":
        _, _, pid, tier, seed, shard, nsh, out, budget, mode = sys.argv
        sys.exit(worker(pid, tier, int(seed), int(shard), int(nsh), out,
                        float(budget), mode))
    if what == "replay":
        sys.exit(replay(sys.argv[2], sys.argv[3]))
