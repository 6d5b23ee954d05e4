"""Runs the cases of a property, replays failures on the real code, writes evidence, prints the verdict."""
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
REPO = os.environ.get("DV_REPO", "/repo")


class Case:
    """One verification case: fn(engine) is the harness, executed once per explored path."""

    def __init__(self, name, fn, setup=None, expect_reach=True, **opts):
        self.name, self.fn, self.setup, self.opts, self.expect_reach = name, fn, setup, opts, expect_reach


_CASES = None


def _again(i):
    import z3
    z3.set_param("smt.random_seed", 11)
    z3.set_param("sat.random_seed", 11)
    return _run_one(i, timeout_ms=45000)


def _run_one(i, **more):
    from dv.core import Engine
    c = _CASES[i]
    t = time.time()
    opts = dict(c.opts, **more)
    limit = opts.pop("limit_s", 240)
    e = Engine(c.name, deadline=time.time() + limit, **opts)
    try:
        if c.setup:
            c.setup(e)
        st = e.explore(lambda: c.fn(e))
        if st.obligations == 0 and not st.failed:
            st.failed.append(dict(name=c.name, kind="undecided", detail="no obligation was generated (vacuous case)"))
        if c.expect_reach and not st.failed and "end" not in e.reached:
            st.failed.append(dict(name=c.name, kind="undecided", detail="vacuity guard: end of harness not reachable"))
        if os.environ.get("DV_RECORD_HINTS") and not st.failed:
            from dv import jloops
            json.dump(dict(key=jloops.hint_key(c.name), hints=jloops.settled(e)), open(os.path.join(os.environ["DV_RECORD_HINTS"], c.name + ".json"), "w"))
    except Exception:
        st = e.stats
        st.failed.append(dict(name=c.name, kind="undecided", detail="exception: " + traceback.format_exc()[-1500:]))
    return i, st, time.time() - t


def run_cases(cases, nproc=None, verbose=False, stop_after=12):
    from dv.core import Stats
    global _CASES
    _CASES = cases
    nproc = nproc or min(8, os.cpu_count() or 1)
    total = Stats()
    times = []
    if not cases:
        return total, times
    ctx = mp.get_context("fork")
    started = time.time()

    def take(i, st, dt):
        total.merge(st)
        times.append((dt, cases[i].name))
        if verbose:
            print("  %-60s obl %d/%d paths %d solver %.1fs wall %.1fs%s" % (
                cases[i].name, st.discharged, st.obligations, st.paths, st.solver_s, dt, "  FAILED" if st.failed else ""), flush=True)
            for f in st.failed[:3]:
                print("      ", {k: v for k, v in f.items() if k != "goal"}, flush=True)

    with ctx.Pool(nproc, maxtasksperchild=1) as pool:
        again = []
        for i, st, dt in pool.imap_unordered(_run_one, range(len(cases))):
            if st.failed and all(f["kind"] == "undecided" for f in st.failed):
                again.append((i, st, dt))
            else:
                take(i, st, dt)
            if len(total.failed) + len(again) >= stop_after:
                pool.terminate()
                break
        # the solver gave up on a few: once more with another seed and more time
        if again and len(again) <= 8 and not total.failed and time.time() - started < 420:
            again = list(pool.imap_unordered(_again, [i for i, _st, _dt in again]))
        for i, st, dt in again:
            take(i, st, dt)
    return total, times


def replay_process(pid, budget, hints):
    """Runs the property's concrete search on the real code in a separate process."""
    req = json.dumps(dict(property=pid, budget=budget, hints=hints, seed=SEED))
    env = dict(os.environ)
    try:
        p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "--search", pid], input=req, text=True,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=budget * 3 + 180, env=env)
    except subprocess.TimeoutExpired:
        return dict(error="search timed out")
    for line in reversed(p.stdout.splitlines()):
        if line.startswith("SEARCH "):
            return json.loads(line[7:])
    return dict(error="search crashed: " + p.stderr[-2000:])


def load_known():
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    return json.load(open(path))


def main(argv):
    if argv and argv[0] == "--search":
        req = json.loads(sys.stdin.read())
        mod = importlib.import_module("checks." + req["property"].lower())
        res = mod.search(req["seed"], req["budget"], req["hints"])
        print("SEARCH " + json.dumps(res, default=str))
        return 0
    if argv and argv[0] == "--replay":
        req = json.load(open(argv[1]))
        mod = importlib.import_module("checks." + req["property"].lower())
        res = mod.search(req.get("seed", 1), 60, req.get("hints", []))
        print(json.dumps(res, indent=1, default=str))
        return 1 if res.get("failing") else 0
    pid = argv[0]
    verbose = "-v" in argv
    t0 = time.time()
    sys.path.insert(0, ROOT)
    mod = importlib.import_module("checks." + pid.lower())
    if hasattr(mod, "prepare"):
        try:
            mod.prepare()
        except Exception as ex:
            # the tree does not build or the contract cannot be attached
            print("prepare failed: %s" % (str(ex)[-3000:],))
            return finish(pid, mod, None, [], dict(), t0, prepare_error=str(ex)[-3000:])
    only = [a[2:] for a in argv if a.startswith("-k")]
    cases = mod.cases(TIER)
    if only:
        cases = [c for c in cases if any(o in c.name for o in only)]
    total, times = run_cases(cases, verbose=verbose, nproc=getattr(mod, "NPROC", None))
    budget = getattr(mod, "SEARCH_S", 8)
    if total.failed:
        budget = getattr(mod, "FAIL_SEARCH_S", 45)
    if TIER == "thorough":
        budget *= 4
    hints = [f for f in total.failed if f.get("model")][:20]
    search = replay_process(pid, budget, hints)
    if verbose:
        print("search:", str(search)[:1500])
    return finish(pid, mod, total, cases, search, t0)


def finish(pid, mod, total, cases, search, t0, prepare_error=None):
    known = [k for k in load_known() if k.get("property") == pid and k.get("status") == "known"]
    failed = list(total.failed) if total else [dict(name="prepare", kind="undecided", detail=prepare_error)]
    bounded = getattr(mod, "BOUNDED", [])
    violations = 0
    # known findings
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    known_cases = [k.get("case") for k in known if k.get("case")]
    suppressed = [f for f in failed if any(kc and kc in f["name"] for kc in known_cases)]
    failed = [f for f in failed if f not in suppressed]
    failing = search.get("failing") if search else None
    rc = 0
    if failed or failing:
        violations = 1
        rdir = os.path.join(ROOT, "out")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "replay_%s.json" % pid)
        json.dump(dict(property=pid, seed=SEED, failing=failing,
                       failed_obligations=[{k: f.get(k) for k in ("name", "kind", "detail", "model", "goal")} for f in failed[:40]],
                       hints=[f for f in failed if f.get("model")][:20],
                       search={k: v for k, v in (search or {}).items() if k != "failing"},
                       rerun="python3-vt %s --replay %s" % (os.path.join(ROOT, "check.py"), path)),
                  open(path, "w"), indent=1, default=str)
        for f in failed[:8]:
            print("obligation failed: %s [%s] %s" % (f["name"], f["kind"], str(f.get("detail"))[:300]))
        if failing:
            print("failing input on the real code: %s" % (json.dumps(failing, default=str)[:800],))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, path))
        rc = 1
    wall = time.time() - t0
    ob = total.obligations if total else 0
    di = total.discharged if total else 0
    trusted = list(getattr(mod, "TRUSTED", []))
    cov = dict(obligations=ob, discharged=di,
               checker_cmd="python3-vt /verif/check.py %s" % pid,
               trusted_base=trusted,
               functions_under_contract=list(getattr(mod, "FUNCTIONS", [])),
               cases=len(cases), paths=total.paths if total else 0, branches=total.branches if total else 0,
               solver_s=round(total.solver_s, 2) if total else 0, backend="z3",
               obligations_by_name=dict(sorted((total.names if total else {}).items(), key=lambda kv: -kv[1])[:60]),
               bounded_standins=bounded,
               failed=[f["name"] for f in failed[:40]],
               cross_check=dict(evaluations=(search or {}).get("evaluations", 0), what="the same spec functions evaluated on the unmodified code with concrete boundary and random inputs"),
               known_findings=[k["what"] for k in known])
    if total and hasattr(mod, "coverage"):
        cov.update(mod.coverage(total, cases, search))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(dict(property=pid, tier=TIER, seed=SEED, level=getattr(mod, "LEVEL", "proof"), coverage=cov,
                   assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=violations),
              open(os.path.join(ROOT, "evidence", pid + ".json"), "w"), indent=1, default=str)
    if rc == 0:
        print("property %s: %d/%d obligations discharged in %d cases (%.1f s solver, %.1f s wall); cross-check %s evaluations" % (
            pid, di, ob, len(cases), total.solver_s, wall, (search or {}).get("evaluations")))
        if search and search.get("error"):
            print("note: concrete cross-check failed to run: %s" % search["error"][-500:])
    return rc
