"""Runs the cases of one property, writes its evidence file, prints the verdict."""
import json
import multiprocessing as mp
import os
import pickle
import select
import signal
import subprocess
import sys
import time
import traceback

from . import core, smt, harness, loader

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REGISTRY = {}


def case(prop, name, tier="quick", bounds="", **cfg):
    def deco(fn):
        REGISTRY.setdefault(prop, []).append(dict(prop=prop, name=name, tier=tier, bounds=bounds, fn=fn, **cfg))
        return fn

    return deco


def _worker(env, cfg, seed, deadline, wfd):
    t0 = time.time()
    try:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("VSYM_DEBUG"):
            os.dup2(devnull, 2)
        sys.setrecursionlimit(20000)
        d = harness.Decider(env, cfg["fn"], {k: v for k, v in cfg.items() if k != "fn"}, seed, deadline)
        r = d.run()
        r["stats"] = dict(smt.STATS)
        r["error"] = None
    except BaseException as e:
        r = {"error": "%s: %s" % (type(e).__name__, e), "trace": traceback.format_exc()[-1500:], "stats": dict(smt.STATS)}
    r["wall"] = time.time() - t0
    data = pickle.dumps(dict(r))
    with os.fdopen(wfd, "wb") as f:
        f.write(data)
        f.flush()
    os._exit(0)


def run_cases(env, cases, seed, budget, jobs):
    """fork one process per case, at most `jobs` at a time; each case has its own time limit"""
    t0 = time.time()
    todo = list(cases)[::-1]
    live = {}
    results = {}
    while todo or live:
        while todo and len(live) < jobs and time.time() - t0 < budget:
            c = todo.pop()
            rfd, wfd = os.pipe()
            dl = time.time() + min(c.get("limit", 150), max(5, budget - (time.time() - t0)))
            pid = os.fork()
            if pid == 0:
                os.close(rfd)
                os.setpgid(0, 0)
                _worker(env, c, seed, dl, wfd)
            os.close(wfd)
            live[rfd] = [pid, c, dl, b""]
        if todo and time.time() - t0 >= budget:
            for c in todo:
                results[c["name"]] = {"error": "not started: time budget", "stats": {}, "wall": 0}
            todo = []
        if not live:
            continue
        rd, _, _ = select.select(list(live), [], [], 0.5)
        for fd in rd:
            chunk = os.read(fd, 1 << 20)
            if chunk:
                live[fd][3] += chunk
            else:
                pid, c, dl, data = live.pop(fd)
                os.close(fd)
                os.waitpid(pid, 0)
                try:
                    results[c["name"]] = pickle.loads(data)
                except Exception:
                    results[c["name"]] = {"error": "worker died", "stats": {}, "wall": 0}
        for fd in list(live):
            pid, c, dl, data = live[fd]
            if time.time() > dl + 45:
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                del live[fd]
                results[c["name"]] = {"error": "time limit", "stats": {}, "wall": time.time() - dl}
    return results


def known_findings():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))
    except OSError:
        return []


def matches(finding, prop, v):
    if finding.get("status") == "fixed" or finding.get("property") != prop:
        return False
    return finding.get("case") == v["case"] and harness.group(v["claim"]) in finding.get("claims", [])


def sanity():
    """the solver itself must answer sat and unsat correctly; two solvers must agree"""
    x, y = core.var("sx"), core.var("sy")
    core.set_ctx(core.Ctx())
    id_ok = core.cmp("==", (x + y) * (x - y), x * x - y * y)
    id_bad = core.cmp("==", (x + y) * (x + y), x * x + y * y)
    vs = smt.check_many([id_ok, id_bad])
    core.set_ctx(None)
    return vs == ["unsat", "sat"] or (vs[0] == "unsat" and id_ok is True)


def main(prop, tier, seed, only=None):
    t0 = time.time()
    env = harness.Env()
    load_s = time.time() - t0
    cases = [c for c in REGISTRY.get(prop, []) if tier == "thorough" or c["tier"] == "quick"]
    if only:
        cases = [c for c in cases if only in c["name"]]
    if not cases:
        print("no cases for", prop)
        return 2
    cases.sort(key=lambda c: -c.get("cost", 1))
    budget = float(os.environ.get("VSYM_BUDGET", "560" if tier == "quick" else "800"))
    if tier == "thorough":
        for c in cases:
            c["limit"] = c.get("limit", 150) * 4
            c["points"] = c.get("points", 3) + 5
    jobs = int(os.environ.get("VSYM_JOBS", "8"))
    res = run_cases(env, cases, seed, budget, jobs)
    kf = known_findings()
    tot = dict(paths=0, decisions=0, claims=0, proved=0, trivial=0, robust=0, unknown=0, validated=0, calls=0, stmts=0, queries=0, feas=0, solver=0.0, unsat=0, sat=0, unk=0)
    funcs, inconcl, viols, known, samples, percase, unsup = set(), [], [], [], [], [], []
    for c in cases:
        r = res.get(c["name"]) or {"error": "no result", "stats": {}}
        st = r.get("stats", {})
        tot["queries"] += st.get("queries", 0)
        tot["feas"] += st.get("feasibility", 0)
        tot["solver"] += st.get("solver_s", 0.0)
        for k, kk in (("unsat", "unsat"), ("sat", "sat"), ("unknown", "unk")):
            tot[kk] += st.get(k, 0)
        if r.get("error"):
            inconcl.append("%s: %s" % (c["name"], r["error"]))
            if os.environ.get("VSYM_DEBUG"):
                print(r.get("trace"))
            continue
        for k, kk in (("paths", "paths"), ("decisions", "decisions"), ("claims", "claims"), ("proved", "proved"), ("proved_trivial", "trivial"), ("robust_only", "robust"), ("validated", "validated"), ("calls", "calls"), ("stmts", "stmts")):
            tot[kk] += r.get(k, 0)
        tot["unknown"] += len(r["unknown"])
        for f in r["funcs"]:
            funcs.add(tuple(f))
        for u in r["unknown"][:3]:
            inconcl.append("%s: %s" % (c["name"], u))
        for u in r["unsupported"][:2]:
            unsup.append("%s: %s" % (c["name"], u))
        for u in r["crashes"][:2]:
            unsup.append("%s: %s at %s" % (c["name"], u["error"], u["where"]))
        for u in r["mismatches"][:2]:
            unsup.append("%s: encoding mismatch %s" % (c["name"], u))
        if r["truncated"]:
            inconcl.append("%s: path exploration truncated" % c["name"])
        if not r["witness"]:
            inconcl.append("%s: no concrete point satisfies the assumptions (vacuous)" % c["name"])
        for v in r["violations"]:
            hit = [f for f in kf if matches(f, prop, v)]
            (known if hit else viols).append((v, hit[0] if hit else None))
        if r["samples"] and len(samples) < 6:
            samples.append({"case": c["name"], "bounds": c["bounds"], "query": r["samples"][0]})
        percase.append(dict(case=c["name"], bounds=c["bounds"], paths=r["paths"], claims=r["claims"], proved=r["proved"], unknown=len(r["unknown"]), validated_points=r["validated"], seconds=round(r["wall"], 2)))
        if os.environ.get("VSYM_DEBUG"):
            print("%-50s paths %d claims %d proved %d (triv %d, rob %d) unk %d val %d viol %d unsup %s %.1fs" % (c["name"], r["paths"], r["claims"], r["proved"], r["proved_trivial"], r["robust_only"], len(r["unknown"]), r["validated"], len(r["violations"]), (r["unsupported"] + [str(x) for x in r["crashes"]])[:1] + r["mismatches"][:1], r["wall"]))
    EV = os.environ.get("VSYM_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(EV, "replays"), exist_ok=True)
    wall = time.time() - t0
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["calls"] + tot["stmts"],
            "traces_validated_against_impl": tot["validated"],
            "samples": samples or [{"case": c["name"], "bounds": c["bounds"]} for c in cases[:2]],
            "what_states_are": "symbolic path end states (each stands for every input of its path); transitions are symbolic calls of /repo functions plus GIMPLE statements executed symbolically",
            "cases": percase,
            "functions_encoded": sorted("%s:%s" % f for f in funcs),
            "sources": {os.path.relpath(k, loader.REPO): v for k, v in env.sym.encoded.items()},
            "obligations": tot["claims"],
            "obligations_discharged": tot["proved"],
            "discharged_by_normalisation": tot["trivial"],
            "discharged_up_to_tolerance": tot["robust"],
            "obligations_undecided": tot["unknown"],
            "branch_decisions": tot["decisions"],
            "solver_queries": tot["queries"],
            "solver_feasibility_queries": tot["feas"],
            "solver_unsat": tot["unsat"],
            "solver_sat": tot["sat"],
            "solver_unknown": tot["unk"],
            "solver_seconds": round(tot["solver"], 2),
            "inconclusive": inconcl[:40],
            "not_encoded": unsup[:40],
        },
        "assumptions": ASSUMPTIONS,
        "wall_s": round(wall, 2),
        "violations": len(viols),
    }
    with open(os.path.join(EV, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for v, f in known:
        k = f.get("what")
        if k not in seen:
            seen.add(k)
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    for v, _ in viols:
        name = "%s-%s.json" % (prop, "".join(ch if ch.isalnum() else "_" for ch in v["case"] + "_" + harness.group(v["claim"]))[:80])
        path = os.path.join(EV, "replays", name)
        with open(path, "w") as f:
            json.dump(dict(property=prop, seed=seed, how_to="python run.py --replay %s" % path, **v), f, indent=1, default=str)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case %s claim %s %s (%s)" % (v["case"], v["claim"], v.get("error") or "got %s expected %s" % (v.get("got"), v.get("expected")), v["how"]))
    for i in (inconcl + unsup)[:20]:
        print("INCONCLUSIVE:", i)
    print("%s: %d cases, %d paths, %d/%d obligations discharged, %d queries, solver %.1f s, wall %.1f s" % (prop, len(cases), tot["paths"], tot["proved"], tot["claims"], tot["queries"], tot["solver"], wall))
    if viols:
        return 1
    if tot["proved"] == 0 and tot["validated"] == 0 and not any(r.get("fallback_points") for r in res.values()):
        return 2
    return 0


ASSUMPTIONS = [
    "machine floating point is read as exact real arithmetic; rounding error is outside the claim",
    "decimal literals are read as the decimal they spell",
    "numpy/scipy/LAPACK primitives obey their documented contracts (matrix inverse by adjugate, exact DFT, exact B-spline evaluation); xarray, which runs unmodified on symbolic entries, is trusted",
    "array sizes are the bounds stated per case; every entry is an unconstrained real within the stated assumptions",
    "divisors and determinants are non-zero (regular matrices) where the code divides or inverts",
]


def replay(path):
    v = json.load(open(path))
    env = harness.Env()
    for c in REGISTRY[v["property"]]:
        if c["name"] == v["case"]:
            st, cl, hh, info = harness.run_real(env, c["fn"], point=v["point"])
            print(st, [(b.label, b.a, b.b) for b in info[:5]] if st == "bad" else info)
            return 1 if st in ("bad", "raise") else 0
    return 2
