"""check driver: verify every contract unit of a property, replay counter-models, write evidence."""
from __future__ import annotations

import importlib
import json
import multiprocessing as mp
import os
import pathlib
import signal
import sys
import time
import traceback

ROOT = pathlib.Path(__file__).resolve().parent.parent


def _load(prop):
    for p in sorted((ROOT / "contracts").glob(f"{prop.lower()}_*.py")):
        return importlib.import_module(f"contracts.{p.stem}")
    raise SystemExit(f"no contracts for {prop}")


def _quiet():
    import logging
    import warnings
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")


def sym_job(args):
    prop, uname, budget, tier = args
    _quiet()
    from .engine import Engine
    mod = _load(prop)
    u = {f.__name__: f for f in mod.UNITS}[uname]
    t0 = time.time()
    e = Engine(u, deadline=time.time() + budget, unroll=getattr(u, "unroll", 2) + (1 if tier == "thorough" else 0),
               timeout_ms=5000 if tier == "quick" else 30000, max_paths=getattr(u, "max_paths", 20000))
    try:
        e.run()
    except BaseException as ex:
        e.undecided.append("engine: " + "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-3:]))
    fallback = None
    if e.had_cuts and (e.failures or e.undecided or e.unknowns):
        # the loop contracts do not fit: decide by bounded unrolling instead (labelled bounded)
        e2 = Engine(u, deadline=time.time() + getattr(mod, "FALLBACK_S", budget), unroll=max(3, getattr(u, "unroll", 2)),
                    timeout_ms=8000, max_paths=getattr(u, "max_paths", 20000), use_specs=False)
        try:
            e2.run()
        except BaseException as ex:
            e2.undecided.append("engine: " + "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-3:]))
        fallback = "bounded unrolling " + ("refutes" if e2.failures else "undecided" if e2.undecided or e2.unknowns
                                           else "finds no violation")
        if e2.failures:
            e.failures = e2.failures
        elif e.failures:
            e.undecided += [f"loop contract refuted: {f['label']}; {fallback}" for f in e.failures]
            if not (e2.undecided or e2.unknowns):
                e.failures = []
        e.bounded |= e2.bounded
        e.undecided += [f"(fallback) {x}" for x in e2.undecided]
    return {
        "unit": uname, "paths": e.paths, "obligations": e.obligations, "failures": e.failures,
        "unknowns": sorted(set(e.unknowns)), "undecided": [str(x)[:700] for x in e.undecided],
        "bounded": sorted(e.bounded), "covered": sorted(e.covered), "trusted": sorted(e.trusted),
        "functions": sorted(e.inlined), "backends": dict(e.backends), "solver_s": round(e.solver_time, 2),
        "solver_calls": e.solver_calls, "wall_s": round(time.time() - t0, 2),
    }


def conc_job(args):
    prop, uname, seed0, budget, values_list, maxruns = args
    _quiet()
    from .conc import ConcEngine, Violation
    mod = _load(prop)
    u = {f.__name__: f for f in (*mod.UNITS, *getattr(mod, "RUNTIME", ()))}[uname]
    t0 = time.time()
    runs = skips = ev = errors = 0
    distinct = set()
    sample = None
    first_error = None
    i = 0
    plan = [(v, s) for v in values_list for s in range(12)]
    while (i < len(plan) or not values_list or i < len(plan) * 1) and time.time() - t0 < budget and runs < maxruns:
        values, seed = plan[i] if i < len(plan) else (None, seed0 * 1_000_003 + i)
        i += 1
        if values_list and i > len(plan):
            break
        c = ConcEngine(u, seed=seed, values=values)
        signal.setitimer(signal.ITIMER_REAL, 10)
        try:
            r = c.run()
        except _Timeout:
            r = "skip"
        except BaseException as ex:
            if isinstance(ex, (KeyboardInterrupt, SystemExit)):
                raise
            errors += 1
            if first_error is None:
                first_error = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-2:])[-500:]
            r = "error"
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        runs += 1
        ev += c.evaluated
        if r == "skip":
            skips += 1
        elif r is None:
            if c.evaluated:
                distinct.add(json.dumps(c.used, sort_keys=True, default=str))
            if sample is None and c.evaluated > 1:
                sample = c.used
        elif isinstance(r, Violation):
            return {"unit": uname, "violation": {"label": r.label, "detail": r.detail, "seed": seed,
                                                 "values": values}, "runs": runs, "skips": skips, "evaluated": ev,
                    "distinct": len(distinct), "errors": errors}
        if errors > 200 and errors == runs:
            break
    return {"unit": uname, "violation": None, "runs": runs, "skips": skips, "evaluated": ev,
            "distinct": len(distinct), "errors": errors, "first_error": first_error, "sample": sample}


class _Timeout(BaseException):
    pass


def _alarm(*a):
    raise _Timeout()


def _child(q, fn, args):
    signal.signal(signal.SIGALRM, _alarm)
    try:
        q.put(fn(args))
    except BaseException as ex:
        q.put({"crash": "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:]), "unit": args[1]})


def parallel(jobs, nproc=8, hard=300):
    """[(fn, args)] -> results in order; each in its own process with a hard limit."""
    ctx = mp.get_context("fork")
    results = [None] * len(jobs)
    running = {}
    todo = list(range(len(jobs)))
    while todo or running:
        while todo and len(running) < nproc:
            i = todo.pop(0)
            q = ctx.SimpleQueue()
            p = ctx.Process(target=_child, args=(q, jobs[i][0], jobs[i][1]), daemon=True)
            p.start()
            running[i] = (p, q, time.time())
        time.sleep(0.02)
        for i, (p, q, t) in list(running.items()):
            if not q.empty():
                results[i] = q.get()
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[i]
            elif not p.is_alive():
                if not q.empty():
                    results[i] = q.get()
                else:
                    results[i] = {"crash": f"worker ended with {p.exitcode}", "unit": jobs[i][1][1]}
                del running[i]
            elif time.time() - t > hard:
                p.kill()
                results[i] = {"crash": "hard time limit", "unit": jobs[i][1][1]}
                del running[i]
    return results


def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    out = ROOT / "out"
    out.mkdir(exist_ok=True)
    (ROOT / "evidence").mkdir(exist_ok=True)
    try:
        mod = _load(prop)
        fns = {u.__name__: u for u in (*mod.UNITS, *getattr(mod, "RUNTIME", ()))}
        units = [u.__name__ for u in mod.UNITS]
        runtime = [u.__name__ for u in getattr(mod, "RUNTIME", ())]
        import_error = None
    except BaseException as ex:  # the tree does not import: nothing can be decided here
        import_error = "".join(traceback.format_exception(type(ex), ex, ex.__traceback__)[-4:])
        mod, units, runtime, fns = None, [], [], {}
    sym_budget = (getattr(mod, "QUICK_S", 60) if tier == "quick" else 400) if mod else 0
    fuzz_budget = getattr(mod, "FUZZ_S", 3) if tier == "quick" else 40
    jobs = [(sym_job, (prop, u, sym_budget, tier)) for u in units]
    jobs += [(conc_job, (prop, u, seed, fuzz_budget, [], 10**9)) for u in units if
             not getattr(fns[u], "no_fuzz", False)]
    jobs += [(conc_job, (prop, u, seed, getattr(fns[u], "budget", fuzz_budget * 2), [],
                         getattr(fns[u], "runs", 10**9))) for u in runtime]
    res = parallel(jobs, hard=max(sym_budget * 2, 120) + 60)
    syms = [r for (f, a), r in zip(jobs, res) if f is sym_job]
    concs = [r for (f, a), r in zip(jobs, res) if f is conc_job]

    violations = []
    for r in concs:
        if r.get("violation"):
            violations.append({"unit": r["unit"], "how": "contract clause false at run time on the real code",
                               **r["violation"]})
    # counter-models: replay on the real code
    refuted = [r for r in syms if r.get("failures")]
    replayed = {v["unit"] for v in violations}
    rjobs = []
    for r in refuted:
        if r["unit"] not in replayed:
            rjobs.append((conc_job, (prop, r["unit"], seed, 20, [f["values"] for f in r["failures"]], 10**6)))
            for s in range(3):
                rjobs.append((conc_job, (prop, r["unit"], seed + 7919 * (s + 1), 20, [], 10**9)))
    if rjobs:
        rr = parallel(rjobs, hard=60)
        for r in rr:
            if r.get("violation") and r["unit"] not in replayed:
                replayed.add(r["unit"])
                violations.append({"unit": r["unit"], "how": "counter-model/contract search replayed on the real code",
                                   **r["violation"]})
    unreplayed = []
    for r in refuted:
        if r["unit"] not in replayed:
            f = r["failures"][0]
            if getattr(fns[r["unit"]], "replay_only", False):
                r["undecided"].append(f"refuted only under the abstraction, not replayed: {f['label']}")
                continue
            unreplayed.append({"unit": r["unit"], "label": f["label"], "formula": f["formula"],
                               "values": f["values"], "how": "obligation refuted by the solver"})

    # ------------------------------------------------------------ evidence
    obligations = discharged = bounded_checks = 0
    undecided, trusted, functions, backends, bounded, uncovered, per_unit = [], set(), set(), {}, [], [], []
    crashes = []
    for r in syms:
        if "crash" in r:
            crashes.append(r)
            undecided.append(f"{r.get('unit')}: {r['crash'][-300:]}")
            continue
        n = sum(o["instances"] for o in r["obligations"].values())
        d = sum(o["discharged"] for o in r["obligations"].values())
        if r["bounded"] or r["undecided"]:
            bounded_checks += d
            bounded += [f"{r['unit']}: {b}" for b in r["bounded"]]
            if r["undecided"]:
                obligations += n
        else:
            obligations += n
            discharged += d
        if n == 0:
            uncovered.append(r["unit"])
        undecided += [f"{r['unit']}: {x}" for x in r["undecided"]] + [f"{r['unit']}: unknown {x}" for x in r["unknowns"]]
        trusted |= set(r["trusted"])
        functions |= set(r["functions"])
        for k, v in r["backends"].items():
            backends[k] = backends.get(k, 0) + v
        per_unit.append({"unit": r["unit"], "paths": r["paths"], "obligation_instances": n, "discharged": d,
                         "named_obligations": sorted(r["obligations"]), "solver_s": r["solver_s"],
                         "status": "violated" if r["failures"] else "undecided" if (r["undecided"] or r["unknowns"])
                         else "bounded" if r["bounded"] else "proved"})
    samples = [c["sample"] for c in concs if c and c.get("sample")][:3]
    level = getattr(mod, "LEVEL", "proof") if mod else "proof"
    assumptions = list(getattr(mod, "ASSUMPTIONS", ())) if mod else []
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": level,
        "coverage": {
            "obligations": obligations, "discharged": discharged,
            "checker_cmd": f"./check {prop} {tier}",
            "trusted_base": sorted(trusted | {
                "pyvc: the extraction (ast of /repo's files) and VC generator in /verif/pyvc",
                "z3 5.3.2 (cvc5 for what z3 leaves unknown)", "CPython's evaluation of the operations left native"}),
            "backends": backends,
            "solver_seconds": round(sum(r.get("solver_s", 0) for r in syms), 2),
            "functions_under_contract": sorted(functions),
            "units": per_unit,
            "bounded_not_counted_as_proved": {"obligations": bounded_checks, "where": sorted(set(bounded))},
            "undecided": undecided[:40],
            "vacuous_units": uncovered,
            "evaluations": sum(c.get("runs", 0) for c in concs if c),
            "distinct_nontrivial": sum(c.get("distinct", 0) for c in concs if c),
            "rule": "the same contract harnesses run under CPython on generated inputs (cross-check of the "
                    "generator, bounded); non-trivial = precondition held and at least one clause evaluated, "
                    "distinct by the drawn inputs",
            "runtime_clause_evaluations": sum(c.get("evaluated", 0) for c in concs if c),
            "runtime_only_units_bounded": runtime,
            "harness_errors": sum(c.get("errors", 0) for c in concs if c),
            "samples": samples or [{"unit": u} for u in units[:1]] or [{"none": True}],
            "explanation": "deductive verification of the extracted functions; see DESIGN.md",
        },
        "assumptions": assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations) + len(unreplayed),
    }
    errs = [c.get("first_error") for c in concs if c and c.get("first_error")]
    errs += [c.get("crash") for c in concs if c and c.get("crash")]
    if errs:
        ev["coverage"]["first_harness_error"] = errs[0]
    if import_error:
        ev["coverage"]["undecided"] = [import_error[-600:]]
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    code = 0
    for n, v in enumerate(violations + unreplayed):
        path = out / f"{prop}-{n}.json"
        path.write_text(json.dumps({"property": prop, **v, "replay": f"./replay {path.relative_to(ROOT)}"},
                                   indent=1, default=str))
        tail = "" if v in violations else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={path}{tail}")
        print(f"  obligation: {v['unit']}: {v['label']} ({v['how']})")
        code = 1
    for line in known(prop, mod):
        print(line)
    print(f"{prop} {tier}: {discharged}/{obligations} obligations discharged, {bounded_checks} bounded, "
          f"{len(undecided)} undecided, {ev['coverage']['runtime_clause_evaluations']} clauses at run time, "
          f"{ev['wall_s']} s")
    for u in undecided[:6]:
        print("  undecided:", u[:400])
    if errs:
        print("  harness error:", errs[0][-400:])
    if uncovered:
        print("  vacuous:", uncovered)
    return code


def known(prop, mod):
    """KNOWN-FINDING lines for findings listed in known_findings.txt that still fail."""
    p = ROOT / "known_findings.txt"
    if not p.exists() or mod is None:
        return
    demos = getattr(mod, "KNOWN", {})
    for line in p.read_text().splitlines():
        if line.startswith("finding:") and f"property={prop} " in line:
            fid = line.split("id=")[1].split()[0]
            try:
                still = demos[fid]()
            except Exception:
                still = True
            if still:
                yield f"KNOWN-FINDING: property={prop} {line.split(' ', 3)[-1]}"


def replay(path):
    from .conc import ConcEngine, Violation
    _quiet()
    v = json.loads(pathlib.Path(path).read_text())
    mod = _load(v["property"])
    u = {f.__name__: f for f in (*mod.UNITS, *getattr(mod, "RUNTIME", ()))}[v["unit"]]
    if "seed" not in v:
        print("no failing input was found; failed obligation:", v["unit"], v["label"])
        print(v.get("formula"))
        return 1
    c = ConcEngine(u, seed=v["seed"], values=v.get("values"))
    r = c.run()
    if isinstance(r, Violation):
        print(f"reproduced: {v['unit']}: {r.label}\ninputs: {json.dumps(r.detail, indent=1, default=str)}")
        return 1
    print("not reproduced")
    return 0


def main(argv):
    sys.setrecursionlimit(20000)
    if argv[0] == "replay":
        return replay(argv[1])
    try:
        return check(argv[0], argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    except BaseException as ex:  # never end otherwise than 0/1: an internal error decides nothing
        if isinstance(ex, KeyboardInterrupt):
            raise
        traceback.print_exc()
        return 2
