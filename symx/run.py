"""
Runs the harnesses of one property: symbolic execution in forked workers, replay of every
counterexample and path witness on the real, unpatched code, evidence, verdict.
"""
import json
import math
import multiprocessing as mp
import os
import random
import re
import resource
import signal
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_TOTAL_S, THOROUGH_TOTAL_S = 500, 3000
KNOWN = os.path.join(ROOT, "known_findings.txt")


class Harness:
    """
    fn(c): the harness; runs symbolically and concretely.
    opts: engine options; budget: (quick, thorough) seconds.
    best_effort: paths that cannot be encoded / budgets that run out are reported in the
    evidence, but do not make the check inconclusive (another harness carries the claim).
    """

    def __init__(self, name, fn, budget=(60, 400), bounds="", pandas=False, best_effort=False,
                 tiers=("quick", "thorough"), **opts):
        self.name = name
        self.fn = fn
        self.budget = budget
        self.bounds = bounds
        self.pandas = pandas
        self.best_effort = best_effort
        self.tiers = tiers
        self.opts = opts


# ------------------------------------------------------------ symbolic worker


def _functions_monitor(root):
    """record which functions of the package run (sys.monitoring, one event each)"""
    seen = set()
    mon = getattr(sys, "monitoring", None)
    if mon is None:
        return seen
    tool = mon.COVERAGE_ID
    mon.use_tool_id(tool, "symx")

    def start(code, _off):
        if code.co_filename.startswith(root):
            seen.add("%s:%s" % (os.path.basename(code.co_filename), code.co_qualname))
        return mon.DISABLE

    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)
    return seen


def _quiet():
    import logging

    logging.disable(logging.CRITICAL)
    warnings.filterwarnings("ignore")


def _sym_worker(h, tier, seed, budget, outpath):
    import z3

    from . import core, engine, shims

    _quiet()
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    z3.set_param("memory_max_size", 3000)
    z3.set_param("smt.random_seed", seed % 1000)
    sys.setrecursionlimit(6000)
    t0 = time.time()
    res = {"harness": h.name, "bounds": h.bounds}
    st = engine.Stats()
    try:
        shims.install(pandas=True)
        import openscm_twolayermodel

        seen = _functions_monitor(os.path.dirname(openscm_twolayermodel.__file__))
        opts = dict(h.opts)
        opts["rng"] = random.Random(seed)
        if tier == "thorough":
            for k in ("query_s", "exact_s"):
                if k in opts:
                    opts[k] = 2 * opts[k]
            opts["max_witnesses"] = 4 * opts.get("max_witnesses", 12)
        c = engine.SymCtx(st, t0 + budget, opts)

        def late(_sig, _frame):
            raise core.Budget("time budget exhausted")

        signal.signal(signal.SIGALRM, late)
        signal.setitimer(signal.ITIMER_REAL, budget * 1.1 + 10)
        c.tier = tier
        c.explore(h.fn)
        signal.setitimer(signal.ITIMER_REAL, 0)
        res.update(
            candidates=c.candidates, witnesses=c.witnesses, unsupported=c.unsupported,
            incomplete=c.incomplete, labels=c.labels, decisions=c.decisions,
            functions=sorted(seen),
        )
    except BaseException as exc:  # engine failure: reported, never silently passed
        res["crash"] = "%s: %s\n%s" % (type(exc).__name__, exc, traceback.format_exc()[-3000:])
    res["stats"] = st.as_dict()
    res["wall_s"] = time.time() - t0
    with open(outpath, "w") as fh:
        json.dump(res, fh)
    os._exit(0)


# ------------------------------------------------------------ concrete replay


def _concrete(h, tier, values, choices, slack):
    from . import core, engine, world

    _quiet()
    world.renew()
    c = engine.RealCtx(values, choices, slack)
    c.tier = tier
    out = {"failures": [], "obs": [], "skipped": None}
    try:
        h.fn(c)
    except core.PathAbort as exc:
        out["skipped"] = str(exc)
    except core.EngineError as exc:
        out["skipped"] = "%s: %s" % (type(exc).__name__, exc)
    except Exception as exc:
        c._fail("unexpected %s" % type(exc).__name__, "%s%s" % (exc, engine._where(exc)))
    out["failures"] = c.failures
    out["obs"] = c.obs
    return out


def _concrete_worker(h, tier, jobs, outpath):
    res = []
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    for values, choices, slack in jobs:
        try:
            res.append(_concrete(h, tier, values, choices, slack))
        except BaseException as exc:
            res.append({"failures": [], "obs": [], "skipped": "crash %r" % (exc,)})
        with open(outpath + ".part", "w") as fh:
            json.dump(res, fh)
    os.replace(outpath + ".part", outpath) if jobs else open(outpath, "w").write("[]")
    os._exit(0)


def _spawn(target, args):
    ctx = mp.get_context("fork")
    p = ctx.Process(target=target, args=args)
    p.start()
    return p


def replay_jobs(h, tier, jobs, tmp, timeout=240):
    """run jobs concretely in a fresh (forked, unpatched) process"""
    path = os.path.join(tmp, "replay-%s-%d.json" % (h.name, random.randrange(10 ** 9)))
    p = _spawn(_concrete_worker, (h, tier, jobs, path))
    p.join(timeout)
    if p.is_alive():
        p.kill()
        p.join()
    for f in (path, path + ".part"):
        if os.path.exists(f):
            with open(f) as fh:
                r = json.load(fh)
            break
    else:
        r = []
    while len(r) < len(jobs):
        r.append({"failures": [], "obs": [], "skipped": "replay did not finish"})
    return r


def close(a, b, rel, floor):
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    try:
        return abs(a - b) <= rel * (abs(a) + abs(b)) + floor
    except OverflowError:
        return False


# ------------------------------------------------------------ known findings


def known_findings(prop):
    """finding: property=<id> harness=<name> match=<regex> :: <what fails>"""
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"finding: property=(\S+) harness=(\S+) match=(.*?) :: (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4)))
    return out


# ------------------------------------------------------------ main


def run_property(prop, harnesses, tier, seed, verbose=False, only=None, extra=None):
    import tempfile

    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="symx-")
    try:
        return _run(prop, harnesses, tier, seed, verbose, only, tmp, t0, extra or {})
    finally:
        import shutil

        shutil.rmtree(tmp, ignore_errors=True)


def _run(prop, harnesses, tier, seed, verbose, only, tmp, t0, extra):
    hs = [h for h in harnesses if tier in h.tiers and (only is None or h.name in only)]
    maxproc = int(os.environ.get("VERIF_JOBS", "7"))
    pending, running, results = list(hs), [], {}
    pending.sort(key=lambda h: -(h.budget[0] if tier == "quick" else h.budget[1]))
    t_end = t0 + (QUICK_TOTAL_S if tier == "quick" else THOROUGH_TOTAL_S)
    while pending or running:
        while pending and len(running) < maxproc:
            h = pending.pop(0)
            out = os.path.join(tmp, "sym-%s.json" % h.name)
            budget = max(min(h.budget[0] if tier == "quick" else h.budget[1],
                             t_end - time.time()), 1.0)
            p = _spawn(_sym_worker, (h, tier, seed, budget, out))
            hard = budget * 1.2 + 30
            running.append((h, p, out, time.time() + hard))
        nxt = []
        for h, p, out, dl in running:
            p.join(0.02)
            if p.is_alive() and time.time() < dl:
                nxt.append((h, p, out, dl))
                continue
            if p.is_alive():
                p.kill()
                p.join()
            if os.path.exists(out):
                with open(out) as fh:
                    results[h.name] = json.load(fh)
            else:
                results[h.name] = {"harness": h.name, "crash": "worker died or timed out",
                                   "stats": {}, "wall_s": 0.0}
        running = nxt

    violations, inconclusive, notes, known, wrong = [], [], [], [], set()
    validated = mismatches = 0
    samples, functions, hrep = [], set(), []
    knowns = known_findings(prop)
    for h in hs:
        r = results[h.name]
        functions |= set(r.get("functions", []))
        rep = {
            "harness": h.name, "bounds": h.bounds, "wall_s": round(r.get("wall_s", 0), 2),
            "best_effort": h.best_effort,
        }
        st = r.get("stats", {})
        for k in ("paths", "forks", "queries", "obligations", "discharged", "discharged_exact",
                  "discharged_tol", "discharged_normal", "structural", "unknown"):
            rep[k] = st.get(k, 0)
        rep["solver_s"] = round(st.get("solver_s", 0.0), 2)
        rep["labels"] = r.get("labels", {})
        soft = notes if h.best_effort else inconclusive
        if "crash" in r:
            soft.append("%s: %s" % (h.name, r["crash"]))
            hrep.append(rep)
            continue
        if r["incomplete"] and not r["candidates"]:
            soft.append("%s: %s" % (h.name, r["incomplete"]))
        # counterexamples
        cands = r["candidates"]
        jobs = [(cd["values"], cd["choices"], 1.0) for cd in cands]
        outs = replay_jobs(h, tier, jobs, tmp) if jobs else []
        unconfirmed = []
        for cd, o in zip(cands, outs):
            if o["failures"]:
                violations.append((h, cd, o["failures"]))
            else:
                unconfirmed.append((cd, o))
        for cd, o in unconfirmed:
            msg = "%s: counterexample to %r did not reproduce on the real code (%s)" % (
                h.name, cd["label"], o["skipped"] or "all assertions hold")
            if cd["outside_box"]:
                notes.append(msg + " - outside the box, floating point")
            else:
                soft.append(msg)
                wrong.add(h.name)
        rep["counterexamples"] = len(cands)
        # paths that could not be encoded: the path condition reached so far is still a
        # solver-made input; if the real code fails on it, that is a violation
        uns = [u for u in r["unsupported"] if u.get("values") is not None]
        jobs = [(u["values"], u["choices"], 10.0) for u in uns]
        outs = replay_jobs(h, tier, jobs, tmp) if jobs else []
        for u, o in zip(uns, outs):
            if o["failures"]:
                violations.append((h, {"label": "path not encoded (%s)" % u["why"],
                                       "values": u["values"], "choices": u["choices"]},
                                   o["failures"]))
        for u in r["unsupported"]:
            soft.append("%s: not encoded: %s%s" % (h.name, u["why"], u["where"]))
        rep["paths_not_encoded"] = len(r["unsupported"])
        # witnesses
        wit = r["witnesses"]
        jobs = [(w["values"], w["choices"], 1e3 if w["generic"] else 1e5) for w in wit]
        outs = replay_jobs(h, tier, jobs, tmp) if jobs else []
        good = 0
        for w, o in zip(wit, outs):
            if o["failures"]:
                violations.append((h, {"label": "path witness", "values": w["values"],
                                       "choices": w["choices"]}, o["failures"]))
                continue
            if o["skipped"]:
                notes.append("%s: witness not replayed (%s)" % (h.name, o["skipped"]))
                continue
            bad = None
            if not w["exp"]:
                if [n for n, _ in w["obs"]] != [n for n, _ in o["obs"]]:
                    # NaN observations exist only concretely
                    so, oo = dict(w["obs"]), dict(o["obs"])
                    names = [n for n in so if n in oo]
                else:
                    so, oo, names = dict(w["obs"]), dict(o["obs"]), [n for n, _ in w["obs"]]
                scale = max([abs(v) for v in so.values() if math.isfinite(v)] or [0.0])
                for n in names:
                    if not close(so[n], oo[n], 1e-5, 1e-7 * min(scale, 1.0)):
                        bad = "%s: symbolic %r, real %r" % (n, so[n], oo[n])
                        break
            if bad:
                mismatches += 1
                wrong.add(h.name)
                soft.append("%s: encoding and code disagree on a path witness: %s (%s)" % (
                    h.name, bad, w["values"]))
                continue
            good += 1
            if len(samples) < 8 and good <= 2:
                samples.append({"harness": h.name, "inputs": w["values"], "choices": w["choices"],
                                "observed": o["obs"][:12]})
        validated += good
        rep["witnesses_replayed"] = good
        if not st.get("obligations"):
            soft.append("%s: no obligation was reached (vacuous)" % h.name)
        if good == 0 and not cands and not h.opts.get("no_witness"):
            soft.append("%s: no path witness could be replayed" % h.name)
        hrep.append(rep)

    # report
    real = []
    for h, cd, fails in violations:
        text = "%s: %s; %s" % (h.name, cd["label"], "; ".join(fails[:3]))
        hit = None
        for hn, rx, what in knowns:
            if hn in (h.name, "*") and all(re.search(rx, f) for f in fails):
                hit = what
        if hit:
            if hit not in known:
                known.append(hit)
        else:
            real.append((h, cd, fails, text))
    rdir = os.path.join(ROOT, "replays")
    code = 0
    for what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    if real:
        os.makedirs(rdir, exist_ok=True)
        order = sorted(real, key=lambda v: v[1]["label"] == "path witness")
        for k, (h, cd, fails, text) in enumerate(order[:3]):
            path = os.path.join(rdir, "%s-%s-%d.json" % (prop, h.name, k))
            with open(path, "w") as fh:
                json.dump({"property": prop, "harness": h.name, "tier": tier, "label": cd["label"],
                           "values": cd["values"], "choices": cd["choices"], "failures": fails},
                          fh, indent=1)
            print("  " + text[:1500])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        code = 1
    elif inconclusive:
        # what was explored held; what was not is reported.  No answer only if nothing was
        # decided by an encoding that agrees with the code.
        if not any(results[h.name].get("stats", {}).get("discharged", 0)
                   for h in hs if h.name not in wrong and "crash" not in results[h.name]):
            code = 2
        for m in inconclusive:
            print("INCONCLUSIVE: " + m[:3000])
    for m in notes:
        print("NOTE: " + m[:600])

    tot = lambda k: sum(results[h.name].get("stats", {}).get(k, 0) for h in hs)
    by = {}
    for h in hs:
        for k, v in results[h.name].get("stats", {}).get("by_solver", {}).items():
            by[k] = by.get(k, 0) + v
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot("paths"),
            "transitions": sum(results[h.name].get("decisions", 0) for h in hs),
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no witness"}],
            "obligations": tot("obligations"), "discharged": tot("discharged"),
            "discharged_exactly": tot("discharged_exact"),
            "discharged_by_normal_form": tot("discharged_normal"),
            "normal_form_s": round(tot("normal_s"), 2),
            "discharged_within_tolerance": tot("discharged_tol"),
            "discharged_structurally": tot("structural"),
            "queries": tot("queries"), "branch_queries": tot("branch_queries"),
            "queries_decided_by": by, "queries_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 2),
            "functions_encoded": sorted(functions),
            "harnesses": hrep,
            "notes": notes, "inconclusive": inconclusive,
            "explanation": "states: execution paths of the real code explored symbolically (each "
            "stands for all inputs satisfying its path condition); transitions: branch decisions "
            "and nondeterministic choices taken; traces validated: concrete witnesses of those "
            "paths replayed on the unpatched code, whose observables agreed with the encoding.",
        },
        "assumptions": extra.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(real),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
    print("%s %s: %d paths, %d/%d obligations discharged (%d exact, %d within tolerance, %d "
          "structural, %d normal form), %d queries, %.1f s solver, %d witnesses replayed, %.1f s" % (
              prop, tier, tot("paths"), tot("discharged"), tot("obligations"),
              tot("discharged_exact"), tot("discharged_tol"), tot("structural"),
              tot("discharged_normal"), tot("queries"),
              tot("solver_s"), validated, time.time() - t0))
    if verbose:
        for rep in hrep:
            print(json.dumps({k: v for k, v in rep.items() if k != "labels"}))
    return code
