"""Runs the contracts of one property, decides the verdict and writes the evidence."""
import json, os, sys, time, traceback, random, importlib, multiprocessing as mp, hashlib
from . import sym as S
from .ctx import SymCtx, ConcreteCtx, CheckFailed, ShapeMismatch
from .sym import VfStop, PathEnd, Unsupported, Budget, Restart
from .world import World, LIB, DEPS
from .api import REGISTRY

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROVE = ("contract", "induction", "enumeration")


def load_contracts(prop):
    importlib.import_module("contracts." + prop.lower())
    return REGISTRY.get(prop, [])


def _where(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    fr = [f for f in tb if f.filename.startswith((LIB, DEPS))]
    f = fr[-1] if fr else tb[-1]
    return "%s:%s %s" % (os.path.basename(f.filename), f.lineno, f.name)


def _in_code(ex):
    """exception raised by the code under verification (not by the harness itself)"""
    tb = traceback.extract_tb(ex.__traceback__)
    return any(f.filename.startswith((LIB, DEPS)) for f in tb)


def run_symbolic(h, param, tier, budget):
    t0 = time.time()
    c = SymCtx(deadline=t0 + budget, timeout_ms=8000 if tier == "quick" else 60000, max_paths=10 ** 6)
    if tier == "thorough":
        c.smt_dump = []
    res = {"harness": h.name, "param": repr(param), "status": "ok", "notes": []}

    def path(c):
        S.CUR = c
        c.world = World(c)
        try:
            call(h, c, param)
        except VfStop:
            raise
        except Exception as ex:
            if _in_code(ex):
                c.check_exception(ex, _where(ex))
            else:
                res["notes"].append("harness error: %s" % "".join(traceback.format_exception_only(ex)).strip() + " " + _where(ex))
                res["status"] = "harness-error"
                raise Unsupported("harness error: %r at %s" % (ex, _where(ex)))
            raise PathEnd()
    try:
        while True:
            try:
                c.explore(path)
                break
            except Restart as r:
                c.solver.reset()
                c.solver.set("timeout", c.timeout_ms)
                c.obl.clear(); c.failures.clear(); c.unknowns.clear(); c.unsupported.clear(); c.covers.clear()
                if time.time() > t0 + budget:
                    raise Budget("time budget used up")
    except Budget as b:
        res["status"] = "budget"
        res["notes"].append(str(b))
    except ShapeMismatch as s:
        res["status"] = "shape"
        res["notes"].append(str(s))
    except (ImportError, SyntaxError) as ex:
        res["status"] = "load"
        res["notes"].append(repr(ex))
    except Exception as ex:
        res["status"] = "harness-error"
        res["notes"].append("".join(traceback.format_exception(ex))[-1500:])
    finally:
        S.CUR = None
    res.update(obl=c.obl, failures=c.failures[:40], unknowns=sorted(set(c.unknowns)), unsupported=c.unsupported, covers=c.covers,
               stats=c.stats, wall=time.time() - t0)
    if c.segments: res["segment"] = True
    if c.smt_dump is not None:
        res["smt"] = c.smt_dump
    return res


def call(h, c, param):
    if h.params == [None]:
        h.fn(c)
    else:
        h.fn(c, param)


def run_concrete(h, param, assignment=None, rng=None):
    """-> (outcome, detail, ctx);  outcome: ok | skip | fail | exception | shape | error"""
    c = ConcreteCtx(assignment, rng)
    prev = S.CUR
    S.CUR = c
    try:
        c.world = World(c)
        call(h, c, param)
        return "ok", None, c
    except CheckFailed as f:
        return "fail", {"obligation": f.name, "info": None if f.info is None else str(f.info)[:2000]}, c
    except PathEnd:
        return "skip", None, c
    except ShapeMismatch as s:
        return "shape", str(s), c
    except Unsupported as u:
        return "error", str(u), c
    except Exception as ex:
        if _in_code(ex):
            return "exception", {"obligation": "no unexpected exception", "info": "%s: %s at %s" % (type(ex).__name__, ex, _where(ex))}, c
        return "error", "".join(traceback.format_exception(ex))[-1500:], c
    finally:
        S.CUR = prev


def run_random(h, param, seed, budget, runs):
    t0 = time.time()
    rng = random.Random("%s/%s/%r/%d" % (h.prop, h.name, param, seed))
    n = ok = skip = checked = 0
    distinct = set()
    fails = []
    err = None
    sample = None
    while n < runs and time.time() - t0 < budget:
        n += 1
        out, det, c = run_concrete(h, param, rng=rng)
        if out == "ok":
            ok += 1
            checked += c.checked
            distinct.add(hashlib.md5(json.dumps(c.used, sort_keys=True, default=str).encode()).digest())
            if sample is None: sample = {k: v for k, v in list(c.used.items())[:40]}
        elif out == "skip":
            skip += 1
        elif out in ("fail", "exception"):
            fails.append({"assignment": dict(c.used), "detail": det})
            if len(fails) >= 3:
                break
        elif out == "shape":
            err = "shape: " + det
            break
        else:
            err = det
            break
    return {"harness": h.name, "param": repr(param), "runs": n, "ok": ok, "skip": skip, "checked": checked, "distinct": len(distinct),
            "fails": fails, "error": err, "wall": time.time() - t0, "sample": sample}


def _task(t):
    prop, hi, pi, what, tier, seed, budget = t
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    h = load_contracts(prop)[hi]
    params = h.params if pi < len(h.params) else h.params + (h.thorough_params_list())
    param = params[pi]
    try:
        if what == "sym":
            r = run_symbolic(h, param, tier, budget)
            # replay each kind of failure once on the unmodified modules
            seen = {}
            for f in r["failures"]:
                k = f["obligation"]
                if seen.get(k) == "reproduced" or sum(1 for x in r["failures"] if x["obligation"] == k and "replay" in x) > 8:
                    continue
                out, det, c = run_concrete(h, param, assignment=f["assignment"])
                if out not in ("fail", "exception") and "segment" in r:
                    # the lengths of abstracted lists are not part of the counter-model: try some
                    for k in range(80):
                        asg = {n: v for n, v in f["assignment"].items() if not n.endswith(" length") or k % 4 == 0}
                        o2, d2, c2 = run_concrete(h, param, assignment=asg, rng=random.Random(k))
                        if o2 in ("fail", "exception"):
                            out, det, f["assignment"] = o2, d2, c2.used
                            break
                f["replay"] = {"outcome": out, "detail": det}
                if out in ("fail", "exception"):
                    seen[k] = "reproduced"
            return (hi, pi, what, r)
        else:
            runs = h.random_runs * (1 if tier == "quick" else 20)
            return (hi, pi, what, run_random(h, param, seed, budget, runs))
    except MemoryError:
        return (hi, pi, what, {"harness": h.name, "param": repr(param), "status": "memory", "notes": ["out of memory"], "obl": {},
                               "failures": [], "unknowns": [], "unsupported": {}, "covers": {}, "stats": {}, "wall": 0,
                               "runs": 0, "ok": 0, "skip": 0, "checked": 0, "distinct": 0, "fails": [], "error": "memory", "sample": None})


def known_findings(prop):
    p = os.path.join(ROOT, "KNOWN_FINDINGS.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == prop]


def run_property(prop, tier="quick", seed=1, jobs=None, verbose=False):
    t0 = time.time()
    hs = load_contracts(prop)
    sbud = 60 if tier == "quick" else 600
    rbud = 6 if tier == "quick" else 120
    tasks = []
    for hi, h in enumerate(hs):
        for pi in range(len(h.params)):
            if tier == "quick" and not h.quick:
                continue
            tasks.append((prop, hi, pi, "sym", tier, seed, sbud))
            if h.random_runs:
                tasks.append((prop, hi, pi, "rnd", tier, seed, rbud))
    jobs = jobs or min(8, os.cpu_count() or 1)
    if jobs == 1:
        results = [_task(t) for t in tasks]
    else:
        with mp.get_context("fork").Pool(jobs, maxtasksperchild=8) as pool:
            results = list(pool.imap_unordered(_task, tasks, chunksize=1))
    results.sort(key=lambda r: (r[0], r[1], r[2]))
    return decide(prop, hs, results, tier, seed, t0, verbose)


def decide(prop, hs, results, tier, seed, t0, verbose):
    found_input = []      # violations with a failing input through the public interface
    found_state = []      # violations reproduced from an injected state, or refuted without a replay
    undecided = []
    per = []
    tot = {"obligations": 0, "discharged": 0, "paths": 0, "queries": 0, "solver_s": 0.0, "rand_runs": 0, "rand_checked": 0, "rand_distinct": 0}
    bounded = {"obligations": 0, "discharged": 0}
    errors = []
    samples = []
    for hi, pi, what, r in results:
        h = hs[hi]
        if what == "rnd":
            tot["rand_runs"] += r["runs"]; tot["rand_checked"] += r["checked"]; tot["rand_distinct"] += r["distinct"]
            if r["sample"] is not None and len(samples) < 3:
                samples.append({"harness": h.name, "inputs": r["sample"]})
            if r["error"]:
                (undecided if r["error"].startswith("shape") else errors).append("%s%s random: %s" % (h.name, _p(h, r), r["error"]))
            for f in r["fails"]:
                rec = {"harness": h.name, "param_index": pi, "assignment": f["assignment"], "obligation": f["detail"]["obligation"],
                       "info": f["detail"]["info"], "by": "concrete cross-check of the contract"}
                (found_input if h.kind != "induction" else found_state).append(rec)
            if r["runs"] and not r["ok"] and not r["fails"] and not r["error"]:
                errors.append("%s%s: all concrete runs were skipped by assumptions" % (h.name, _p(h, r)))
            continue
        n = sum(sum(o.values()) for o in r["obl"].values())
        d = sum(o["discharged"] for o in r["obl"].values())
        tgt = bounded if h.kind == "history" or h.bounds else tot
        tgt["obligations"] += n
        tgt["discharged"] += d
        for k in ("paths", "queries", "solver_s"):
            tot[k] += r["stats"].get(k, 0)
        rec = {"harness": h.name, "param": r["param"], "kind": h.kind, "bound": h.bounds, "status": r["status"],
               "obligations": {k: v for k, v in r["obl"].items()}, "paths": r["stats"].get("paths"),
               "solver_s": round(r["stats"].get("solver_s", 0), 3), "wall_s": round(r["wall"], 2)}
        if r["notes"]: rec["notes"] = r["notes"]
        if r["unsupported"]: rec["outside_subset"] = r["unsupported"]
        per.append(rec)
        missing = [cv for cv in h.covers if not r["covers"].get(cv)]
        if r["status"] == "harness-error":
            errors.append("%s%s: %s" % (h.name, _p(h, r), "; ".join(r["notes"])[:1500]))
        elif r["status"] != "ok":
            undecided.append("%s%s: %s %s" % (h.name, _p(h, r), r["status"], "; ".join(r["notes"])[:300]))
        elif n == 0:
            errors.append("%s%s generated no obligation" % (h.name, _p(h, r)))
        elif missing and not r["failures"]:
            errors.append("%s%s: vacuous, not reached: %s" % (h.name, _p(h, r), missing))
        if r["unsupported"]:
            undecided.append("%s%s: outside the subset: %s" % (h.name, _p(h, r), dict(list(r["unsupported"].items())[:3])))
        if r["unknowns"]:
            undecided.append("%s%s: solver gave up on %s" % (h.name, _p(h, r), r["unknowns"][:5]))
        groups = {}
        for f in r["failures"]:
            groups.setdefault(f["obligation"], []).append(f)
        for ob, fs in groups.items():
            rep = [f for f in fs if f.get("replay", {}).get("outcome") in ("fail", "exception")]
            f = (rep or fs)[0]
            rec = {"harness": h.name, "param_index": pi, "assignment": f["assignment"], "obligation": ob, "info": f["info"],
                   "path_condition": f["path_condition"], "replay": f.get("replay"), "by": "verifier"}
            if rep and h.kind != "induction":
                rec["obligation"] = f["replay"]["detail"]["obligation"]
                found_input.append(rec)
            elif rep:
                found_state.append(rec)
            elif f.get("exception"):
                undecided.append("%s%s: exception path not reproduced: %s" % (h.name, _p(h, r), f["info"]))
            else:
                found_state.append(rec)
    # -- known findings
    known = known_findings(prop)
    lines = []
    hit = set()

    def is_known(rec):
        for k in known:
            if k["harness"] == rec["harness"] and k["obligation"] == rec["obligation"]:
                hit.add(k["id"])
                return True
        return False
    for k in known:
        pass
    found_input = [r for r in found_input if not is_known(r)]
    found_state = [r for r in found_state if not is_known(r)]
    for k in known:
        lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    violation = None
    suffix = ""
    if found_input:
        found_input.sort(key=lambda r: (r["by"] != "verifier",))
        violation = found_input[0]
    elif found_state:
        violation = found_state[0]
        suffix = " no-failing-input-found"
    ok = all(o["status"] == "ok" for o in per)
    full = not violation and not undecided and not errors
    replay = None
    if violation:
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        replay = os.path.join(ROOT, "replays", "%s.json" % prop)
        violation = dict(violation, property=prop, others=[{k: r[k] for k in ("harness", "obligation", "info")} for r in (found_input + found_state)[1:20]],
                         how_to_replay="python3-vt check.py --replay %s" % replay)
        with open(replay, "w") as f:
            json.dump(violation, f, indent=1, default=str)
    import z3
    nb = bounded["obligations"]
    tiers = [p for p in per if p["kind"] != "history" and not p["bound"]]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof",
          "coverage": {
              "obligations": tot["obligations"], "discharged": tot["discharged"],
              "checker_cmd": "python3-vt /verif/check.py %s --tier %s" % (prop, tier),
              "trusted_base": TRUSTED + sorted({a for h in hs for a in h.assumes}),
              "back_end": "z3 %s (python API)" % z3.get_version_string(),
              "all_discharged": full,
              "bounded_obligations": nb, "bounded_discharged": bounded["discharged"],
              "bounded_note": sorted({"%s: %s" % (h.name, h.bounds) for h in hs if h.bounds}),
              "functions_under_contract": sorted({t for h in hs for t in h.targets}),
              "functions_of_harnesses": {h.name: list(h.targets) for h in hs},
              "paths": tot["paths"], "solver_queries": tot["queries"], "solver_s": round(tot["solver_s"], 2),
              "concrete_cross_check_runs": tot["rand_runs"], "concrete_cross_check_distinct": tot["rand_distinct"],
              "concrete_cross_check_checks": tot["rand_checked"],
              "samples": samples, "harnesses": per, "undecided": undecided, "errors": errors},
          "assumptions": sorted({a for h in hs for a in h.assumes}) + GENERAL_ASSUMPTIONS,
          "wall_s": round(time.time() - t0, 2), "violations": len(found_input) + len(found_state)}
    if tier == "thorough":
        ev["coverage"]["cvc5_cross_check"] = cvc5_cross(results)
        for hi, pi, what, r in results:
            r.pop("smt", None)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for l in lines:
        print(l)
    if verbose or violation or errors or undecided:
        for u in undecided: print("undecided:", u)
        for e in errors: print("error:", e)
    print("%s: %d/%d obligations discharged (unbounded), %d/%d bounded, %d paths, %d concrete runs, %.1fs" % (
        prop, tot["discharged"], tot["obligations"], bounded["discharged"], nb, tot["paths"], tot["rand_runs"], time.time() - t0))
    if violation:
        print("failed obligation: %s / %s" % (violation["harness"], violation["obligation"]))
        if violation.get("info"): print("  " + str(violation["info"])[:500])
        print("VIOLATION property=%s replay=%s%s" % (prop, replay, suffix))
        return 1
    if errors and os.environ.get("VF_STRICT"):
        return 3
    if tot["discharged"] + bounded["discharged"] + tot["rand_checked"] == 0:
        print("nothing could be decided")
        return 3
    return 0


def cvc5_cross(results):
    import subprocess, tempfile
    n = agree = other = 0
    dis = []
    t0 = time.time()
    for hi, pi, what, r in results:
        for name, verdict, smt in r.get("smt", [])[:60]:
            if time.time() - t0 > 200: break
            with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=True) as f:
                f.write("(set-logic ALL)\n" + smt)
                f.flush()
                try:
                    out = subprocess.run(["cvc5", "--tlimit=5000", f.name], capture_output=True, text=True, timeout=10).stdout.strip().split("\n")[0]
                except Exception:
                    out = "unknown"
            n += 1
            if out == verdict: agree += 1
            elif out in ("sat", "unsat") and verdict in ("sat", "unsat"): dis.append(name)
            else: other += 1
    return {"queries": n, "agree": agree, "gave_up": other, "disagree": dis}


def _p(h, r):
    return "" if h.params == [None] else "[%s]" % r["param"][:40]


TRUSTED = [
    "vf: the path exploration and the symbolic value semantics of /verif/vf (cross-checked on every run by executing the same contracts concretely on the unmodified modules)",
    "z3",
    "CPython 3.12 as the executor (CircuitPython differences are not modelled)",
    "stand-ins for the CircuitPython environment (displayio, label, Rect, gc, time, array, board, HID): they only record",
]
GENERAL_ASSUMPTIONS = [
    "integers are mathematical integers; floats are treated as exact reals in proofs (concrete replays use floats)",
    "the code runs single threaded, the clock does not advance within one call unless the contract says so",
]


def replay(path):
    with open(path) as f:
        v = json.load(f)
    hs = load_contracts(v["property"])
    h = [x for x in hs if x.name == v["harness"]][0]
    out, det, c = run_concrete(h, h.params[v["param_index"]], assignment=v["assignment"])
    print("replay of %s / %s: %s %s" % (v["harness"], v["obligation"], out, det))
    return 1 if out in ("fail", "exception") else 0
