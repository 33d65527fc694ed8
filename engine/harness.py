"""Decide one property: build, execute symbolically, discharge with z3, replay, report."""
import importlib
import json
import math
import os
import pickle
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if HERE not in sys.path:
    sys.path.insert(0, HERE)


def get_cases(prop, tier, M):
    m = importlib.import_module("checks." + prop)
    return m.cases(tier, M)


def get_exts(prop):
    return importlib.import_module("checks." + prop).EXTS


def known_findings(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]


# --- one case in a forked child ----------------------------------------------------------------
class Profile:
    """names of the mssm functions executed while a case ran symbolically"""

    def __init__(self, repo, exts):
        self.src = os.path.join(repo, "src", "mssm")
        self.exts = set(exts)
        self.seen = set()

    def __call__(self, frame, event, arg):
        if event == "call":
            f = frame.f_code.co_filename
            if f.startswith(self.src):
                self.seen.add("%s:%s" % (os.path.relpath(f, self.src), frame.f_code.co_qualname))
        elif event == "c_call":
            m = getattr(arg, "__module__", None)
            s = getattr(arg, "__self__", None)
            nm = getattr(s, "__name__", None) or m
            d = getattr(arg, "__qualname__", getattr(arg, "__name__", "?"))
            if m in self.exts:
                self.seen.add("cpp %s.%s" % (m, d))
            elif "pybind11" in type(s).__name__.lower() or "PyCapsule" in str(d):
                self.seen.add("cpp %s" % getattr(arg, "__name__", d))


def goal_bool(g):
    from . import sym
    from .case import scal
    a, b = scal(g.lhs), scal(g.rhs)
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    a, b = sym.const(a), sym.const(b)
    r = sym.compare(g.rel, a, b)
    if isinstance(r, sym.SymBool):
        return r
    return bool(r)


def run_case(case, client_factory, seed, deadline):
    """symbolic execution + discharge of one case; returns a result dict"""
    from . import sym, fnf, decide, explore, build
    from .case import SymIn, flatten, scal, KNOWN, Goal
    from .sym import SymError, S, evaluate
    t0 = time.time()
    fnf.reset()
    for k in decide.STATS:
        decide.STATS[k] = 0 if not isinstance(decide.STATS[k], float) else 0.0
    res = {"case": case.name, "bounds": case.bounds, "goals": 0, "discharged": 0, "undecided": [],
           "violations": [], "paths": 0, "branches": 0, "dag": 0, "validated": 0, "notes": [],
           "functions": [], "nontrivial": 0, "deviations": 0}
    I = SymIn()
    ex = explore.Explorer(max_paths=case.max_paths, trans=case.trans)
    ex.generic = case.generic
    prof = Profile(build.REPO, ("hsmm", "hazard", "dChol", "mcmc", "eigen_solvers", "davies"))
    paths, failed, pend = [], [], []
    sym_error = None

    def fn():
        I.begin()
        sys.setprofile(prof)
        try:
            out = case.run(I)
        finally:
            sys.setprofile(None)
        I.out = out
        gl = list(case.goals(I, out))
        return out, gl

    def guarded():
        try:
            return ("ok",) + fn()
        except SymError:
            raise
        except (explore.Infeasible, RecursionError, MemoryError):
            raise
        except Exception as e:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            return ("raise", e, traceback.format_exc()[-1500:])

    cl = client_factory()
    points = []  # concrete points inside the assumptions, with the real build's outputs

    crashes = []  # samples on which the real build raises

    def sample():
        tries = 0
        while len(points) < case.samples and tries < 12 * case.samples:
            tries += 1
            a = cl.ask(case=case.name, seed=seed * 1000 + tries, outs=True, goals=bool(os.environ.get("VERIF_SELFTEST")))
            if a["status"] == "ok":
                if a.get("bad"):
                    res["notes"].append("SELFTEST %s" % (a["bad"][:3],))
                a["try"], a["memo"] = tries, {}
                points.append(a)
            elif a["status"] == "raised":
                crashes.append(a.get("error"))

    try:
        for r, path in ex.run(guarded):
            res["paths"] += 1
            if r[0] == "raise":
                if isinstance(r[1], case.raises_ok):
                    continue
                pend.append(("raise", "raises %s: %s" % (type(r[1]).__name__, r[1]), path, None, r[2]))
                continue
            out, gl = r[1], r[2]
            paths.append((path, out, gl))
            if not points:
                sample()
            for g in gl:
                res["goals"] += 1
                try:
                    b = goal_bool(g)
                    if not isinstance(b, bool):
                        res["nontrivial"] += 1
                    if b is True and not isinstance(scal(g.lhs), S) and not isinstance(scal(g.rhs), S):
                        pass
                    left = max(1.0, deadline - time.time())
                    at = refuted_at(b, path, points)
                    if at is not None:
                        # the obligation already fails at a concrete point: no need to search
                        decide.STATS["pinned"] = decide.STATS.get("pinned", 0) + 1
                        pend.append((pinned(b, at), g.label, path, at, None))
                        if g.alt is not None:
                            ab = goal_bool(Goal(g.label, g.lhs, "==", g.alt))
                            if refuted_at(ab, path, points) is None:
                                v2, _ = decide.prove(ab, path, int(min(case.timeout_ms, left * 1000)), case.trans, points)
                                if v2 == "unsat":
                                    res["deviations"] += 1
                        continue
                    tmo = case.timeout_ms if not any(p[3] is not None for p in pend) else 2000
                    v, model = decide.prove(b, path, int(min(tmo, left * 1000)), case.trans, points)
                except SymError as e:
                    v, model = "unknown", None
                    res["notes"].append("%s: %s" % (g.label, e))
                if v == "unsat":
                    res["discharged"] += 1
                else:
                    if g.alt is not None:
                        v2, model2 = decide.prove(goal_bool(Goal(g.label, g.lhs, "==", g.alt)), path, case.timeout_ms, case.trans, points)
                        if v2 == "unsat":
                            res["deviations"] += 1
                        else:
                            pend.append((v2, g.label, path, model2, None))
                    pend.append((v, g.label, path, model, None))
                if time.time() > deadline:
                    raise SymError("time budget of the check used up")
    except (SymError, RecursionError, MemoryError) as e:
        sym_error = "%s: %s" % (type(e).__name__, e)
        if os.environ.get("VERIF_DEBUG"):
            traceback.print_exc()
    except explore.Infeasible:
        pass
    OVER[0] = True
    signal.setitimer(signal.ITIMER_REAL, 0)
    res["branches"] = ex.n_branches
    res["unknown_branches"] = ex.unknown_branches
    res["functions"] = sorted(prof.seen)
    res["dag"] = sym.size([x for p, o, gl in paths for g in gl for x in (g.lhs, g.rhs)
                           if isinstance(x, S)]) if paths else 0
    res["stats"] = dict(decide.STATS)
    if sym_error:
        res["notes"].append("symbolic execution stopped: " + sym_error)
        res["undecided"].append("(rest of case: %s)" % sym_error)

    # --- validation of the encoding against the real build (also the reachability witness) -------
    try:
        mism = False
        if paths:
            if not points:
                sample()
            for a in points if case.validate else []:
                m = compare_outs(paths, a, case.validate if isinstance(case.validate, tuple) else ())
                if m is None:
                    res["notes"].append("no symbolic path covers the sample seed %d" % a["try"])
                    mism = True
                elif m:
                    mism = True
                    res["notes"].append("symbolic and real outputs differ: %s" % (m,))
                else:
                    res["validated"] += 1
            if not points and not case.raises_ok:
                res["notes"].append("no valid sample found")
                if len(crashes) >= 3:
                    # whatever the encoding says: no sampled input survives in the real build
                    res["notes"].append("the real build raises on every sample: %s" % crashes[0])
                    mism = True
        res["mismatch"] = mism
        # --- pending obligations: concretise and replay ------------------------------------------
        search = bool(pend) or bool(sym_error) or mism
        if search:
            labels = sorted({p[1] for p in pend if p[0] != "raise"})
            bad, raised = {}, None
            cands = [p[3] for p in pend if p[3]]
            for model in cands[:6]:
                env = {k: v for k, v in model.items()}
                for jit in range(3):
                    e2 = {}
                    r = random.Random(jit)
                    for k, v in env.items():
                        e2[k] = v if jit == 0 else v * (1 + 0.2 * r.random()) + (0.1 * r.random() if v == 0 else 0)
                    a = cl.ask(case=case.name, env=e2, seed=seed + jit, goals=True)
                    raised = note(a, bad, raised)
            n = 0
            want = 40 if not sym_error else 60
            while n < want and time.time() < deadline + 60:
                n += 1
                a = cl.ask(case=case.name, seed=seed * 7919 + 13 * n, goals=True)
                raised = note(a, bad, raised)
                if a.get("error") == "worker died":
                    cl.close()
                    cl = client_factory()
                if raised and raised.get("hang"):
                    break
                if bad and n >= 5 and (not labels or set(labels) <= {b.replace(KNOWN, "") for b in bad}):
                    break
            for lab, w in bad.items():
                res["violations"].append({"label": lab, "env": w["env"], "lhs": w["lhs"], "rel": w["rel"], "rhs": w["rhs"]})
            has_raise = [p for p in pend if p[0] == "raise"]
            if raised and (has_raise or sym_error or mism):
                res["violations"].append({"label": "raises", "env": raised.get("env"), "error": raised.get("error"), "tb": raised.get("tb")})
            for p in pend:
                if p[0] == "raise":
                    if not raised:
                        res["undecided"].append(p[1])
                        res["notes"].append(p[4])
                elif p[1] not in bad and p[1] + KNOWN not in bad:
                    res["undecided"].append("%s (%s)" % (p[1], p[0]))
            if mism and not res["violations"]:
                res["undecided"].append("encoding not validated against the real build")
    finally:
        cl.close()
    res["wall_s"] = time.time() - t0
    return res


def refuted_at(b, path, points):
    """a sampled point that satisfies the path condition and clearly falsifies the obligation"""
    from .sym import evaluate, SymBool
    if not isinstance(b, SymBool):
        return None
    for a in points:
        env, memo = a["env"], a["memo"]
        try:
            if not all(holds(c, env, memo) for c in path):
                continue
            x, y = evaluate(b.a, env, memo), evaluate(b.b, env, memo)
        except (KeyError, OverflowError, ZeroDivisionError, ValueError):
            continue
        if not (math.isfinite(x) and math.isfinite(y)):
            continue
        d = 1e-5 * (1 + abs(x) + abs(y))
        if {"==": abs(x - y) > d, "<=": x > y + d, "<": x > y + d, ">=": x < y - d, ">": x < y - d, "!=": False}[b.rel]:
            return env
    return None


def pinned(b, env):
    """the solver's verdict on the negated obligation at one point (small obligations only)"""
    from . import sym, decide
    try:
        if sym.size([b.a, b.b]) > 400:
            return "sat"
        mp = {sym.var(k): float(v) for k, v in env.items()}
        r = sym.compare(b.rel, sym.substitute(b.a, mp), sym.substitute(b.b, mp))
        if isinstance(r, sym.SymBool):
            return decide.check([r.neg()], 3000)[0]
        return "unsat?" if bool(r) else "sat"
    except Exception:
        return "sat"


def note(a, bad, raised):
    if a["status"] == "ok":
        for lab, l, rel, r in a["bad"]:
            if lab not in bad:
                bad[lab] = {"env": a["env"], "lhs": l, "rel": rel, "rhs": r}
    elif a["status"] == "raised" and raised is None:
        raised = a
    elif a["status"] == "error" and raised is None and a.get("error") == "worker died":
        raised = {"error": "does not return" if a.get("hang") else "process crashed", "env": None, "tb": "", "hang": bool(a.get("hang"))}
    return raised


def holds(b, env, memo, slack=0.0):
    from .sym import evaluate
    if isinstance(b, bool):
        return b
    x, y = evaluate(b.a, env, memo), evaluate(b.b, env, memo)
    if slack and b.rel in ("<", "<=", ">", ">=") and abs(x - y) <= slack * (1 + abs(x) + abs(y)):
        return True
    return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": abs(x - y) <= 1e-12 * (1 + abs(x)),
            "!=": x != y}[b.rel]


def compare_outs(paths, a, skip=()):
    """skip: outputs that are determined up to a free choice of the library only (signs of eigenvectors)"""
    r = compare_outs1(paths, a, 0.0, skip)
    if r != "":
        # branch conditions that are ties up to rounding
        r2 = compare_outs1(paths, a, 1e-11, skip)
        if r2 == "":
            return r2
    return r


def compare_outs1(paths, a, slack, skip=()):
    from .case import flatten
    from .sym import evaluate, S, SymBool
    memo = {}
    env = a["env"]
    for path, out, _ in paths:
        try:
            if not all(holds(b, env, memo, slack) for b in path):
                continue
        except KeyError:
            continue
        fl = flatten(out)
        if [p for p, _ in fl] != [p for p, _ in a["outs"]]:
            return "different outputs %s / %s" % ([p for p, _ in fl][:8], [p for p, _ in a["outs"]][:8])
        for (p, v), (_, w) in zip(fl, a["outs"]):
            if skip and p.strip("/").split("/")[0].split("[")[0] in skip:
                continue
            if isinstance(w, str) or w is None:
                if v != w:
                    return "%s: %r / %r" % (p, v, w)
                continue
            if isinstance(v, SymBool):
                x = float(holds(v, env, memo))
            else:
                x = evaluate(v, env, memo)
            if math.isnan(x) and math.isnan(w):
                continue
            if x == w:
                continue
            if not abs(x - w) <= 1e-6 * (1 + abs(x) + abs(w)):
                return "%s: symbolic %r real %r" % (p, x, w)
        return ""
    return None


# --- scheduler ---------------------------------------------------------------------------------
CASE_S = float(os.environ.get("VERIF_CASE_S", "400"))
OVER = [False]


def overtime(*_):
    from .sym import SymError
    if not OVER[0]:
        raise SymError("time limit of a case")


def pool(cases, client_factory, seed, deadline, jobs):
    todo = list(cases)
    running = {}
    results = []
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                code = 0
                try:
                    sys.setrecursionlimit(100000)
                    signal.signal(signal.SIGALRM, overtime)
                    signal.setitimer(signal.ITIMER_REAL, max(30.0, min(CASE_S, deadline - time.time())), 20)
                    res = run_case(c, client_factory, seed, deadline)
                except BaseException as e:  # noqa
                    res = {"case": c.name, "fatal": repr(e), "tb": traceback.format_exc()}
                try:
                    with os.fdopen(w, "wb") as f:
                        f.write(pickle.dumps(res))
                finally:
                    os._exit(code)
            os.close(w)
            running[r] = (pid, c, [])
        rd, _, _ = select.select(list(running), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 16)
            pid, c, buf = running[r]
            if b:
                buf.append(b)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                results.append(pickle.loads(b"".join(buf)))
            except Exception:
                results.append(crashed(c, client_factory, seed))
        if time.time() > deadline + 100:
            for r, (pid, c, buf) in list(running.items()):
                try:
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                except OSError:
                    pass
                os.close(r)
                results.append({"case": c.name, "fatal": "killed at the time limit"})
            running.clear()
            for c in todo:
                results.append({"case": c.name, "fatal": "not started: time limit"})
            todo = []
    return results


def crashed(c, client_factory, seed):
    """the symbolic process died (e.g. memory error in C++): see whether the real build misbehaves"""
    cl = client_factory()
    res = {"case": c.name, "bounds": c.bounds, "goals": 0, "discharged": 0, "undecided": ["symbolic process died"],
           "violations": [], "paths": 0, "branches": 0, "dag": 0, "validated": 0, "notes": [], "functions": [],
           "nontrivial": 0, "stats": {}}
    bad, raised = {}, None
    for n in range(30):
        a = cl.ask(case=c.name, seed=seed * 7919 + 13 * n, goals=True)
        raised = note(a, bad, raised)
        if a.get("error") == "worker died":
            cl.close()
            cl = client_factory()
    for lab, w in bad.items():
        res["violations"].append({"label": lab, **w})
    if raised:
        res["violations"].append({"label": "raises", "env": raised.get("env"), "error": raised.get("error")})
    cl.close()
    return res


def main(prop, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    budget = float(os.environ.get("VERIF_BUDGET", "700" if tier == "quick" else "3300"))
    if tier == "thorough":
        globals()["CASE_S"] = 1500.0
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from . import build, load
    scratch = tempfile.mkdtemp(prefix="mssm_verif_")
    code = 2
    try:
        exts = get_exts(prop)
        try:
            dirs = build.build(exts, scratch)
        except build.BuildError as e:
            print("BUILD-ERROR", e)
            return 2
        for k in ("sym", "real"):
            os.makedirs(os.path.join(scratch, k), exist_ok=True)
        dirs = {k: os.path.join(scratch, k) for k in ("sym", "real")}
        tb = time.time() - t0
        from .worker import Client
        factory = lambda: Client(dirs["real"], exts, prop, tier)
        M = load.load("sym", dirs["sym"], exts)
        cases = get_cases(prop, tier, M)
        sel = os.environ.get("VERIF_CASE")
        if sel:
            cases = [c for c in cases if sel in c.name]
        deadline = t0 + budget
        results = pool(cases, factory, seed, deadline, int(os.environ.get("VERIF_JOBS", "8")))
        code = report(prop, tier, seed, cases, results, time.time() - t0, tb)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return code


def report(prop, tier, seed, cases, results, wall, tb):
    from . import shim, build
    known = known_findings(prop)
    order = {c.name: i for i, c in enumerate(cases)}
    results.sort(key=lambda r: order.get(r["case"], 0))
    mod = sys.modules["checks." + prop]
    viol, und = [], []
    known_hit = {}
    fatal = [r for r in results if "fatal" in r]
    for r in fatal:
        und.append("%s: %s" % (r["case"], r["fatal"]))
        if os.environ.get("VERIF_DEBUG"):
            print(r.get("tb"))
    good = [r for r in results if "fatal" not in r]
    for r in good:
        for v in r["violations"]:
            k = match_known(known, r["case"], v)
            if k is not None:
                known_hit.setdefault(k["what"], []).append((r["case"], v))
            else:
                viol.append((r["case"], v))
        for u in r["undecided"]:
            und.append("%s: %s" % (r["case"], u))
    goals = sum(r["goals"] for r in good)
    disch = sum(r["discharged"] for r in good)
    stats = {}
    for r in good:
        for k, v in r["stats"].items():
            stats[k] = max(stats.get(k, 0), v) if k.startswith("max") else stats.get(k, 0) + v
    funcs = sorted({f for r in good for f in r["functions"]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "wall_s": round(wall, 2), "violations": len(viol),
        "coverage": {
            "explanation": "bounded symbolic execution of the real code (Python from source, C++ recompiled over a "
                           "symbolic scalar); every obligation below was discharged by z3 for all values of the "
                           "symbolic inputs within the stated sizes, except those listed as undecided",
            "states": sum(r["dag"] for r in good),
            "states_meaning": "distinct symbolic expression nodes reached by the obligations",
            "transitions": sum(r["paths"] for r in good),
            "transitions_meaning": "feasible symbolic execution paths",
            "traces_validated_against_impl": sum(r["validated"] for r in good),
            "obligations": goals, "discharged": disch, "undecided": und[:50],
            "queries": stats, "functions_encoded": funcs,
            "bounds": {r["case"]: r["bounds"] for r in good},
            "cases": len(results), "build_s": round(tb, 1),
            "samples": [
                {"case": r["case"], "obligations": r["goals"], "discharged": r["discharged"],
                 "nontrivial": r["nontrivial"], "paths": r["paths"], "branches": r["branches"],
                 "dag_nodes": r["dag"], "validated_points": r["validated"],
                 "solver_s": round(r["stats"].get("solver_s", 0), 3), "wall_s": round(r.get("wall_s", 0), 2),
                 "notes": r["notes"][:4]}
                for r in good
            ],
        },
        "assumptions": shim.ASSUMPTIONS + list(getattr(mod, "ASSUMPTIONS", [])),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for r in good:
        print("case %-44s obligations %4d discharged %4d paths %3d dag %7d validated %d  %.1fs%s" % (
            r["case"], r["goals"], r["discharged"], r["paths"], r["dag"], r["validated"], r.get("wall_s", 0),
            "" if not r["notes"] else "  note: " + " ".join(str(r["notes"][0]).split())[-160:]))
    for what in known_hit:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for u in und[:40]:
        print("UNDECIDED", u)
    print("property %s: %d/%d obligations discharged, %d queries, solver %.1fs, build %.1fs, wall %.1fs" % (
        prop, disch, goals, stats.get("queries", 0), stats.get("solver_s", 0), tb, wall))
    if viol:
        os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
        by = {}
        for c, v in viol:
            by.setdefault(c, []).append(v)
        for n, (c, vs) in enumerate(by.items()):
            p = os.path.join(HERE, "evidence", "replay", "%s_%d.json" % (prop, n))
            with open(p, "w") as f:
                json.dump({"property": prop, "tier": tier, "case": c, "violations": vs[:20],
                           "reproduce": "VERIF_CASE='%s' python check.py %s --tier %s" % (c, prop, tier)}, f, indent=1)
            v = vs[0]
            print("  %s: %s  %s" % (c, v["label"], v.get("error") or "%r %s %r expected" % (v.get("lhs"), v.get("rel"), v.get("rhs"))))
            print("VIOLATION property=%s replay=%s" % (prop, p))
        return 1
    if fatal or not good:
        print("INCONCLUSIVE", [r["fatal"] for r in fatal][:3])
    if disch == 0:
        return 2
    return 0


def match_known(known, case, v):
    import fnmatch
    for k in known:
        if fnmatch.fnmatchcase(case, k["case"]) and any(fnmatch.fnmatchcase(v["label"], p) for p in k["labels"]):
            return k
    return None
