"""Concrete side: runs cases on the real build.  Started as a subprocess; pickle frames on fd 1."""
import os
import pickle
import select
import struct
import subprocess
import sys
import traceback
import warnings


def main():
    out = os.fdopen(os.dup(1), "wb")
    os.dup2(2, 1)
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, here)
    extdir, names, prop, tier = sys.argv[1:5]
    warnings.simplefilter("ignore")
    import numpy as np
    np.seterr(all="ignore")
    from engine import load, harness, case as C
    M = load.load("real", extdir, names.split(","))
    cases = {c.name: c for c in harness.get_cases(prop, tier, M)}
    inp = sys.stdin.buffer
    while True:
        h = inp.read(4)
        if len(h) < 4:
            return
        req = pickle.loads(inp.read(struct.unpack("<I", h)[0]))
        try:
            res = handle(C, cases, req)
        except BaseException as e:  # noqa
            res = {"status": "error", "error": repr(e), "tb": traceback.format_exc()}
        b = pickle.dumps(res)
        out.write(struct.pack("<I", len(b)) + b)
        out.flush()


def handle(C, cases, req):
    case = cases[req["case"]]
    I = C.ConcIn(case, req.get("env"), req.get("seed", 0))
    try:
        out = case.run(I)
    except C.Reject:
        return {"status": "reject"}
    except Exception as e:
        if isinstance(e, case.raises_ok):
            return {"status": "reject"}
        return {"status": "raised", "error": "%s: %s" % (type(e).__name__, e), "env": I.env,
                "kinds": I.kinds, "tb": traceback.format_exc()[-1500:]}
    I.out = out
    res = {"status": "ok", "env": dict(I.env), "kinds": I.kinds}
    if req.get("outs"):
        fl = C.flatten(out)
        res["outs"] = [(p, v if isinstance(v, str) or v is None else float(v)) for p, v in fl]
    if req.get("goals"):
        try:
            bad = failing(C, case, I, out)
            if bad and I.used_fd:
                # numerical derivatives: a failure has to survive a smaller step
                I.hs = 0.25
                again = {b[0] for b in failing(C, case, I, out)}
                bad = [b for b in bad if b[0] in again]
        except C.Reject:
            return {"status": "reject"}
        res["bad"] = bad
    return res


def failing(C, case, I, out):
    bad = []
    for g in case.goals(I, out):
        tol = max(case.tol, case.fd_tol) if I.used_fd else case.tol
        if C.violated(g, tol):
            lab = g.label
            if g.alt is not None and not C.violated(C.Goal(lab, g.lhs, "==", g.alt, g.tol), tol):
                lab += C.KNOWN
            bad.append((lab, flt(C.scal(g.lhs)), g.rel, flt(C.scal(g.rhs))))
    return bad


def flt(x):
    try:
        return float(x)
    except (TypeError, ValueError):
        return str(x)


HANG_S = 90  # the concrete runs take milliseconds


class Client:
    def __init__(self, extdir, names, prop, tier):
        env = dict(os.environ)
        for k in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
            env[k] = "1"
        env["PYTHONDONTWRITEBYTECODE"] = "1"
        self.p = subprocess.Popen(
            [sys.executable, "-m", "engine.worker", extdir, ",".join(names), prop, tier],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL if not os.environ.get("VERIF_DEBUG") else None,
            cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=env)

    def ask(self, **req):
        b = pickle.dumps(req)
        try:
            self.p.stdin.write(struct.pack("<I", len(b)) + b)
            self.p.stdin.flush()
            if not select.select([self.p.stdout], [], [], HANG_S)[0]:
                self.close()
                return {"status": "error", "error": "worker died", "hang": True}
            h = self.p.stdout.read(4)
        except BrokenPipeError:
            h = b""
        if len(h) < 4:
            return {"status": "error", "error": "worker died"}
        return pickle.loads(self.p.stdout.read(struct.unpack("<I", h)[0]))

    def close(self):
        try:
            self.p.kill()
            self.p.wait()
        except Exception:
            pass


if __name__ == "__main__":
    main()
