"""Proportional hazards family: partial likelihood, derivatives, baseline hazard, survival, residuals."""
import itertools
import numpy as np
from engine.case import Case, Goal, eqs, F, scal, dense
from checks.P02 import sp

EXTS = ["hazard"]
ASSUMPTIONS = ["event times and event indicators are enumerated (all indicator patterns at the listed sizes); covariates, coefficients and covariance entries are symbolic"]


def spec(I, n, p, r, delta, X, c, nt):
    """risk set sums by definition"""
    eta = [sum((X[i, k] * c[k, 0] for k in range(1, p)), X[i, 0] * c[0, 0]) for i in range(n)]
    gam = [F.exp(e) for e in eta]
    risk = [sum((gam[k] for k in range(n) if r[k] <= j), 0) for j in range(nt)]
    return eta, gam, risk


def cumhaz(gam, risk, r, delta, nt):
    d = [sum(int(delta[i]) for i in range(len(r)) if r[i] == j) for j in range(nt)]
    H = [sum((d[k] / risk[k] for k in range(j, nt)), 0) for j in range(nt)]
    q = [sum((d[k] / (risk[k] * risk[k]) for k in range(j, nt)), 0) for j in range(nt)]
    return d, H, q


def zero(I):
    return I.const(np.zeros(1))[0]


def cases(tier, M):
    E = M.exp_fam
    out = []

    def pats(n):
        return [d for d in itertools.product([0, 1], repeat=n)]

    def mk(I, r, delta, p, pre=""):
        n = len(r)
        X = I.arr(pre + "X", (n, p))
        c = I.arr(pre + "c", (p, 1))
        return X, c, sp(M).csc_array(X), np.array(delta, dtype=np.int64).reshape(-1, 1)

    def llk(r, delta, p):
        nt = max(r) + 1
        n = len(r)
        ut = np.arange(nt, 0, -1).astype(float) * 1.5

        def run(I):
            X, c, Xs, d = mk(I, r, delta, p)
            fam = E.PropHaz(ut, np.array(r))
            c0 = c.copy()
            o = {"llk": fam.llk(c, [], [d], [Xs]), "g": fam.gradient(c, [], [d], [Xs]),
                 "H": fam.hessian(c, [], [d], [Xs]), "X": X, "c": c0, "c1": c}
            return o

        def goals(I, o):
            X, c = o["X"], o["c"]
            eta, gam, risk = spec(I, n, p, r, delta, X, c, nt)
            t = zero(I)
            for i in range(n):
                if delta[i]:
                    t = t + eta[i] - F.log(risk[r[i]])
            g = [Goal("llk", scal(o["llk"]), "==", t), Goal("gradient size", float(np.size(o["g"])), "==", float(p))]
            g += eqs("coef kept", o["c1"], c)
            H = dense(o["H"])
            for k in range(p):
                g.append(Goal("gradient[%d]" % k, np.asarray(o["g"]).reshape(-1)[k], "==", I.D(lambda x: x["llk"], "c_%d_0" % k)))
                for l in range(p):
                    g.append(Goal("hessian[%d,%d]" % (k, l), H[k, l], "==",
                                  I.D(lambda x: np.asarray(x["g"]).reshape(-1)[k], "c_%d_0" % l)))
            return g

        out.append(Case("llk r=%s delta=%s p=%d" % (r, "".join(map(str, delta)), p), run, goals,
                        bounds="%d observations, %d event times, %d coefficients; all X, coef" % (n, nt, p)))

    def surv(r, delta, p, utv, ts, var):
        nt = len(utv)
        n = len(r)

        def run(I):
            X, c, Xs, d = mk(I, r, delta, p)
            ut = np.array(utv, dtype=float)
            fam = E.PropHaz(ut, np.array(r))
            xn = I.arr("x", (2, p))
            V = I.arr("v", (p, p))
            W = V.T @ V
            o = {"X": X, "c": c.copy(), "x": xn, "W": W, "S": [], "v": []}
            for t in ts:
                if var:
                    S, v = fam.get_survival(c, [Xs], d, t, xn, sp(M).csc_array(W))
                    o["v"].append(v)
                else:
                    S, v = fam.get_survival(c, [Xs], d, t, xn, None, compute_var=False)
                    o["none"] = v
                o["S"].append(S)
            o["h"] = fam.get_baseline_hazard(c, d, [Xs])
            return o

        def goals(I, o):
            X, c, x = o["X"], o["c"], o["x"]
            eta, gam, risk = spec(I, n, p, r, delta, X, c, nt)
            d, H, q = cumhaz(gam, risk, r, delta, nt)
            g = [Goal("baseline[%d]" % j, o["h"].reshape(-1)[j], "==", H[j] if not isinstance(H[j], int) else zero(I)) for j in range(nt)]
            if not var:
                g.append(Goal("no variance", 1.0 if o["none"] is None else 0.0, "==", 1.0))
            for a, t in enumerate(ts):
                # last event time not after t
                js = [j for j in range(nt) if utv[j] <= t]
                j = js[0] if js else None
                for k in range(2):
                    e = sum((x[k, l] * c[l, 0] for l in range(1, p)), x[k, 0] * c[0, 0])
                    Hj = H[j] if j is not None else zero(I)
                    Sx = F.exp(-Hj * F.exp(e))
                    g.append(Goal("S(%g)[%d]" % (t, k), np.asarray(o["S"][a]).reshape(-1)[k], "==", Sx))
                    if var:
                        if j is None:
                            g.append(Goal("se(%g)[%d]" % (t, k), np.asarray(o["v"][a]).reshape(-1)[k], "==", 0.0))
                            continue
                        av = []
                        for l in range(p):
                            s = zero(I)
                            for m in range(j, nt):
                                b = sum((gam[i] * X[i, l] for i in range(n) if r[i] <= m), zero(I))
                                s = s + b * d[m] / (risk[m] * risk[m])
                            av.append(s - Hj * x[k, l])
                        quad = q[j] + sum((av[l] * o["W"][l, m] * av[m] for l in range(p) for m in range(p)), zero(I))
                        got = np.asarray(o["v"][a]).reshape(-1)[k]
                        # standard error >= 0 with the stated square
                        ex = F.exp(e)
                        if not F_is0(quad):
                            g.append(Goal("se(%g)^2[%d]" % (t, k), got * got, "==", ex * ex * Sx * Sx * quad))
                            g.append(Goal("se(%g)>=0[%d]" % (t, k), got, ">=", 0))
            return g

        out.append(Case("survival%s r=%s delta=%s" % (" var" if var else "", r, "".join(map(str, delta))), run, goals,
                        bounds="%d observations, %d event times, %d coefficients, times %s" % (n, nt, p, ts), timeout_ms=120000))

    def hist(r, d1, d2):
        """a family object answers for the arguments of the call, whatever it was asked before"""
        nt = max(r) + 1
        n = len(r)

        def run(I):
            X, c, Xs, a = mk(I, r, d1, 1)
            X2, c2, Xs2, b = mk(I, r, d2, 1, "z")
            ut = np.arange(nt, 0, -1).astype(float)
            fam, ref = E.PropHaz(ut, np.array(r)), E.PropHaz(ut, np.array(r))
            fam.get_baseline_hazard(c, a, [Xs])
            o = {"h": fam.get_baseline_hazard(c2, b, [Xs2]), "S": fam.get_survival(c2, [Xs2], b, ut[0], X2, None, compute_var=False)[0],
                 "X": X2, "c": c2}
            return o

        def goals(I, o):
            X, c = o["X"], o["c"]
            eta, gam, risk = spec(I, n, 1, r, d2, X, c, nt)
            d, H, q = cumhaz(gam, risk, r, d2, nt)
            g = [Goal("baseline after other call[%d]" % j, o["h"].reshape(-1)[j], "==", H[j]) for j in range(nt)]
            return g + [Goal("survival after other call[%d]" % i, np.asarray(o["S"]).reshape(-1)[i], "==", F.exp(-H[0] * gam[i])) for i in range(n)]

        out.append(Case("history r=%s %s->%s" % (r, "".join(map(str, d1)), "".join(map(str, d2))), run, goals,
                        bounds="two consecutive calls with unrelated arguments"))

    def hist2(r, d):
        """only the coefficients change between two calls"""
        nt, n = max(r) + 1, len(r)

        def run(I):
            X, c, Xs, a = mk(I, r, d, 1)
            c2 = I.arr("k", (1, 1))
            ut = np.arange(nt, 0, -1).astype(float)
            fam = E.PropHaz(ut, np.array(r))
            fam.get_survival(c, [Xs], a, ut[0], X, None, compute_var=False)
            return {"h": fam.get_baseline_hazard(c2, a, [Xs]), "X": X, "c": c2,
                    "res": fam.get_resid(c2, [], [a], [Xs])}

        def goals(I, o):
            eta, gam, risk = spec(I, n, 1, r, d, o["X"], o["c"], nt)
            _, H, q = cumhaz(gam, risk, r, d, nt)
            g = [Goal("baseline new coef[%d]" % j, o["h"].reshape(-1)[j], "==", H[j]) for j in range(nt)]
            return g + [Goal("residual new coef[%d]" % i, o["res"][i, 0], "==", d[i] - H[r[i]] * gam[i]) for i in range(n)]

        out.append(Case("history coef r=%s %s" % (r, "".join(map(str, d))), run, goals, bounds="two calls, second with new coefficients"))

    def resid(r, delta, kind, reorder):
        nt, n, p = max(r) + 1, len(r), 1

        def run(I):
            X, c, Xs, d = mk(I, r, delta, p)
            ut = np.arange(nt, 0, -1).astype(float)
            fam = E.PropHaz(ut, np.array(r))
            if kind == "Deviance":  # the code guards log(0) by the machine epsilon
                _, gam, risk = spec(I, n, p, r, delta, X, c, nt)
                _, H, _ = cumhaz(gam, risk, r, delta, nt)
                for i in range(n):
                    if delta[i]:
                        I.assume(H[r[i]] * gam[i] > 1e-12)
                        I.assume(H[r[i]] * gam[i] != 1)
            return {"r": fam.get_resid(c, [], [d], [Xs], resid_type=kind, reorder=None if reorder is None else np.array(reorder)), "X": X, "c": c}

        def goals(I, o):
            eta, gam, risk = spec(I, n, p, r, delta, o["X"], o["c"], nt)
            d, H, q = cumhaz(gam, risk, r, delta, nt)
            g = []
            for a in range(n):
                i = a if reorder is None else reorder[a]
                L = H[r[i]] * gam[i]
                m = delta[i] - L
                got = o["r"][a, 0]
                if kind == "Martingale":
                    g.append(Goal("martingale[%d]" % a, got, "==", m))
                else:
                    D2 = -2 * m if not delta[i] else -2 * (m + F.log(L))
                    g.append(Goal("deviance resid^2[%d]" % a, got * got, "==", D2, tol=1e-5))
                    g.append(Goal("deviance resid sign[%d]" % a, got * m, ">=", 0))
            return g

        out.append(Case("resid %s r=%s delta=%s%s" % (kind, r, "".join(map(str, delta)), "" if reorder is None else " reorder"), run, goals,
                        bounds="%d observations" % n, timeout_ms=60000))

    rs = [[0, 1, 1]] if tier == "quick" else [[0, 1, 1], [0, 0, 1, 2], [0, 1, 2]]
    for r in rs:
        for d in pats(len(r)):
            if sum(d):
                llk(r, d, 2)
    llk([0, 1, 1, 2], (1, 1, 0, 1), 2)
    llk([1, 0, 1], (1, 1, 1), 1)
    llk([0, 0, 1], (0, 0, 0), 1)
    surv([0, 1, 1], (1, 1, 0), 2, [3, 2], [3, 2, 2.5, 5, 1], False)
    surv([0, 1, 2], (1, 0, 1), 1, [4, 3, 1], [3, 1, 3.5, 2], True)
    surv([0, 0, 1], (1, 1, 1), 2, [4, 3], [4, 3], True)
    surv([1, 0, 1], (1, 1, 1), 1, [4, 2], [3, 1], True)
    if tier != "quick":
        surv([0, 1, 1, 2], (1, 1, 1, 1), 1, [4, 3, 1], [3, 1, 4, 2, 0.5, 9], True)
    hist([0, 1, 1], (1, 1, 0), (0, 1, 1))
    hist2([0, 1, 1], (1, 1, 0))
    for d in pats(3):
        if d[1] or d[2]:
            resid([0, 1, 1], d, "Martingale", None)
    resid([0, 1, 2], (1, 0, 1), "Martingale", [2, 0, 1])
    for d in ((1, 1, 1), (0, 1, 1), (1, 0, 1)):
        resid([0, 1, 1], d, "Deviance", None)
    return out


def F_is0(q):
    return isinstance(q, int) and q == 0
