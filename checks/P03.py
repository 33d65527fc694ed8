"""Location-scale-shape families: densities, cumulative probabilities, derivatives, residuals."""
import itertools
import numpy as np
from engine.case import Case, Goal, eqs, F, scal
from checks.P02 import lp_gamma, lp_gauss

EXTS = []
ASSUMPTIONS = ["second derivatives of the Gaussian and Gamma families are the expected ones (the identity E[score]=0 is used to pass from the observed to the expected second derivative)",
               "the multinomial family's residuals are checked for the random numbers the seed produces"]


def cases(tier, M):
    E = M.exp_fam
    O = E.DerivOrder
    n = 2 if tier == "quick" else 3
    out = []

    def two(name, mk, ykind, mkind, lpspec, extra):
        def run(I):
            fam = mk()
            y, m, s = I.arr("y", (n, 1), ykind), I.arr("m", (n, 1), mkind), I.arr("s", (n, 1), "pos")
            keep = [y.copy(), m.copy(), s.copy()]
            o = {"lp": fam.lp(y, m, s), "llk": fam.llk(y, m, s), "lcp": fam.lcp(y, m, s),
                 "d1": [fam.dpars(y, m, s, index=k, order=O.d1) for k in range(2)],
                 "d2": [fam.dpars(y, m, s, index=k, order=O.d2) for k in range(2)],
                 "d2m": fam.dpars(y, m, s, index=0, order=O.d2m),
                 "after": [y, m, s], "keep": keep}
            return o

        def goals(I, o):
            g = []
            for k in range(3):
                g += eqs("inputs kept %d" % k, o["after"][k], o["keep"][k])
            y, m, s = o["keep"]
            t = 0
            for i in range(n):
                Y, MU, SC = y[i, 0], m[i, 0], s[i, 0]
                sp = lpspec(I, Y, MU, SC)
                t = t + sp
                g.append(Goal("lp[%d]" % i, o["lp"][i, 0], "==", sp))
                for k, v in enumerate(("m_%d_0" % i, "s_%d_0" % i)):
                    g.append(Goal("d1 par%d[%d]" % (k, i), o["d1"][k][i, 0], "==", I.D(lambda x: x["lp"][i, 0], v)))
                g += extra(I, o, i, Y, MU, SC)
            g.append(Goal("llk", scal(o["llk"]), "==", t))
            return g

        out.append(Case(name, run, goals, bounds="%d observations, all y and parameters" % n, max_paths=64))

    def gx(I, o, i, y, m, s):
        d = lambda k, v: I.D(lambda x: x["d1"][k][i, 0], "%s_%d_0" % (v, i))
        return [Goal("E d2 mean[%d]" % i, o["d2"][0][i, 0], "==", d(0, "m")),
                Goal("E d2 sd[%d]" % i, o["d2"][1][i, 0], "==", d(1, "s") + 3 / s * o["d1"][1][i, 0]),
                Goal("E d2m[%d]" % i, o["d2m"][i, 0], "==", d(0, "s") + 2 / s * o["d1"][0][i, 0]),
                Goal("lcp[%d]" % i, o["lcp"][i, 0], "==", F.log(F.normcdf((y - m) / s)))]

    def ax(I, o, i, y, m, s):
        d = lambda k, v: I.D(lambda x: x["d1"][k][i, 0], "%s_%d_0" % (v, i))
        g = [Goal("E d2 mean[%d]" % i, o["d2"][0][i, 0], "==", d(0, "m") + 2 / m * o["d1"][0][i, 0]),
             Goal("E d2 scale[%d]" % i, o["d2"][1][i, 0], "==", d(1, "s") + 2 / s * o["d1"][1][i, 0]),
             Goal("E d2m[%d]" % i, o["d2m"][i, 0], "==", d(0, "s") + o["d1"][0][i, 0] / s)]
        g.append(Goal("lcp[%d]" % i, o["lcp"][i, 0], "==", F.log(gammacdf(y / (m * s), 1 / s))))
        return g

    two("GAUMLSS", lambda: E.GAUMLSS(), "real", "real", lambda I, y, m, s: lp_gauss(I, y, m, s * s), gx)
    two("GAMMALS", lambda: E.GAMMALS(), "pos", "pos", lp_gamma, ax)

    def resid(name, mk, ykind, mkind, spec):
        def run(I):
            y, m, s = I.arr("y", (1, 1), ykind), I.arr("m", (1, 1), mkind), I.arr("s", (1, 1), "pos")
            yk = y.copy()
            return {"r": mk().get_resid(y, m, s), "y": yk, "m": m, "s": s, "y1": y}

        def goals(I, o):
            return spec(I, o["r"][0, 0], o["y"][0, 0], o["m"][0, 0], o["s"][0, 0]) + eqs("y kept", o["y1"], o["y"])

        out.append(Case(name, run, goals, bounds="one observation", trans=True))

    resid("GAUMLSS resid", lambda: E.GAUMLSS(), "real", "real", lambda I, r, y, m, s: [Goal("resid", r, "==", (y - m) / s)])

    def gres(I, r, y, m, s):
        D = 2 * ((y - m) / m - F.log(y) + F.log(m))
        g = [Goal("resid^2", r * r, "==", D / s)]
        if I.sym:
            up = bool(y > m)
        else:
            up = y > m
        g.append(Goal("sign", r, ">=" if up else "<=", 0))
        return g

    resid("GAMMALS resid", lambda: E.GAMMALS(), "pos", "pos", gres)

    for K in ((2, 3) if tier == "quick" else (2, 3, 4)):
        out.append(mulnom(E, O, K))
        out.append(mulres(E, K))
    return out


def gammacdf(x, a):
    from engine import sym
    if isinstance(x, sym.S):
        return sym.fn("gammacdf", x, a, sym.ONE)
    import scipy.stats
    return float(scipy.stats.gamma.cdf(x, a))


def mulnom(E, O, K):
    """K non-reference classes, one observation per class"""
    ys = list(range(K + 1))

    def run(I):
        fam = E.MULNOMLSS(K)
        y = I.const(np.array(ys, dtype=float).reshape(-1, 1))
        etas = [I.arr("e%d" % k, (K + 1, 1)) for k in range(K)]
        mus = [fam.links[k].fi(etas[k]) for k in range(K)]
        keep = [m.copy() for m in mus]
        npair = K * (K - 1) // 2
        return {"lp": fam.lp(y, *mus), "llk": fam.llk(y, *mus), "lcp": fam.lcp(y, *mus), "probs": fam.get_probs(*mus),
                "d1": [fam.dpars(y, *mus, index=k, order=O.d1) for k in range(K)],
                "d2": [fam.dpars(y, *mus, index=k, order=O.d2) for k in range(K)],
                "d2m": [fam.dpars(y, *mus, index=k, order=O.d2m) for k in range(npair)], "mus": mus, "keep": keep}

    def goals(I, o):
        g = []
        for k in range(K):
            g += eqs("mus kept %d" % k, o["mus"][k], o["keep"][k])
        t = 0
        pairs = [(a, b) for a in range(K) for b in range(a + 1, K)]
        for i, y in enumerate(ys):
            m = [o["keep"][k][i, 0] for k in range(K)]
            den = 1 + sum(m)
            p = [1 / den] + [x / den for x in m]
            t = t + F.log(p[y])
            g.append(Goal("lp[%d]" % y, o["lp"][i, 0], "==", F.log(p[y])))
            c = 0
            for k in range(1, y + 1):
                c = c + p[k]
            g.append(Goal("lcp[%d]" % y, o["lcp"][i, 0], "==", F.log(c) if y else 0))
            tot = 0
            for k in range(K + 1):
                g.append(Goal("probs[%d,%d]" % (i, k), o["probs"][i, k], "==", p[k]))
                tot = tot + o["probs"][i, k]
            g.append(Goal("probs sum[%d]" % i, tot, "==", 1))
            for k in range(K):
                v = "e%d_%d_0" % (k, i)
                g.append(Goal("d1 par%d y%d" % (k, y), o["d1"][k][i, 0], "==", I.D(lambda x: x["lp"][i, 0], v)))
                g.append(Goal("d2 par%d y%d" % (k, y), o["d2"][k][i, 0], "==", I.D(lambda x: x["d1"][k][i, 0], v)))
            for q, (a, b) in enumerate(pairs):
                g.append(Goal("d2m %d%d y%d" % (a, b, y), o["d2m"][q][i, 0], "==",
                              I.D(lambda x: x["d1"][a][i, 0], "e%d_%d_0" % (b, i))))
        g.append(Goal("llk", scal(o["llk"]), "==", t))
        return g

    return Case("MULNOMLSS %d" % K, run, goals, bounds="%d classes, one observation per class, all predictors" % (K + 1))


def mulres(E, K):
    ys = list(range(K + 1)) + [1]

    def run(I):
        fam = E.MULNOMLSS(K)
        y = I.const(np.array(ys, dtype=float).reshape(-1, 1))
        mus = [I.arr("mu%d" % k, (len(ys), 1), "pos") for k in range(K)]
        return {"r": fam.get_resid(y, *mus), "mus": mus}

    def goals(I, o):
        g = [Goal("size", float(o["r"].size), "==", float(len(ys)))]
        u = np.random.default_rng(0)
        for i, y in enumerate(ys):
            m = [o["mus"][k][i, 0] for k in range(K)]
            den = 1 + sum(m)
            order = m + [1]
            pos = K if y == 0 else y - 1
            lo = sum(order[:pos]) / den if pos else 0
            hi = sum(order[:pos + 1]) / den
            ui = float(u.uniform(0, 1, 1)[0])
            g.append(Goal("resid[%d]" % i, o["r"].reshape(-1)[i], "==", F.normppf(lo + (hi - lo) * ui)))
        return g

    return Case("MULNOMLSS resid %d" % K, run, goals, bounds="%d classes, all probabilities, the draws of seed 0" % (K + 1))
