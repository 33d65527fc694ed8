"""Exponential families: densities, variance functions, deviance, gradients."""
import numpy as np
from engine.case import Case, Goal, eqs, F, scal
from checks.hs import PIV

EXTS = []
ASSUMPTIONS = ["means and positive-support responses strictly inside their domain; boundary responses (0 counts, proportions 0 and 1) as concrete values"]


def lp_gauss(I, y, mu, s):
    return -(y - mu) * (y - mu) / (2 * s) - F.log(2 * PIV(I) * s) / 2


def lp_gamma(I, y, mu, s):
    a = 1 / s
    return a * F.log(a / mu) + (a - 1) * F.log(y) - y * a / mu - F.gammaln(a)


def lp_ig(I, y, mu, s):
    return -(y - mu) * (y - mu) / (2 * s * mu * mu * y) - F.log(2 * PIV(I) * s * y * y * y) / 2


def lp_pois(I, y, mu, s):
    import math
    return (F.log(mu) * y if y else 0) - mu - clog(I, math.factorial(y))


def lp_bin(I, y, mu, n):
    import math
    k = round(float(y) * n)
    r = clog(I, math.comb(n, k))
    if k:
        r = r + k * F.log(mu)
    if n - k:
        r = r + (n - k) * F.log(1 - mu)
    return r


def clog(I, n):
    """log of an exact integer"""
    if I.sym:
        from engine import sym
        return sym.const(n).log()
    return F.log(n)


def cases(tier, M):
    E = M.exp_fam
    out = []
    n = 2 if tier == "quick" else 4

    def cont(name, mk, ykind, mkind, spec):
        """two-parameter families: y, mu, scale symbolic"""
        def run(I):
            fam = mk()
            y = I.arr("y", (n, 1), ykind)
            mu = I.arr("mu", (n, 1), mkind)
            s = I.pos("s")
            y0, mu0 = y.copy(), mu.copy()
            o = {"lp": fam.lp(y, mu, s), "llk": fam.llk(y, mu, s), "lpy": fam.lp(y, y, s), "V": fam.V(mu),
                 "dV": fam.dVy1(mu), "D": fam.D(y, mu), "dev": fam.deviance(y, mu), "lp1": fam.lp(y, mu),
                 "y": y0, "mu": mu0, "s": s, "y1": y, "mu1": mu, "init": fam.init_mu(y)}
            return o

        def goals(I, o):
            g = eqs("inputs kept y", o["y1"], o["y"]) + eqs("inputs kept mu", o["mu1"], o["mu"])
            t = 0
            td = 0
            for i in range(n):
                y, mu, s = o["y"][i, 0], o["mu"][i, 0], o["s"]
                sp = spec(I, y, mu, s)
                t = t + sp
                td = td + o["D"][i, 0]
                g.append(Goal("lp[%d]" % i, o["lp"][i, 0], "==", sp))
                one = I.const(np.ones(1))[0]
                g.append(Goal("lp default scale[%d]" % i, o["lp1"][i, 0], "==", spec(I, y, mu, one)))
                g.append(Goal("score[%d]" % i, I.D(lambda x: x["lp"][i, 0], "mu_%d_0" % i), "==",
                              (y - mu) / (s * o["V"][i, 0])))
                g.append(Goal("dV[%d]" % i, o["dV"][i, 0], "==", I.D(lambda x: x["V"][i, 0], "mu_%d_0" % i)))
                g.append(Goal("D[%d]" % i, o["D"][i, 0], "==", 2 * s * (spec(I, y, y, s) - sp)))
            g.append(Goal("llk", scal(o["llk"]), "==", t))
            g.append(Goal("deviance", scal(o["dev"]), "==", td))
            return g + eqs("init_mu", o["init"], o["y"])

        out.append(Case("%s density" % name, run, goals, bounds="%d observations, all y, mu, scale" % n))

    cont("Gaussian", lambda: E.Gaussian(), "real", "real", lp_gauss)
    cont("Gamma", lambda: E.Gamma(), "pos", "pos", lp_gamma)
    cont("InvGauss", lambda: E.InvGauss(), "pos", "pos", lp_ig)

    def disc(name, mk, ys, ns, mkind, spec, var):
        def run(I):
            fam = mk(I)
            y = I.const(np.array(ys, dtype=float).reshape(-1, 1))
            mu = I.arr("mu", (len(ys), 1), mkind)
            mu0 = mu.copy()
            return {"lp": fam.lp(y, mu), "llk": fam.llk(y, mu), "V": fam.V(mu), "dV": fam.dVy1(mu), "D": fam.D(y, mu),
                    "dev": fam.deviance(y, mu), "mu": mu0, "mu1": mu, "init": fam.init_mu(y)}

        def goals(I, o):
            g = eqs("inputs kept mu", o["mu1"], o["mu"])
            t, td = 0, 0
            for i, y in enumerate(ys):
                mu = o["mu"][i, 0]
                sp = spec(I, y, mu, ns[i])
                t = t + sp
                td = td + o["D"][i, 0]
                g.append(Goal("lp[%d]" % i, o["lp"][i, 0], "==", sp))
                g.append(Goal("score[%d]" % i, I.D(lambda x: x["lp"][i, 0], "mu_%d_0" % i), "==", (y - mu) / o["V"][i, 0]))
                g.append(Goal("dV[%d]" % i, o["dV"][i, 0], "==", I.D(lambda x: x["V"][i, 0], "mu_%d_0" % i)))
                if var == "bin":
                    k, nn = y * ns[i], ns[i]
                    sat = cst(I, k, y) + cst(I, nn - k, 1 - y)
                    cur = (k * F.log(mu) if k else 0) + ((nn - k) * F.log(1 - mu) if nn - k else 0)
                    g.append(Goal("D[%d]" % i, o["D"][i, 0], "==", 2 * (sat - cur)))
                    g.append(Goal("init>0[%d]" % i, o["init"][i, 0], ">", 0))
                    g.append(Goal("init<1[%d]" % i, o["init"][i, 0], "<", 1))
                else:
                    g.append(Goal("D[%d]" % i, o["D"][i, 0], "==", 2 * (cst(I, y, y) - y - (y * F.log(mu) if y else 0) + mu)))
                    g.append(Goal("init>0[%d]" % i, o["init"][i, 0], ">", 0))
            g.append(Goal("llk", scal(o["llk"]), "==", t))
            g.append(Goal("deviance", scal(o["dev"]), "==", td))
            return g

        out.append(Case("%s density" % name, run, goals, bounds="responses %s, all means" % (ys,)))

    disc("Poisson", lambda I: E.Poisson(), [0, 1, 4] if tier == "quick" else [0, 1, 2, 3, 7], [1] * 5, "pos", lp_pois, "pois")
    disc("Binomial n=1", lambda I: E.Binomial(n=1), [0, 1], [1, 1], "unit", lp_bin, "bin")
    disc("Binomial n=4", lambda I: E.Binomial(n=4), [0, 0.25, 0.75, 1], [4] * 4, "unit", lp_bin, "bin")
    disc("Binomial vector n", lambda I: E.Binomial(n=np.array([[2], [4], [8]])), [0.5, 0.25, 0.125], [2, 4, 8], "unit", lp_bin, "bin")

    def grad(name, fam, link, ykind, ys, scale, cond):
        def run(I):
            f = fam(link())
            X = I.arr("X", (2, 2))
            coef = I.arr("c", (2, 1))
            y = I.arr("y", (2, 1), ykind) if ys is None else I.const(np.array(ys, dtype=float).reshape(-1, 1))
            eta = X @ coef
            if cond:
                I.assume(eta[0, 0] > 0)
                I.assume(eta[1, 0] > 0)
            mu = f.link.fi(eta)
            Xs = sp(M).csc_array(X)
            if scale:
                s = I.pos("s")
                return {"g": f.dllkdcoef(coef, y, Xs, s), "llk": f.llk(y, mu, s)}
            return {"g": f.dllkdcoef(coef, y, Xs), "llk": f.llk(y, mu)}

        def goals(I, o):
            g = [Goal("size", float(o["g"].size), "==", 2.0)]
            return g + [Goal("dllk/dc%d" % k, o["g"].reshape(-1)[k], "==", I.D(lambda x: x["llk"], "c_%d_0" % k)) for k in range(2)]

        out.append(Case("gradient " + name, run, goals, bounds="2 observations, 2 coefficients, all X, coef, y, scale"))

    grad("Gaussian identity", E.Gaussian, E.Identity, "real", None, True, False)
    grad("Gaussian log", E.Gaussian, E.LOG, "real", None, True, False)
    grad("Gamma log", E.Gamma, E.LOG, "pos", None, True, False)
    grad("Gamma identity", E.Gamma, E.Identity, "pos", None, True, True)
    grad("InvGauss log", E.InvGauss, E.LOG, "pos", None, True, False)
    grad("Poisson log", E.Poisson, E.LOG, None, [0, 3], False, False)
    grad("Poisson identity", E.Poisson, E.Identity, None, [0, 3], False, True)
    grad("Binomial logit", E.Binomial, E.Logit, None, [0, 1], False, False)
    out += scaledt(E, M, n)
    return out


def cst(I, k, y):
    """k log y with 0 log 0 = 0"""
    if k == 0:
        return 0
    if I.sym:
        from engine import sym
        return sym.const(k) * sym.const(y).log()
    return k * F.log(y)


def sp(M):
    return M.exp_fam.scp.sparse if M.mode == "sym" else __import__("scipy").sparse


def scaledt(E, M, n):
    def mk(min_df, own):
        def run(I):
            th = I.arr("t", (2, 1))
            fam = E.ScaledT(min_df=min_df, theta=th if own else None)
            kw = () if own else (th,)
            y, mu = I.arr("y", (n, 1)), I.arr("mu", (n, 1))
            return {"lp": fam.lp(y, mu, *kw), "llk": fam.llk(y, mu, *kw), "D": fam.D(y, mu, *kw), "dev": fam.deviance(y, mu, *kw),
                    "V": fam.V(mu, *kw), "dV": fam.dVy1(mu, *kw), "d1": fam.dDdmu(y, mu, *kw), "d2": fam.d2Ddmu(y, mu, *kw),
                    "Ed2": fam.Ed2Ddmu(y, mu, *kw), "gt": fam.gradientLTheta(y, mu, th), "ht": fam.hessianLTheta(y, mu, th),
                    "y": y, "mu": mu, "th": th}

        def goals(I, o):
            phi, nu = F.exp(o["th"][0, 0]), F.exp(o["th"][1, 0]) + min_df
            g = []
            t, td = 0, 0
            for i in range(n):
                z = (o["y"][i, 0] - o["mu"][i, 0]) / phi
                D = (nu + 1) * F.log(1 + z * z / nu)
                lp = F.gammaln((nu + 1) / 2) - F.gammaln(nu / 2) - F.log(nu * PIV(I)) / 2 - F.log(phi) - D / 2
                t, td = t + lp, td + D
                m = "mu_%d_0" % i
                g += [Goal("lp[%d]" % i, o["lp"][i, 0], "==", lp), Goal("D[%d]" % i, o["D"][i, 0], "==", D),
                      Goal("dD[%d]" % i, o["d1"][i, 0], "==", I.D(lambda x: x["D"][i, 0], m)),
                      Goal("d2D[%d]" % i, o["d2"][i, 0], "==", I.D(lambda x: x["d1"][i, 0], m)),
                      Goal("V[%d]" % i, o["V"][i, 0], "==", phi * phi * nu / (nu - 2)),
                      Goal("dV[%d]" % i, o["dV"][i, 0], "==", 0),
                      Goal("E d2D[%d]" % i, o["Ed2"][i, 0], "==", 2 * (nu + 1) / (phi * phi * (nu + 3)))]
            g += [Goal("llk", scal(o["llk"]), "==", t), Goal("deviance", scal(o["dev"]), "==", td)]
            for k in range(2):
                g.append(Goal("dllk/dtheta%d" % k, o["gt"].reshape(-1)[k], "==", I.D(lambda x: scal(x["llk"]), "t_%d_0" % k)))
                for l in range(2):
                    g.append(Goal("d2llk/dtheta%d%d" % (k, l), o["ht"][k, l], "==",
                                  I.D(lambda x: x["gt"].reshape(-1)[k], "t_%d_0" % l)))
            return g

        return Case("ScaledT min_df=%d%s" % (min_df, " own theta" if own else ""), run, goals,
                    bounds="%d observations, all y, mu, theta" % n)

    return [mk(3, False), mk(2, False), mk(3, True)]
