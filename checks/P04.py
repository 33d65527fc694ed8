"""Coefficient-level derivatives: chain rule to linear predictors and coefficients, working responses
and weights, generic wrapper families."""
import itertools
import numpy as np
from engine.case import Case, Goal, eqs, F, scal, dense
from checks.P02 import sp

EXTS = []
ASSUMPTIONS = ["the chain rule is decided for an arbitrary three-parameter log density given by a polynomial with symbolic coefficients containing all pure and mixed second-order terms",
               "Hessians of the Gaussian and Gamma location-scale families use expected second derivatives (P03), so for these only the gradient is compared"]


def mkfam(E, links, y, npar):
    """a location-scale family whose log density is a general polynomial of its parameters"""
    O = E.DerivOrder
    pairs = [(a, b) for a in range(npar) for b in range(a + 1, npar)]

    class Poly(E.GAMLSSFamily):
        def __init__(self):
            super().__init__(npar, links)

        def lp(self, y, *m):
            t = 0
            for a in range(npar):
                t = t + y * m[a] * (a + 2) + m[a] * m[a] * (a - 2) + y * m[a] * m[a] * m[a] * (1 + a)
            for q, (a, b) in enumerate(pairs):
                t = t + y * m[a] * m[b] * (q + 3) + m[a] * m[a] * m[b] * (2 - q) + m[a] * m[b] * m[b]
            return t

        def llk(self, y, *m):
            return np.sum(self.lp(y, *m))

        def lcp(self, y, *m):
            return None

        def rvs(self, *m, size=1, seed=0):
            return None

        def get_resid(self, y, *m):
            return None

        def dpars(self, y, *m, index, order):
            k = index
            if order == O.d1:
                t = y * (k + 2) + 2 * m[k] * (k - 2) + 3 * y * m[k] * m[k] * (1 + k)
                for q, (a, b) in enumerate(pairs):
                    if a == k:
                        t = t + y * m[b] * (q + 3) + 2 * m[a] * m[b] * (2 - q) + m[b] * m[b]
                    if b == k:
                        t = t + y * m[a] * (q + 3) + m[a] * m[a] * (2 - q) + 2 * m[a] * m[b]
                return t
            if order == O.d2:
                t = 2 * (k - 2) + 6 * y * m[k] * (1 + k)
                for q, (a, b) in enumerate(pairs):
                    if a == k:
                        t = t + 2 * m[b] * (2 - q)
                    if b == k:
                        t = t + 2 * m[a]
                return t
            a, b = pairs[k]
            return y * (k + 3) + 2 * m[a] * (2 - k) + 2 * m[b]

    return Poly()


def cases(tier, M):
    E = M.exp_fam
    G = M.gamm_solvers
    out = []

    def chain(name, mk, n, ps, pattern, zero_last=False):
        npar = len(ps)
        """mu -> eta -> beta; pattern of structurally zero entries"""
        def run(I):
            links = mk()
            y = I.arr("y", (n, 1))
            fam = mkfam(E, links, y, npar)
            Xs, Xd, bs, etas = [], [], [], []
            for k in range(npar):
                X = I.arr("X%d" % k, (n, ps[k]))
                for (kk, i, j) in pattern:
                    if kk == k:
                        X[i, j] = I.const(np.zeros(1))[0]
                b = I.arr("b%d" % k, (ps[k], 1))
                Xd.append(X)
                Xs.append(sp(M).csc_array(X))
                bs.append(b)
                etas.append(X @ b)
            mus = [links[k].fi(etas[k]) for k in range(npar)]
            keep = [m.copy() for m in mus]
            d1, d2, d2m = G.deriv_transform_mu_eta(y, mus, fam)
            g, H = G.deriv_transform_eta_beta(d1, d2, d2m, Xs)
            g2, none = G.deriv_transform_eta_beta(d1, d2, d2m, Xs, only_grad=True)
            W = M.utils.GAMLSSGSMMFamily(npar, fam)
            coef = np.concatenate(bs, axis=0)
            split = [int(v) for v in np.cumsum(ps)][:-1]
            return {"llk": fam.llk(y, *mus), "g": g, "H": H, "g2": g2, "none": none, "mus": mus, "keep": keep,
                    "wl": W.llk(coef, split, [y], Xs), "wg": W.gradient(coef, split, [y], Xs), "wH": W.hessian(coef, split, [y], Xs)}

        def goals(I, o):
            nc = sum(ps)
            names = ["b%d_%d_0" % (k, j) for k in range(npar) for j in range(ps[k])]
            g = [Goal("only_grad returns no Hessian", 1.0 if o["none"] is None else 0.0, "==", 1.0),
                 Goal("wrapper llk", scal(o["wl"]), "==", o["llk"])]
            for k in range(npar):
                g += eqs("means kept %d" % k, o["mus"][k], o["keep"][k])
            Gr = np.asarray(o["g"]).reshape(-1)
            H = dense(o["H"])
            if H.shape != (nc, nc):
                return g + [Goal("Hessian shape", float(H.shape[0]), "==", float(nc)), Goal("Hessian cols", float(H.shape[1]), "==", float(nc))]
            g += eqs("wrapper gradient", np.asarray(o["wg"]).reshape(-1), Gr) + eqs("only_grad", np.asarray(o["g2"]).reshape(-1), Gr)
            g += eqs("wrapper Hessian", dense(o["wH"]), H)
            for a in range(nc):
                g.append(Goal("gradient[%d]" % a, Gr[a], "==", I.D(lambda x: x["llk"], names[a])))
                for b in range(nc):
                    g.append(Goal("Hessian[%d,%d]" % (a, b), H[a, b], "==", I.D(lambda x: np.asarray(x["g"]).reshape(-1)[a], names[b])))
            return g

        out.append(Case("chain " + name, run, goals, bounds="%d parameters, %d observations, %s coefficients, zeros at %s; all y, X, coefficients" % (npar, n, ps, pattern)))

    Id, LOG, LOGb, Logit = E.Identity, E.LOG, E.LOGb, E.Logit
    chain("1 par log", lambda: [LOG()], 2, [2], [])
    chain("2 par identity,log", lambda: [Id(), LOG()], 2, [2, 1], [])
    chain("2 par log,logit", lambda: [LOG(), Logit()], 1, [2, 2], [])
    chain("2 par logb,log", lambda: [LOGb(-0.25), LOG()], 1, [1, 2], [])
    chain("3 par identity,log,identity", lambda: [Id(), LOG(), Id()], 1, [1, 2, 1], [])
    chain("3 par log,identity,logb", lambda: [LOG(), Id(), LOGb(-0.5)], 1, [1, 1, 1], [])
    chain("sparse", lambda: [Id(), LOG()], 2, [3, 2], [(0, 0, 0), (0, 1, 1), (1, 0, 1), (0, 0, 2)])
    chain("zero first column", lambda: [Id(), LOG()], 2, [2, 2], [(0, 0, 0), (0, 1, 0)])
    chain("zero middle columns", lambda: [Id(), LOG()], 2, [2, 2], [(0, 0, 1), (0, 1, 1), (1, 0, 0), (1, 1, 0)])
    chain("zero last column", lambda: [Id(), LOG()], 2, [2, 2], [(1, 0, 1), (1, 1, 1)])
    if tier != "quick":
        chain("4 par", lambda: [Id(), LOG(), Id(), LOG()], 2, [1, 2, 1, 2], [])
        chain("3 par deep", lambda: [LOG(), Id(), LOG()], 3, [2, 2, 2], [(0, 0, 1), (2, 1, 0)])

    def pirls(name, mk, ykind, ys, mkind, twopar):
        """Fisher and Newton working responses and weights"""
        n = 2

        def run(I):
            f = mk(I)
            eta = I.arr("e", (n, 1))
            mu = f.link.fi(eta)
            if mkind == "pos":
                for v in mu[:, 0]:
                    I.assume(v > 0)
            y = I.arr("y", (n, 1), ykind) if ys is None else I.const(np.array(ys, dtype=float).reshape(-1, 1))
            keep = [y.copy(), mu.copy(), eta.copy()]
            z, w, inv = G.PIRLS_pdat_weights(y, mu, eta, f)
            o = {"z": z, "w": w, "keep": keep, "after": [y, mu, eta]}
            if not isinstance(f, E.ExtendedFamily):
                o["dev"] = f.D(y, mu)
                o["lp"] = f.lp(y, mu)
                o["V"] = f.V(mu)
            else:
                o["lp"] = -f.D(y, mu) / 2
            zn, wn, invn = G.PIRLS_newton_weights(y, mu, eta, f)
            o["zn"], o["wn"] = zn, wn
            o["bad"] = float(np.sum(inv) + np.sum(invn))
            o["ext"] = isinstance(f, E.ExtendedFamily)
            if o["ext"]:
                o["Ed2"], o["d1"], o["dy1"], o["dy2"] = f.Ed2Ddmu(y, mu), f.dDdmu(y, mu), f.link.dy1(mu), f.link.dy2(mu)
            else:
                o["dy1"] = f.link.dy1(mu)
            # score with respect to the linear predictor
            return o

        def goals(I, o):
            g = [Goal("all observations kept", o["bad"], "==", 0.0)]
            for k, nm in enumerate(("y", "mu", "eta")):
                g += eqs("%s kept" % nm, o["after"][k], o["keep"][k])
            for i in range(n):
                e = o["keep"][2][i, 0]
                v = "e_%d_0" % i
                s1 = I.D(lambda x: x["lp"][i, 0], v)
                g.append(Goal("Fisher score[%d]" % i, o["w"][i, 0] * (o["z"][i, 0] - e), "==", s1))
                if not o["ext"]:
                    # variance of the score under the model: V(mu)/(g'(mu) V(mu))^2
                    g.append(Goal("Fisher weight[%d]" % i, o["w"][i, 0] * o["dy1"][i, 0] * o["dy1"][i, 0] * o["V"][i, 0], "==", 1))
                    g.append(Goal("Fisher weight>0[%d]" % i, o["w"][i, 0], ">", 0))
                else:
                    g.append(Goal("Fisher weight[%d]" % i, 2 * o["w"][i, 0], "==",
                                  o["Ed2"][i, 0] / (o["dy1"][i, 0] ** 2) - o["d1"][i, 0] * o["dy2"][i, 0] / (o["dy1"][i, 0] ** 3)))
                g.append(Goal("Newton weight[%d]" % i, o["wn"][i, 0], "==", -I.D2(lambda x: x["lp"][i, 0], v, v)))
                if not (I.sym and getattr(o["wn"][i, 0], "is_const", False) and o["wn"][i, 0].val == 0):
                    g.append(Goal("Newton score[%d]" % i, o["wn"][i, 0] * (o["zn"][i, 0] - e), "==", s1))
            return g

        out.append(Case("PIRLS " + name, run, goals, bounds="2 observations, all responses and linear predictors", fd_tol=1e-3))

    pirls("Gaussian identity", lambda I: E.Gaussian(), "real", None, "real", True)
    pirls("Gaussian log", lambda I: E.Gaussian(LOG()), "real", None, "real", True)
    pirls("Gamma log", lambda I: E.Gamma(), "pos", None, "pos", True)
    pirls("Gamma identity", lambda I: E.Gamma(Id()), "pos", None, "pos", True)
    pirls("InvGauss log", lambda I: E.InvGauss(), "pos", None, "pos", True)
    pirls("Poisson log", lambda I: E.Poisson(), None, [0, 3], "pos", False)
    pirls("Poisson identity", lambda I: E.Poisson(Id()), None, [1, 3], "pos", False)
    pirls("Binomial logit", lambda I: E.Binomial(), None, [0, 1], "unit", False)
    pirls("ScaledT identity", lambda I: E.ScaledT(theta=I.arr("t", (2, 1))), "real", None, "real", False)
    pirls("ScaledT log", lambda I: E.ScaledT(LOG(), theta=I.arr("t", (2, 1))), "real", None, "real", False)

    def wrap1(name, mk, ykind, ys, nextra, poscond=False):
        """GAMLSSGSMMFamily around an exponential family: coefficients, then log(scale) or theta"""
        n, p = 2, 2

        def run(I):
            f = mk()
            X = I.arr("X", (n, p))
            c = I.arr("c", (p + nextra, 1))
            y = I.arr("y", (n, 1), ykind) if ys is None else I.const(np.array(ys, dtype=float).reshape(-1, 1))
            if poscond:
                for v in (X @ c[:p])[:, 0]:
                    I.assume(v > 0)
            W = M.utils.GAMLSSGSMMFamily(1, f)
            Xs = [sp(M).csc_array(X)]
            keep = c.copy()
            o = {"ex": float(W.extra_coef or 0), "l": W.llk(c, [], [y], Xs), "g": W.gradient(c, [], [y], Xs), "keep": keep, "c": c}
            mu = f.link.fi(X @ c[:p])
            if isinstance(f, E.ExtendedFamily):
                o["fl"] = f.llk(y, mu, theta=c[p:])
            elif nextra:
                o["fl"] = f.llk(y, mu, F.exp(c[p, 0]))
            else:
                o["fl"] = f.llk(y, mu)
            return o

        def goals(I, o):
            g = [Goal("extra coef", o["ex"], "==", float(nextra)), Goal("llk", scal(o["l"]), "==", scal(o["fl"])),
                 Goal("gradient size", float(np.size(o["g"])), "==", float(p + nextra))] + eqs("coef kept", o["c"], o["keep"])
            Gr = np.asarray(o["g"]).reshape(-1)
            return g + [Goal("gradient[%d]" % k, Gr[k], "==", I.D(lambda x: x["l"], "c_%d_0" % k), tol=1e-4) for k in range(p + nextra)]

        out.append(Case("wrapper " + name, run, goals, bounds="2 observations, 2 coefficients", fd_tol=1e-3))

    wrap1("Gaussian identity", lambda: E.Gaussian(), "real", None, 1)
    wrap1("Gaussian log", lambda: E.Gaussian(LOG()), "real", None, 1)
    wrap1("Gamma log", lambda: E.Gamma(), "pos", None, 1)
    wrap1("InvGauss log", lambda: E.InvGauss(), "pos", None, 1)
    wrap1("Poisson log", lambda: E.Poisson(), None, [0, 3], 0)
    wrap1("Binomial logit", lambda: E.Binomial(), None, [0, 1], 0)
    wrap1("ScaledT identity", lambda: E.ScaledT(theta=np.array([[0.5], [0.25]])), "real", None, 2)
    wrap1("ScaledT log", lambda: E.ScaledT(LOG(), theta=np.array([[0.5], [0.25]])), "real", None, 2)

    def gamlss(name, mk, ykind, ys, mut, exactH):
        n, npar = 2, None

        def run(I):
            f = mk()
            npar = f.n_par
            nn = n if ys is None else len(ys)
            y = I.arr("y", (nn, 1), ykind) if ys is None else I.const(np.array(ys, dtype=float).reshape(-1, 1))
            Xd = [I.arr("X%d" % k, (nn, 1 + k % 2)) for k in range(npar)]
            c = I.arr("c", (sum(X.shape[1] for X in Xd), 1))
            split = [int(v) for v in np.cumsum([X.shape[1] for X in Xd])][:-1]
            Xs = [sp(M).csc_array(X) for X in Xd]
            W = M.utils.GAMLSSGSMMFamily(npar, f)
            cs = np.split(c, split)
            mus = [f.links[k].fi(Xd[k] @ cs[k]) for k in range(npar)]
            return {"l": W.llk(c, split, [y], Xs), "g": W.gradient(c, split, [y], Xs), "H": W.hessian(c, split, [y], Xs),
                    "fl": f.llk(y, *mus), "n": len(c)}

        def goals(I, o):
            g = [Goal("llk", scal(o["l"]), "==", scal(o["fl"]))]
            Gr = np.asarray(o["g"]).reshape(-1)
            H = dense(o["H"])
            for a in range(o["n"]):
                g.append(Goal("gradient[%d]" % a, Gr[a], "==", I.D(lambda x: x["l"], "c_%d_0" % a)))
                for b in range(o["n"]):
                    if exactH:
                        g.append(Goal("Hessian[%d,%d]" % (a, b), H[a, b], "==", I.D(lambda x: np.asarray(x["g"]).reshape(-1)[a], "c_%d_0" % b)))
                    else:
                        g.append(Goal("Hessian symmetric[%d,%d]" % (a, b), H[a, b], "==", H[b, a]))
            return g

        out.append(Case("gamlss " + name, run, goals, bounds="2-3 observations"))

    gamlss("GAUMLSS", lambda: E.GAUMLSS([Id(), LOG()]), "real", None, None, False)
    gamlss("GAUMLSS logb", lambda: E.GAUMLSS([Id(), LOGb(-0.0001)]), "real", None, None, False)
    gamlss("GAMMALS", lambda: E.GAMMALS([LOG(), LOG()]), "pos", None, None, False)
    gamlss("MULNOMLSS", lambda: E.MULNOMLSS(2), None, [0, 1, 2], None, True)

    def jh(jcols, nc):
        """assembling a symmetric Hessian from single columns"""
        def run(I):
            A = I.arr("A", (nc, nc))
            A = A + A.T

            class Q(E.GSMMFamily):
                def llk(self, *a):
                    return 0.0

                def get_resid(self, *a):
                    return None

                def jcolhessian(self, j, *a):
                    return A[:, [int(j)]].copy()

            f = Q(1, [Id()])
            c = I.arr("c", (nc, 1))
            o = {"A": A, "H": f.jhessian(np.array(jcols), c, [], [None], [None])}
            if len(jcols) == nc:
                o["F"] = f.hessian(c, [], [None], [None])
            return o

        def goals(I, o):
            z = I.const(np.zeros(1))[0]
            B = o["A"].copy()
            for a in range(nc):
                for b in range(nc):
                    if a not in jcols and b not in jcols:
                        B[a, b] = z
            g = eqs("columns %s" % jcols, o["H"], B)
            if "F" in o:
                g += eqs("full", o["F"], o["A"])
            return g

        out.append(Case("jhessian %s of %d" % (jcols, nc), run, goals, bounds="%d coefficients" % nc))

    for nc in (3, 4):
        for r in range(1, nc + 1):
            for js in itertools.combinations(range(nc), r):
                jh(list(js), nc)
    jh([2, 0, 1], 3)
    jh([3, 1], 4)

    def fdh():
        """base-class gradient and Hessian columns are the derivatives of the reported llk"""
        def run(I):
            class Q(E.GSMMFamily):
                def llk(self, c, split, ys, Xs):
                    c = c.flatten()
                    return c[0] * c[0] * c[1] + c[2] * c[1] * ys[0][0, 0] - 2 * c[2] * c[2]

                def get_resid(self, *a):
                    return None

            f = Q(1, [Id()])
            c, y = I.arr("c", (3, 1)), I.arr("y", (1, 1))
            return {"g": f.gradient(c, [], [y], [None]), "H": [f.jcolhessian(j, c, [], [y], [None]) for j in range(3)], "c": c, "y": y}

        def goals(I, o):
            c, y = o["c"][:, 0], o["y"][0, 0]
            g = eqs("gradient", np.asarray(o["g"]).reshape(-1), np.array([2 * c[0] * c[1], c[0] * c[0] + c[2] * y, c[1] * y - 4 * c[2]]), tol=1e-4)
            zero = c[0] * 0
            Hx = [[2 * c[1], 2 * c[0], zero], [2 * c[0], zero, zero + y], [zero, zero + y, zero - 4]]
            for j in range(3):
                g += eqs("Hessian column %d" % j, np.asarray(o["H"][j]).reshape(-1), np.array(Hx[j]), tol=1e-2)
            return g

        out.append(Case("finite differences", run, goals, bounds="3 coefficients, one polynomial log-likelihood"))

    fdh()
    return out
