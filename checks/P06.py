"""Multivariate Gaussian family: likelihood, gradient, Hessian, residuals, predictions."""
import numpy as np
from engine.case import Case, Goal, eqs, F, scal, dense
from checks.P02 import sp

EXTS = []
ASSUMPTIONS = ["the log-likelihood is the multivariate normal one up to its additive constant n*m/2*log(2*pi), as in the cited reference"]


def cases(tier, M):
    E = M.exp_fam
    out = []

    def case(name, m, n, ps, links, shared=(), what=("llk", "g", "H")):
        nth = m * (m + 1) // 2

        def build(I):
            Xs, Xf = [], []
            for k in range(m):
                if k in shared:
                    Xs.append(None)
                    Xf.append(Xf[0])
                else:
                    X = I.arr("X%d" % k, (n, ps[k]))
                    Xf.append(X)
                    Xs.append(sp(M).csc_array(X))
            nc = sum(ps) + nth
            coef = I.arr("c", (nc, 1))
            ys = [I.arr("y%d" % k, (n, 1)) for k in range(m)]
            fam = E.MultiGauss(m, [l() for l in links])
            for k, l in enumerate(links):
                if l is E.LOG:
                    pass
            split = [int(v) for v in np.cumsum(ps)]
            return fam, coef, split, ys, Xs, Xf

        def run(I):
            fam, coef, split, ys, Xs, Xf = build(I)
            c0 = coef.copy()
            o = {"coef": c0, "ys": ys, "Xf": Xf, "c1": coef, "extra": float(fam.extra_coef)}
            o["llk"] = fam.llk(coef, split, ys, Xs)
            if "g" in what:
                o["g"] = fam.gradient(coef, split, ys, Xs)
            if "H" in what:
                o["H"] = fam.hessian(coef, split, ys, Xs)
            if "res" in what:
                o["res"] = fam.get_resid(coef, split, ys, Xs)
                o["resm"] = [fam.get_resid(coef, split, ys, Xs, mean=k) for k in range(m)]
                o["pred"] = fam.predict(coef, split, Xs)
                o["R"] = fam.getR(o["pred"][1])
            return o

        def goals(I, o):
            c, Xf, ys = o["coef"][:, 0], o["Xf"], o["ys"]
            g = [Goal("extra coef", o["extra"], "==", float(nth))] + eqs("coef kept", o["c1"], o["coef"])
            off = 0
            mu = []
            for k in range(m):
                row = []
                for i in range(n):
                    e = Xf[k][i, 0] * c[off]
                    for a in range(1, ps[k]):
                        e = e + Xf[k][i, a] * c[off + a]
                    row.append(F.exp(e) if links[k] is E.LOG else e)
                mu.append(row)
                off += ps[k]
            th = c[off:]
            R = [[0] * m for _ in range(m)]
            t = 0
            ld = 0
            for a in range(m):
                for b in range(a, m):
                    R[a][b] = F.exp(th[t]) if a == b else th[t]
                    if a == b:
                        ld = ld + th[t]
                    t += 1
            res = [[sum((R[a][b] * (ys[b][i, 0] - mu[b][i]) for b in range(a + 1, m)), R[a][a] * (ys[a][i, 0] - mu[a][i]))
                    for a in range(m)] for i in range(n)]
            q = sum((x * x for r in res for x in r), 0)
            g.append(Goal("llk", scal(o["llk"]), "==", -q / 2 + n * ld))
            nc = len(c)
            if "g" in what:
                G = np.asarray(o["g"]).reshape(-1)
                g.append(Goal("gradient size", float(G.size), "==", float(nc)))
                for k in range(nc):
                    g.append(Goal("gradient[%d]" % k, G[k], "==", I.D(lambda x: x["llk"], "c_%d_0" % k)))
            if "H" in what:
                H = dense(o["H"])
                for k in range(nc):
                    for l in range(nc):
                        g.append(Goal("hessian[%d,%d]" % (k, l), H[k, l], "==",
                                      I.D(lambda x: np.asarray(x["g"]).reshape(-1)[k], "c_%d_0" % l)))
            if "res" in what:
                g += eqs("residuals", o["res"], np.array(res, dtype=object if I.sym else float))
                for k in range(m):
                    g += eqs("residuals mean %d" % k, o["resm"][k], np.array([[r[k]] for r in res], dtype=object if I.sym else float))
                g += eqs("predicted means", o["pred"][0], np.array(mu, dtype=object if I.sym else float).T)
                g += eqs("theta", np.asarray(o["pred"][1]).reshape(-1), th)
                g.append(Goal("log det R", scal(o["R"][1]), "==", ld))
                for a in range(m):
                    for b in range(m):
                        g.append(Goal("R[%d,%d]" % (a, b), o["R"][0][a, b], "==", R[a][b]))
            return g

        out.append(Case(name, run, goals, bounds="%d means, %d observations, coefficients per mean %s; all X, y, coefficients" % (m, n, ps), timeout_ms=60000))

    Id, LOG = E.Identity, E.LOG
    case("m1 identity", 1, 2, [2], [Id], what=("llk", "g", "H", "res"))
    case("m2 identity", 2, 2, [2, 1], [Id, Id], what=("llk", "g", "H", "res"))
    case("m2 shared matrix", 2, 2, [2, 2], [Id, Id], shared=(1,), what=("llk", "g", "H", "res"))
    case("m3 identity", 3, 1, [1, 1, 1], [Id, Id, Id], what=("llk", "g", "H", "res"))
    case("m2 log,identity", 2, 2, [1, 2], [LOG, Id], what=("llk", "g", "H", "res"))
    case("m2 log shared", 2, 1, [2, 2], [LOG, LOG], shared=(1,), what=("llk", "g", "H"))
    if tier != "quick":
        case("m3 mixed", 3, 2, [2, 1, 2], [Id, LOG, Id], what=("llk", "g", "H", "res"))
        case("m4 identity", 4, 2, [1, 2, 1, 1], [Id] * 4, what=("llk", "g", "H", "res"))
        case("m3 shared", 3, 3, [2, 2, 2], [Id] * 3, shared=(1, 2), what=("llk", "g", "H", "res"))
    return out
