"""Fitting additive models: estimates, uncertainty and summaries of a fit at given smoothing parameters."""
import numpy as np
from engine.case import Case, Goal, eqs, dense, F
from checks.P02 import sp
from checks.P14 import rows_of, NAN
from checks.P15 import mm
from checks.frame import frame

EXTS = ["eigen_solvers"]
ASSUMPTIONS = ["the pseudo-inverse of a summed penalty (svd) is computed numerically when its entries are constants"]


def asobj(A):
    return np.asarray(dense(A), dtype=object)


def cases(tier, M):
    out = []
    T, FO, CT, EF = M.terms, M.formula, M.custom_types, M.exp_fam
    deep = tier == "thorough"
    keepm = {}

    def case(name, mk, data, y_nan=(), method="Chol", rho=False, off=None, series=None, lam="sym", disc=False, yint=None, full=True, **kw):
        fitkw = kw.pop("fitkw", {})

        def run(I):
            cols = rows_of(I, data)
            n = len(next(iter(cols.values())))
            y = [NAN if i in y_nan else I.real("y_%d" % i) for i in range(n)] if yint is None else list(yint)
            terms = mk()
            form = FO.Formula(FO.lhs("y"), terms, frame(I, y=y, **cols), find_nested=False, print_warn=False, series_id=series)
            m = M.models.GAMM(form, EF.Gaussian())
            pens = M.penalties.combine_shared_penalties(FO.build_penalties(form))
            for i, p in enumerate(pens):
                p.lam = I.pos("lam_%d" % i) if lam == "any" else I.pos("lam_%d" % i, hi=1e5) if lam == "sym" else lam[i]
                p.frozen = True
            m.overall_penalties = pens
            o = {"y": y, "cols": cols}
            k = dict(progress_bar=False, check_cond=0, restart=True, method=method)
            k.update(fitkw)
            if rho:
                k["rho"] = I.real("rho", lo=-1, hi=1)
                o["rho"] = k["rho"]
            if off == "scalar":
                k["offset"] = I.real("off")
                o["off"] = [k["offset"]] * n
            elif off == "vec":
                a = I.arr("off", (n, 1))
                k["offset"] = a
                o["off"] = [a[i, 0] for i in range(n)]
            if disc:
                form.discretize = {"x": "y"}
            m.fit(**k)
            o["X"] = m.get_mmat()
            for a in ("coef", "scale", "edf", "penalty", "lvi", "hessian"):
                o[a] = getattr(m, a)
            o["term_edf"] = m.term_edf if m.term_edf is not None else []
            o["preds"], o["mus"], o["res"] = m.preds[0], m.mus[0], m.res
            o["S"] = [p.S_J_emb for p in m.overall_penalties]
            o["lam"] = [p.lam for p in m.overall_penalties]
            o["st"] = [[float(p.start_index), float(p.S_J.shape[0] * p.rep_sj)] for p in m.overall_penalties]
            o["llk"] = m.get_llk(False)
            if rho:
                o["rar"] = m.get_resid("ar1")
            o["dropped"] = [float(x) for x in (m.info.dropped if m.info.dropped is not None else [])]
            return o

        def goals(I, o):
            rows = [i for i in range(len(o["y"])) if i not in y_nan]
            X = asobj(o["X"])
            n, p = X.shape
            y = np.array([[o["y"][i]] for i in rows], dtype=object)
            z = y - np.array([[o["off"][i]] for i in rows], dtype=object) if off else y
            S_ = np.zeros((p, p), dtype=object)
            for l, s in zip(o["lam"], o["S"]):
                S_ = S_ + l * asobj(s)
            if rho:
                r = o["rho"]
                # precision of the ar1 process (restarted per series), up to scale
                sid = o["cols"][series] if series else [0] * len(o["y"])
                first = [k == 0 or sid[rows[k]] != sid[rows[k - 1]] for k in range(n)]
                W = np.zeros((n, n), dtype=object)
                for k in range(n):
                    if first[k]:
                        W[k, k] = W[k, k] + 1
                    else:
                        d = 1 - r * r
                        W[k, k] = W[k, k] + 1 / d
                        W[k - 1, k - 1] = W[k - 1, k - 1] + r * r / d
                        W[k, k - 1] = W[k, k - 1] - r / d
                        W[k - 1, k] = W[k - 1, k] - r / d
            else:
                W = np.eye(n).astype(int).astype(object)
            XW = mm(X.T, W)
            XX = mm(XW, X)
            A = XX + S_
            b = asobj(o["coef"]).reshape(-1, 1)
            g = eqs("normal equations", mm(A, b), mm(XW, z))
            Li = asobj(o["lvi"])
            V = mm(Li.T, Li)
            if full:
                g += eqs("V (X'X+S)", mm(V, A), np.eye(p))
            else:
                # a dropped coefficient is zero and carries no uncertainty; the rest is a complete fit
                dr = [int(x) for x in o["dropped"]]
                kp = [j for j in range(p) if j not in dr]
                g += [Goal("coefficients dropped", float(len(dr)), "==", 1.0)]
                g += [Goal("dropped coefficient %d" % j, b[j, 0], "==", 0) for j in dr]
                g += [Goal("no covariance of the dropped coefficient", V[i, j], "==", 0) for i in range(p) for j in dr]
                g += eqs("V (X'X+S) of the kept", mm(V[np.ix_(kp, kp)], A[np.ix_(kp, kp)]), np.eye(len(kp)))
            eta = mm(X, b)
            fit = eta + (y - z)
            g += eqs("linear predictor", o["preds"], fit) + eqs("mean", o["mus"], fit)
            rs = y - fit
            g += eqs("residuals", o["res"], rs)
            F_ = mm(V, XX)
            tr = sum(F_[i, i] for i in range(p))
            g.append(Goal("effective degrees of freedom", o["edf"], "==", tr))
            te = np.array(o["term_edf"], dtype=object)
            at = []
            for s, ln in o["st"]:
                if s not in [a for a, _ in at]:
                    at.append((s, ln))
            g.append(Goal("terms", float(len(te)), "==", float(len(at))))
            if len(te) == len(at):
                for k, (s, ln) in enumerate(at):
                    g.append(Goal("effective degrees of freedom of term %d" % k, te[k], "==", sum(F_[i, i] for i in range(int(s), int(s + ln)))))
            rss = mm(mm(rs.T, W), rs)[0, 0]
            # the degrees of freedom were just shown to be tr(F)
            g.append(Goal("scale", o["scale"] * (n - o["edf"]), "==", rss))
            if full:
                g += eqs("hessian", asobj(o["hessian"]) * o["scale"], -XX)
            if rho:
                ra = asobj(o["rar"]).reshape(-1)
                for k in range(n):
                    # uncorrelated: the innovation of the process, on its own scale
                    if first[k]:
                        g.append(Goal("ar1 residual %d" % k, ra[k], "==", rs[k, 0]))
                    else:
                        g.append(Goal("ar1 residual %d" % k, ra[k] * F.sqrt(1 - r * r), "==", rs[k, 0] - r * rs[k - 1, 0]))
            lr = 0
            if rho:
                lr = -sum(1 for a in first if not a) * F.log(1 - o["rho"] * o["rho"]) / 2
            if I.sym:
                from engine import sym
                pi = sym.PI
            else:
                pi = np.pi
            # with the scale just shown, RSS/scale is n - edf
            g.append(Goal("log-likelihood", o["llk"], "==", -F.log(2 * pi * o["scale"]) * n / 2 - (n - o["edf"]) / 2 + lr))
            g.append(Goal("penalty", np.asarray(o["penalty"]).reshape(-1)[0] if len(o["S"]) else o["penalty"], "==", mm(mm(b.T, S_), b)[0, 0]))
            return g

        out.append(Case(name, run, goals, kw.pop("bounds", "every response, covariate marked unknown and smoothing parameter"), max_paths=16, generic=True, timeout_ms=30000, **kw))

    case("intercept", lambda: [T.i()], {"x": [0, 1, 2]})
    case("line", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4]})
    case("line unknown x", lambda: [T.i(), T.l(["x"])], {"x": [0, "u", 1]})
    case("slope only", lambda: [T.l(["x"])], {"x": [-1, "u", "u", 1]})
    case("two lines", lambda: [T.i(), T.l(["x"]), T.l(["v"])], {"x": [0, 1, 2, 4, 3], "v": [1, 0, 1, 0, -1]})
    case("factor", lambda: [T.i(), T.l(["g"])], {"g": ["a", "b", "c", "b", "a"]})
    case("missing responses", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4, 3]}, y_nan=(0, 3))
    case("random intercept", lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a", "b"]}, lam="any")
    case("random intercept missing", lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a", "b", "b"]}, y_nan=(1,))
    case("random slope", lambda: [T.i(), T.rs(["x"], by="g")], {"g": ["a", "b", "a", "b"], "x": [1, 2, 3, -1]})
    case("offset", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4]}, off="scalar")
    case("offset per row", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4, 3]}, off="vec", y_nan=(1,))
    case("offset random", lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a", "b"]}, off="vec")
    case("ar1", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4]}, rho=True)
    case("ar1 series", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4, 3], "s": [0, 0, 0, 1, 1]}, rho=True, series="s")
    case("ar1 series missing", lambda: [T.i()], {"x": [0, 1, 2, 4, 3, 5], "s": [0, 0, 0, 1, 1, 1]}, rho=True, series="s", y_nan=(3,))
    case("ar1 offset", lambda: [T.i()], {"x": [0, 1, 2]}, rho=True, off="vec")
    D = CT.ConstType.DROP
    X5 = [0, 0.25, 0.5, 0.75, 1]
    case("smooth", lambda: [T.i(), T.f(["x"], nk=2, constraint=D, basis_kwargs={"deg": 1})], {"x": X5})
    case("smooth unconstrained", lambda: [T.f(["x"], nk=3, identifiable=False, basis_kwargs={"deg": 1})], {"x": X5})
    case("smooth null", lambda: [T.i(), T.f(["x"], nk=2, constraint=D, penalize_null=True, basis_kwargs={"deg": 1})], {"x": X5}, lam=[2.0, 0.25])
    case("smooth by factor id", lambda: [T.f(["x"], nk=2, by="g", id=1, identifiable=False, basis_kwargs={"deg": 1})], {"x": X5, "g": ["a", "b", "b", "a", "b"]})
    case("smooth by factor", lambda: [T.f(["x"], nk=2, by="g", identifiable=False, basis_kwargs={"deg": 1})], {"x": X5, "g": ["a", "b", "b", "a", "b"]})
    case("tensor", lambda: [T.f(["x", "w"], nk=[2, 2], te=True, identifiable=False, rp=0, scale_te=False, basis_kwargs={"deg": 1})], {"x": X5, "w": [0, 1, 0.5, 1, 0]}, lam=[2.0, 0.5])
    case("smooth and random", lambda: [T.f(["x"], nk=2, identifiable=False, basis_kwargs={"deg": 1}), T.ri("g")], {"x": X5, "g": ["a", "b", "b", "a", "b"]})
    case("qr random", lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a", "b"]}, method="QR", lam=[4.0])
    case("qr line", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4]}, method="QR")
    case("discretized", lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a", "b"]}, disc=True)
    case("integer responses offset", lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 2, 4]}, off="scalar", yint=[1, 3, 2, 7])
    case("integer responses offset per row", lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a"]}, off="vec", yint=[1, 3, 2])
    case("qr duplicate column", lambda: [T.i(), T.l(["x"]), T.l(["v"])], {"x": [0, 1, 2, 4], "v": [0, 2, 4, 8]}, method="QR", full=False)
    def links(fam):
        return {"gamma": lambda: EF.Gamma(), "poisson": lambda: EF.Poisson(), "binomial": lambda: EF.Binomial(), "gaussian log": lambda: EF.Gaussian(EF.LOG()),
                "invgauss": lambda: EF.InvGauss()}[fam]()

    def resid(fam, n):
        def run(I):
            y = [I.pos("y_%d" % i) for i in range(n)]
            form = FO.Formula(FO.lhs("y"), [T.i()], frame(I, y=y), find_nested=False, print_warn=False)
            f_ = links(fam) if fam != "gaussian" else EF.Gaussian()
            m = M.models.GAMM(form, f_)
            eta = I.arr("eta", (n, 1))
            m.preds, m.res = [eta], eta
            return {"y": y, "eta": eta, "r": m.get_resid("Deviance"), "D": f_.D(np.array(y).reshape(-1, 1), f_.link.fi(eta)), "mu": f_.link.fi(eta), "p": m.get_resid()}

        def goals(I, o):
            r, mu, D = [asobj(o[k]).reshape(-1) for k in ("r", "mu", "D")]
            g = eqs("Pearson residuals", o["p"], o["eta"])
            for i in range(n):
                d = o["y"][i] - mu[i]
                if bool(D[i] < 0):
                    continue  # deviances are nonnegative, up to rounding
                s_ = 1 if bool(d > 0) else -1 if bool(d < 0) else 0
                g.append(Goal("deviance residual %d" % i, r[i], "==", s_ * F.sqrt(D[i])))
            return g

        out.append(Case("deviance residuals %s" % fam, run, goals, "every response and linear predictor", max_paths=32, trans=True))

    resid("gaussian", 1)
    resid("gamma", 1)
    resid("poisson", 1)
    # ---- generalized models: one iteration -------------------------------------------------
    def wz(fam, mu):
        """derivative of the link and variance function"""
        return {"gamma": lambda: (1 / mu, mu * mu), "poisson": lambda: (1 / mu, mu), "binomial": lambda: (1 / (mu * (1 - mu)), mu * (1 - mu)),
                "gaussian log": lambda: (1 / mu, 1), "invgauss": lambda: (1 / mu, mu ** 3)}[fam]()

    def irls(fam, n, X0, pen, off, ar=False, bad=(), method="Chol", form=True):
        def run(I):
            G = M.gamm_solvers
            f_ = links(fam)
            C = sp(M).csc_array
            p = len(X0[0])
            X = I.const(np.array(X0, dtype=float))
            y = I.arr("y", (n, 1), "unit" if fam == "binomial" else "pos")
            mu = I.arr("mu", (n, 1), "unit" if fam == "binomial" else "pos")
            for b in bad:
                mu[b, 0] = NAN
            eta = f_.link.f(mu)
            o = {"y": y, "mu": mu, "eta": eta, "X": X}
            offset = I.arr("off", (n, 1)) if off else 0
            o["off"] = offset if off else np.zeros((n, 1))
            Lr = None
            if ar:
                r = I.real("rho", lo=-1, hi=1)
                o["rho"] = r
                d = F.sqrt(1 - r * r)
                L = np.zeros((n, n), dtype=object if I.sym else float)
                if I.sym:
                    L[:] = I.const(0.0)[()]
                for k in range(n):
                    L[k, k] = 1 / d if k else 1.0
                    if k:
                        L[k - 1, k] = -r / d
                L = L.view(type(X)) if I.sym else L
                Lr = sp(M).csr_array(L)
            pens = []
            for k, (at, ln) in enumerate(pen):
                t = CT.LambdaTerm(start_index=at, type=CT.PenType.IDENTITY)
                S0 = np.zeros((p, p))
                for j in range(at, at + ln):
                    S0[j, j] = 1.0
                t.S_J, t.S_J_emb, t.D_J_emb = C(I.const(np.eye(ln))), C(I.const(S0)), C(I.const(S0))
                t.rank, t.rep_sj, t.lam = ln, 1, I.pos("lam_%d" % k, hi=1e5)
                pens.append(t)
            if pens:
                S_emb, S_pinv, S_root, use = G.compute_S_emb_pinv_det(p, pens, "svd", method == "QR")
            else:
                S_emb, S_pinv, use = C((p, p)) if not I.sym else C(I.const(np.zeros((p, p)))), None, None
                S_root = S_emb if method == "QR" else None
            yb, Xb, z, Wr = G.update_PIRLS(y, y, mu, eta - offset, C(X), C(X), f_, Lr)
            r = G.update_coef_and_scale(y, yb, z, Wr, n, p, C(X), Xb, Lr, f_, S_emb, S_root, S_pinv, use, pens, 1, None, form, offset)
            o.update(zip(("neta", "nmu", "coef", "L", "Li", "lgdet", "bsb", "edf", "tedf", "Bs", "scale", "wres"), r))
            o["Li"] = o["Li"] if form else None
            o["lam"] = [t.lam for t in pens]
            for k in ("tedf", "Bs", "lgdet", "bsb"):
                o[k] = list(o[k]) if o[k] is not None else []
            o["dl"] = [G.step_fellner_schall_sparse(o["lgdet"][k], o["Bs"][k], o["bsb"][k], pens[k].lam, o["scale"]) for k in range(len(pens))]
            return o

        def goals(I, o):
            X = asobj(o["X"])
            p = X.shape[1]
            ok = [i for i in range(n) if i not in bad]
            y, mu, eta, of = [np.asarray(o[k], dtype=object).reshape(-1) for k in ("y", "mu", "eta", "off")]
            w, z = {}, {}
            for i in ok:
                d, v = wz(fam, mu[i])
                w[i] = 1 / (d * d * v)
                z[i] = eta[i] - of[i] + d * (y[i] - mu[i])
            m = len(ok)
            Xo = X[ok, :]
            R = np.zeros((m, m), dtype=object)  # correlation precision
            if ar:
                r, d = o["rho"], 1 - o["rho"] * o["rho"]
                for k in range(m):
                    if k == 0:
                        R[k, k] = R[k, k] + 1
                    else:
                        R[k, k] = R[k, k] + 1 / d
                        R[k - 1, k - 1] = R[k - 1, k - 1] + r * r / d
                        R[k, k - 1] = R[k, k - 1] - r / d
                        R[k - 1, k] = R[k - 1, k] - r / d
            else:
                for k in range(m):
                    R[k, k] = 1
            sw = [F.sqrt(w[i]) for i in ok]
            W = np.array([[sw[a] * R[a, b] * sw[b] if not isinstance(R[a, b], int) or R[a, b] != 0 else 0 for b in range(m)] for a in range(m)], dtype=object)
            if not ar:
                for k, i in enumerate(ok):
                    W[k, k] = w[i]
            XW = mm(Xo.T, W)
            XX = mm(XW, Xo)
            S_ = np.zeros((p, p), dtype=object)
            for k, (at, ln) in enumerate(pen):
                for j in range(at, at + ln):
                    S_[j, j] = S_[j, j] + o["lam"][k]
            A = XX + S_
            b = asobj(o["coef"]).reshape(-1, 1)
            zz = np.array([[z[i]] for i in ok], dtype=object)
            g = eqs("normal equations", mm(A, b), mm(XW, zz))
            L = asobj(o["L"])
            g += eqs("factor of the penalized hessian", mm(L, L.T), A)
            eta2 = mm(X, b) + of.reshape(-1, 1)
            g += eqs("linear predictor", o["neta"], eta2)
            nm = asobj(o["neta"]).reshape(-1)
            for i in range(n):
                m2 = F.exp(nm[i])
                g.append(Goal("mean[%d]" % i, asobj(o["nmu"]).reshape(-1)[i], "==", m2 / (1 + m2) if fam == "binomial" else m2))
            res = zz - mm(Xo, b)
            if not ar:
                g += eqs("working residuals", asobj(o["wres"]).reshape(-1), np.array([sw[k] * res[k, 0] for k in range(m)], dtype=object))
            V = None
            if o["Li"] is not None:
                Li = asobj(o["Li"])
                V = mm(Li.T, Li)
                g += eqs("V (X'WX+S)", mm(V, A), np.eye(p))
            tot = p
            for k, (at, ln) in enumerate(pen):
                if V is not None:
                    t = sum(V[j, j] for j in range(at, at + ln))
                    g.append(Goal("trace of V S_%d" % k, o["Bs"][k], "==", t))
                g.append(Goal("penalized parameters %d" % k, o["tedf"][k], "==", o["lam"][k] * o["Bs"][k]))
                tot = tot - o["lam"][k] * o["Bs"][k]
                q = sum(b[j, 0] * b[j, 0] for j in range(at, at + ln))
                g.append(Goal("quadratic form %d" % k, np.asarray(o["bsb"][k]).reshape(-1)[0], "==", q))
                g.append(Goal("log-determinant derivative %d" % k, o["lgdet"][k] * o["lam"][k], "==", ln))
            if not form and pen:
                # tr(V S) without an explicit inverse: A V S_j = S_j on the block
                pass
            g.append(Goal("effective degrees of freedom", o["edf"], "==", tot))
            if fam in ("poisson", "binomial"):
                g.append(Goal("scale", o["scale"], "==", 1))
            else:
                wr = asobj(o["wres"]).reshape(-1)
                g.append(Goal("scale", o["scale"] * (m - o["edf"]), "==", sum(x * x for x in wr)))
            return g

        out.append(Case("one iteration %s n=%d p=%d %s%s%s%s%s" % (fam, n, len(X0[0]), "penalized " if pen else "", "offset " if off else "", "ar1 " if ar else "", method, " excluded" if bad else ""),
                        run, goals, "every response, mean, offset and smoothing parameter", max_paths=24, generic=True, trans=True, timeout_ms=30000))

    X31 = [[1.0], [1.0], [1.0]]
    X32 = [[1.0, 0.0], [1.0, 1.0], [1.0, 3.0]]
    Xg = [[1.0, 1.0, 0.0], [1.0, 0.0, 1.0], [1.0, 1.0, 0.0]]
    for fam in ("gamma", "poisson", "binomial", "gaussian log", "invgauss"):
        irls(fam, 3, X32, [], True)
    irls("gamma", 3, X32, [(1, 1)], True)
    irls("gamma", 3, X32, [(1, 1)], False, form=False)
    irls("poisson", 3, Xg, [(1, 2)], False)
    irls("gamma", 3, X31, [], True, ar=True)
    irls("gamma", 4, [[1.0, 0.0], [1.0, 1.0], [1.0, 3.0], [1.0, 2.0]], [(1, 1)], True, bad=(1,))
    irls("poisson", 3, X32, [], True, bad=(2,))
    irls("gamma", 4, [[1.0]] * 4, [], True, ar=True, bad=(3,))
    return out
