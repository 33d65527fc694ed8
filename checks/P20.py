"""Fitting location-scale models: Newton steps, step control, dropped coefficients, and the state a fit ends in."""
import itertools
import numpy as np
from engine.case import Case, Goal, eqs, dense, F
from checks.P02 import sp
from checks.P14 import rows_of
from checks.P15 import mm
from checks.P17 import pen, dg
from checks.frame import frame
from checks.gls import gls_family, grad_hess, true_llk, SLOPE

EXTS = ["eigen_solvers"]
ASSUMPTIONS = ["the log-likelihood of the family is an arbitrary function (one unknown per evaluation, up to the stated number of evaluations) or a quadratic; its derivatives are those of a quadratic in the linear predictors"]


def asobj(A):
    return np.asarray(dense(A), dtype=object)


def sc(x):
    return np.asarray(x, dtype=object).reshape(-1)[0]


def cases(tier, M):
    out = []
    G, T, FO = M.gamm_solvers, M.terms, M.formula
    deep = tier == "thorough"

    # ---- one Newton or gradient step ---------------------------------------------------------------
    def newton(p, pattern, S):
        def run(I):
            C = sp(M).csc_array
            L = I.const(np.zeros((p, p)))
            for i in range(p):
                L[i, i] = I.pos("h_%d" % i)
                for j in range(i):
                    if pattern(i, j):
                        L[i, j] = I.real("h_%d_%d" % (i, j))
            A = C(L) @ C(L).T  # the negative penalized Hessian
            lam = I.pos("lam")
            Se = C(I.const(np.array(S, dtype=float))) * lam
            H = Se - A
            b, g = I.arr("b", (p, 1)), I.arr("g", (p, 1))
            nb, Lr, LV, eps = G.newton_coef_smooth(b, g, H, Se, 1)
            gd = G.gd_coef_smooth(b, g, Se, I.pos("a"))
            return {"A": A, "b": b, "g": g, "S": Se, "nb": nb, "LL": Lr @ Lr.T, "V": LV.T @ LV, "eps": float(eps) if not I.sym else eps, "gd": gd, "a": I.pos("a")}

        def goals(I, o):
            b, g, S_, A = asobj(o["b"]), asobj(o["g"]), asobj(o["S"]), asobj(o["A"])
            pg = g - mm(S_, b)
            r = [Goal("curvature taken as it is", o["eps"], "==", 0)]
            r += eqs("factor of the penalized curvature", o["LL"], A)
            r += eqs("inverse of the penalized curvature", mm(asobj(o["V"]), A), np.eye(p))
            r += eqs("Newton step", mm(A, asobj(o["nb"]).reshape(-1, 1) - b), pg)
            r += eqs("gradient step", o["gd"], b + o["a"] * pg)
            return r

        out.append(Case("newton step %d %s" % (p, pattern.__name__), run, goals, "every coefficient, gradient, smoothing parameter and positive definite curvature of the pattern", generic=True, max_paths=16))

    def arrow(i, j):
        return j == 0

    def last(i, j):
        return i == p_last - 1

    def band(i, j):
        return i - j == 1

    def full(i, j):
        return True

    p_last = 3
    newton(2, full, [[0, 0], [0, 1]])
    newton(3, arrow, [[0, 0, 0], [0, 1, 0], [0, 0, 1]])
    newton(3, last, [[0, 0, 0], [0, 1, -1], [0, -1, 1]])
    newton(3, band, [[1, -1, 0], [-1, 2, -1], [0, -1, 1]])
    if deep:
        newton(4, arrow, np.diag([0, 0, 1, 1]))
        newton(4, band, np.diag([0, 1, 1, 1]))

    # ---- step control -----------------------------------------------------------------------------
    def step(K, evals, bad=(), never=False):
        P = [2, 1, 2][:K]

        def run(I):
            C = sp(M).csc_array
            n, p = 2, sum(P)
            Xn = [np.array([[1.0, 2.0], [1.0, -1.0]])[:, :q] for q in P]
            X = [C(I.const(x)) for x in Xn]
            b0, b1 = I.arr("b0", (p, 1)), I.arr("b1", (p, 1))
            if never:
                # with the penalty growing towards the proposal no halving can be better
                for i in range(1, p):
                    b0[i, 0] = b0[i, 0] * 0
            lam = I.pos("lam")
            S = C(I.const(np.diag([0.0] + [1.0] * (p - 1)))) * lam
            y = I.arr("y", (n, 1))
            c = I.real("c")
            if never:
                # every proposal is worse
                def val(k, y_, mus):
                    return c - I.pos("loss_%d" % min(k, 1))
                f = gls_family(M, I, K, llk=val)
            else:
                f = gls_family(M, I, K, evals, bad)
            cuts = list(np.cumsum(P)[:-1])
            a = I.pos("a")
            r = G.correct_coef_step_gammlss(f, y, X, b0, b1, [int(x) for x in cuts], c, S, a)
            o = dict(zip(("b", "split", "mus", "etas", "llk", "pen", "a"), r))
            o.update(b0=b0, b1=b1, c=c, lam=lam, X=Xn, a0=a, calls=float(f.calls), vals=[v if not isinstance(v, float) or v == v else 0.0 for v in f.vals[:3 if never else None]])
            return o

        def goals(I, o):
            p = sum(P)
            b0, b1, b = [asobj(o[x]).reshape(-1, 1) for x in ("b0", "b1", "b")]
            k = int(o["calls"]) - 1
            S_ = np.diag([0] + [1] * (p - 1)).astype(object) * o["lam"]

            def q(x):
                return mm(mm(x.T, S_), x)[0, 0] / 2

            g = []
            at = 0
            for i, w in enumerate(P):
                e = mm(asobj(o["X"][i]), b[at:at + w])
                g += eqs("coefficients of parameter %d" % i, asobj(o["split"][i]).reshape(-1, 1), b[at:at + w])
                g += eqs("linear predictor %d" % i, o["etas"][i], e) + eqs("mean %d" % i, o["mus"][i], e / SLOPE[i])
                at += w
            if never:
                g += eqs("no acceptable step: coefficients stay", b, b0)
                return g
            g += eqs("step halved", b, b0 + (b1 - b0) * 2.0 ** -k)
            g.append(Goal("log-likelihood of the accepted step", o["llk"], "==", o["vals"][k]))
            g.append(Goal("penalized log-likelihood", sc(o["pen"]), "==", o["vals"][k] - q(b)))
            lim = o["c"] - q(b0)
            g.append(Goal("accepted step is no worse", sc(o["pen"]), ">=", lim))
            for i in range(k):
                if i not in bad:
                    g.append(Goal("step rejected only when worse %d" % i, o["vals"][i] - q(b0 + (b1 - b0) * 2.0 ** -i), "<", lim))
            # step length of gradient descent for the next step
            if k:
                g.append(Goal("next step length is no longer", o["a"], "<=", o["a0"]))
            else:
                g.append(Goal("next step length is no shorter", o["a"], ">=", o["a0"]))
            return g

        out.append(Case("coefficient step K=%d%s%s" % (K, " always worse" if never else " up to %d halvings" % (evals - 1), " undefined %s" % (bad,) if bad else ""), run, goals, "every coefficient, smoothing parameter and sequence of log-likelihoods", generic=True, max_paths=64))

    step(1, 4)
    step(2, 4)
    step(3, 3)
    step(2, 4, bad=(0,))
    step(2, 4, bad=(1, 2))
    step(2, 0, never=True)

    # ---- dropped coefficients ---------------------------------------------------------------------
    def drops(P, keep):
        K = len(P)

        def run(I):
            C = sp(M).csc_array
            n, p = 2, sum(P)
            Xn = [I.arr("X%d" % k, (n, q)) for k, q in enumerate(P)]
            X = [C(x) for x in Xn]
            b = I.arr("b", (p, 1))
            S = I.const(np.zeros((p, p)))
            for i in range(p):
                for j in range(i + 1):
                    S[i, j] = S[j, i] = I.real("s_%d_%d" % (i, j))
            y = I.arr("y", (n, 1))
            f = gls_family(M, I, K, 2)
            kp = np.array(keep, dtype=int)
            Xs, cut = G.drop_terms_X(X, kp)
            ok, v = G.check_drop_valid_gammlss(y, b, [int(x) for x in np.cumsum(P)[:-1]], X, C(S), kp, f)
            r = G.handle_drop_gammlss(f, y, b, kp, X, C(S))
            o = dict(zip(("b", "split", "cut", "X", "S", "etas", "mus", "llk", "pen"), r))
            o["cut"], o["cut2"] = [float(x) for x in o["cut"]], [float(x) for x in cut]
            o["X2"] = Xs
            o.update(b0=b, X0=Xn, S0=S, ok=float(bool(ok)), v=v, vals=list(f.vals))
            return o

        def goals(I, o):
            p = sum(P)
            b = asobj(o["b0"]).reshape(-1, 1)
            kp = list(keep)
            bz = b.copy()
            for i in range(p):
                if i not in kp:
                    bz[i, 0] = 0
            g = eqs("kept coefficients", o["b"], b[kp])
            S_ = asobj(o["S0"])
            g += eqs("penalty of the kept coefficients", o["S"], S_[np.ix_(kp, kp)])
            at = 0
            n = 0
            for k, w in enumerate(P):
                here = [i for i in kp if at <= i < at + w]
                x = asobj(o["X0"][k])
                for nm in ("X", "X2"):
                    g += eqs("kept columns %d" % k, o[nm][k], x[:, [i - at for i in here]])
                g += eqs("split %d" % k, asobj(o["split"][k]).reshape(-1, 1), b[here])
                e = mm(x, bz[at:at + w])
                g += eqs("linear predictor %d" % k, o["etas"][k], e) + eqs("mean %d" % k, o["mus"][k], e / SLOPE[k])
                at += w
                n += len(here)
                if k < K - 1:
                    g += [Goal("boundary %d" % k, o["cut"][k], "==", float(n)), Goal("boundary %d" % k, o["cut2"][k], "==", float(n))]
            q = mm(mm(bz.T, S_), bz)[0, 0] / 2
            g += [Goal("valid", o["ok"], "==", 1.0), Goal("penalized log-likelihood before", sc(o["v"]), "==", o["vals"][0] - q)]
            g += [Goal("log-likelihood", o["llk"], "==", o["vals"][1]), Goal("penalized log-likelihood", sc(o["pen"]), "==", o["vals"][1] - q)]
            return g

        out.append(Case("dropped %s of %s" % (sorted(set(range(sum(P))) - set(keep)), P), run, goals, "every model matrix, coefficient and penalty", generic=True, max_paths=4))

    for P in ([2, 1], [1, 2, 1], [2, 2]) if deep else ([2, 1], [1, 2, 1]):
        p = sum(P)
        for r in range(1, p):
            for keep in itertools.combinations(range(p), r):
                if deep or r >= p - 2:
                    drops(P, keep)

    # ---- random restarts --------------------------------------------------------------------------
    def restart(nbad):
        def run(I):
            C = sp(M).csc_array
            n, P = 2, [2, 1]
            Xn = [np.array([[1.0, 2.0], [1.0, -1.0]])[:, :q] for q in P]
            X = [C(I.const(x)) for x in Xn]
            b = I.arr("b", (3, 1))
            y = I.arr("y", (n, 1))
            lam = I.pos("lam")
            S = C(I.const(np.diag([0.0, 1.0, 1.0]))) * lam
            f = gls_family(M, I, 2, 40, tuple(range(nbad)))
            sb = [b[:2], b[2:]]
            e = [X[0] @ sb[0], X[1] @ sb[1]]
            mu = [e[0] / 2, e[1] / 4]
            r = G.restart_coef_gammlss(b, sb, I.real("c"), I.real("cp"), e, mu, 3, [2], y, X, S, f, 0, 0)
            o = dict(zip(("b", "split", "llk", "pen", "etas", "mus"), r))
            o.update(b0=b, X=Xn, c=I.real("c"), cp=I.real("cp"), vals=[v for v in f.vals if not isinstance(v, float) or v == v], lam=lam)
            return o

        def goals(I, o):
            b = asobj(o["b"]).reshape(-1, 1)
            g = []
            at = 0
            for i, w in enumerate((2, 1)):
                e = mm(asobj(o["X"][i]), b[at:at + w])
                g += eqs("split %d" % i, asobj(o["split"][i]).reshape(-1, 1), b[at:at + w])
                g += eqs("linear predictor %d" % i, o["etas"][i], e) + eqs("mean %d" % i, o["mus"][i], e / SLOPE[i])
                at += w
            if nbad >= 30:
                return g + eqs("no valid restart: coefficients stay", b, o["b0"]) + [Goal("log-likelihood", o["llk"], "==", o["c"]), Goal("penalized log-likelihood", sc(o["pen"]), "==", o["cp"])]
            q = o["lam"] * (b[1, 0] * b[1, 0] + b[2, 0] * b[2, 0]) / 2
            return g + [Goal("log-likelihood", o["llk"], "==", o["vals"][-1]), Goal("penalized log-likelihood", sc(o["pen"]), "==", o["vals"][-1] - q)]

        out.append(Case("restart after %d undefined" % nbad, run, goals, "every coefficient and log-likelihood", generic=True, max_paths=8))

    for k in (0, 1, 2, 31):
        restart(k)
    
    # ---- coefficients given a set of dropped ones ---------------------------------------------------
    def updated(P, drop, npen, inner, meth="Chol", d_eta=False):
        K, p, n = len(P), sum(P), 3
        keep = [i for i in range(p) if i not in drop]
        Xn = [np.array([[1.0, 2.0], [1.0, -1.0], [1.0, 0.5]])[:, :q] for q in P]

        def run(I):
            C = sp(M).csc_array
            X = [C(I.const(x)) for x in Xn]
            b = I.arr("b", (p, 1))
            y = I.arr("y", (n, 1))
            f = gls_family(M, I, K, 4, d_eta=d_eta)
            ts = [pen(M, I, p, 1, dg(*([1] * (p - 1))), 1, I.const(2.0)[()])] if npen else None
            S = ts[0].S_J_emb * ts[0].lam if npen else C(I.const(np.zeros((p, p))))
            kd = (np.array(keep), np.array(drop)) if drop else None
            cuts = [int(x) for x in np.cumsum(P)[:-1]]
            sb = np.split(b, cuts)
            mus = [(X[k] @ sb[k]) / SLOPE[k] for k in range(K)]
            r = G.update_coef_gammlss(f, mus, y, X, b, cuts, S, S, S, [True] if npen and meth != "Grad" else None, ts if meth != "Grad" else None, I.real("c"), 0, inner, 1, 1e-7, meth, 0.1, 1, kd)
            o = dict(zip(("b", "split", "mus", "etas", "H", "L", "LV", "llk", "pen", "eps"), r[:10]))
            o["V"], o["LL"] = (o["LV"].T @ o["LV"], o["L"] @ o["L"].T) if meth != "Grad" else (None, None)
            for k in ("H", "L", "LV"):
                if meth == "Grad" or k != "H":
                    del o[k]
            o["kd"] = [float(x) for x in (list(r[10]) + [-1] + list(r[11]) if r[10] is not None else [])]
            o.update(b0=b, y=y, S=S, vals=list(f.vals), last=f.args[-1])
            return o

        def goals(I, o):
            b = asobj(o["b"]).reshape(-1, 1)
            S_ = asobj(o["S"])
            ends = list(np.cumsum(P))
            pc = list(zip([0] + ends[:-1], ends))
            X = [np.asarray(x, dtype=object) for x in Xn]
            _, H, mu = grad_hess(X, asobj(o["y"]), b, pc)
            g = eqs("dropped coefficients are zero", b[drop], np.zeros((len(drop), 1)))
            g += eqs("dropped coefficients are reported", o["kd"], [float(x) for x in keep + [-1] + drop] if drop else [])
            for i, (a, e) in enumerate(pc):
                g += eqs("coefficients of parameter %d" % i, asobj(o["split"][i]).reshape(-1, 1), b[a:e])
                eta = mm(X[i], b[a:e])
                g += eqs("linear predictor %d" % i, o["etas"][i], eta) + eqs("mean %d" % i, o["mus"][i], eta / SLOPE[i])
            g.append(Goal("penalized log-likelihood", sc(o["pen"]), "==", o["llk"] - mm(mm(b.T, S_), b)[0, 0] / 2))
            if meth == "Grad":
                return g
            ix = np.ix_(keep, keep)
            Z = np.zeros((p, p), dtype=object)
            A = Z.copy()
            A[ix] = (S_ - H)[ix]
            HH = Z.copy()
            HH[ix] = H[ix]
            E = Z.copy()
            E[ix] = np.eye(len(keep))
            return g + eqs("hessian", o["H"], HH) + eqs("factor", o["LL"], A) + eqs("covariance", mm(asobj(o["V"]), A), E) + eqs("covariance of dropped coefficients", asobj(o["V"])[drop, :], np.zeros((len(drop), p)))

        out.append(Case("coefficients %s drop %s%s inner=%d %s%s" % (P, drop, " penalized" if npen else "", inner, meth, " in the predictors" if d_eta else ""), run, goals, "every start, response and sequence of log-likelihoods", max_paths=64, generic=True))

    for npen in (0, 1):
        for drop in ([], [1], [2], [0]):
            updated([2, 1], drop, npen, 1)
        updated([1, 2], [1], npen, 2)
        updated([2, 1], [], npen, 1, "Grad")
    updated([1, 1, 1], [1], 0, 1)
    updated([2, 1], [1], 1, 1, d_eta=True)

    # ---- complete fits ----------------------------------------------------------------------------
    def fit(name, mk, data, evals, lam, fitkw, b0="sym", y="sym", frozen=True, exact=False, keep_all=True):
        def run(I):
            cols = rows_of(I, data)
            n = len(next(iter(cols.values())))
            yv = [I.real("y_%d" % i) if y == "sym" else I.const(float([1, 3, -2, 2][i]))[()] for i in range(n)]
            fr = frame(I, y=yv, **cols)
            forms = [FO.Formula(FO.lhs("y"), t(), fr, find_nested=False, print_warn=False) for t in mk]
            p = sum(f.n_coef for f in forms)
            init = I.arr("b", (p, 1)) if b0 == "sym" else I.const(np.zeros((p, 1)) + b0)
            fam = gls_family(M, I, len(mk), evals, llk=(lambda k, y_, mus: true_llk(y_, *mus)) if exact else None, init=init)
            m = M.models.GAMMLSS(forms, fam)
            k = dict(progress_bar=False, check_cond=0, n_cores=1, method="Chol", prefit_grad=False)
            k.update(fitkw)
            ind = [FO.build_penalties(f) for f in forms]
            pens = M.penalties.combine_shared_penalties([t for ts in M.penalties.embed_shared_penalties(ind, forms, None) for t in ts])
            for i, t in enumerate(pens):
                t.lam = I.pos("lam_%d" % i, lo=1e-2, hi=1e4) if lam == "sym" else I.const(float(2 + i))[()]
                t.frozen = frozen
            m.overall_penalties = pens
            m.fit(restart=True, **k)
            o = {"X": [m.get_mmat(par=i) for i in range(len(mk))], "b": m.coef, "etas": list(m.preds), "mus": list(m.mus), "H": m.hessian, "V": m.lvi.T @ m.lvi, "edf": m.edf, "pen": m.penalty, "res": m.res}
            o["tedf"] = list(m.term_edf) if m.term_edf is not None else []
            o["lam"] = [t.lam for t in m.overall_penalties]
            o["S"] = [t.S_J_emb for t in m.overall_penalties]
            o["y"] = np.array(yv, dtype=object if I.sym else float).reshape(-1, 1)
            o["drop"] = [float(x) for x in (m.info.dropped if m.info.dropped is not None else [])]
            o["iter"], o["b0"], o["last"] = float(m.info.iter), init, list(fam.args[-1])
            return o

        def goals(I, o):
            X = [asobj(x) for x in o["X"]]
            b = asobj(o["b"]).reshape(-1, 1)
            y_ = asobj(o["y"])
            ends = list(np.cumsum([x.shape[1] for x in X]))
            cuts = list(zip([0] + ends[:-1], ends))
            p = ends[-1]
            gr, H, mu = grad_hess(X, y_, b, cuts)
            S_ = np.zeros((p, p), dtype=object)
            for l, s_ in zip(o["lam"], o["S"]):
                S_ = S_ + l * asobj(s_)
            g = []
            for i, (a, e) in enumerate(cuts):
                eta = mm(X[i], b[a:e])
                g += eqs("linear predictor %d" % i, o["etas"][i], eta) + eqs("mean %d" % i, o["mus"][i], eta / SLOPE[i])
            V = asobj(o["V"])
            dr = [int(x) for x in o["drop"]]
            kp = [i for i in range(p) if i not in dr]
            ix = np.ix_(kp, kp)
            Hr = asobj(o["H"])
            g += eqs("hessian", Hr[ix], H[ix])
            g += eqs("covariance", mm(V[ix], (S_ - H)[ix]), np.eye(len(kp)))
            for d in dr:
                g.append(Goal("dropped coefficient", b[d, 0], "==", 0))
                g += [Goal("no curvature of the dropped coefficient", Hr[d, j], "==", 0) for j in range(p)] + [Goal("no covariance of the dropped coefficient", V[d, j], "==", 0) for j in range(p)]
            if not keep_all:
                g.append(Goal("one coefficient dropped", float(len(dr)), "==", 1.0))
            g.append(Goal("penalty of the coefficients", o["pen"], "==", mm(mm(b.T, S_), b)[0, 0]))
            t = len(kp)
            for l, s_ in zip(o["lam"], o["S"]):
                d = mm(V, asobj(s_))
                t = t - l * sum(d[i, i] for i in range(p))
            g.append(Goal("effective degrees of freedom", o["edf"], "==", t))
            g += eqs("residual", o["res"], y_ - mm(X[0], b[:cuts[0][1]]))
            if fitkw.get("max_outer", 0):
                g.append(Goal("iterations", o["iter"], "<=", float(fitkw["max_outer"])))
            if exact:
                g += eqs("penalized likelihood is stationary", (gr - mm(S_, b))[kp], np.zeros((len(kp), 1)))
            return g

        out.append(Case("fit " + name, run, goals, "every response, start, smoothing parameter and sequence of log-likelihoods", max_paths=96, generic=True, timeout_ms=20000))

    ii = [lambda: [T.i()], lambda: [T.i()]]
    il = [lambda: [T.i(), T.l(["x"])], lambda: [T.i()]]
    ri = [lambda: [T.ri("g")], lambda: [T.i()]]
    ri2 = [lambda: [T.i()], lambda: [T.ri("g")]]
    x3, g3 = {"x": [1, -1, 2]}, {"g": ["a", "b", "a"]}
    for inner in (1, 2):
        fit("constant inner=%d" % inner, ii, x3, 4, None, dict(max_inner=inner))
        fit("line inner=%d" % inner, il, x3, 4, None, dict(max_inner=inner))
        for nm, mk in (("random", ri), ("random second", ri2)):
            fit("%s outer=1 inner=%d" % (nm, inner), mk, g3, 4, "sym" if inner == 1 else "const", dict(max_inner=inner, max_outer=1, repara=False))
            fit("%s outer=1 inner=%d repara" % (nm, inner), mk, g3, 4, "sym" if inner == 1 else "const", dict(max_inner=inner, max_outer=1, repara=True))
    fit("random outer=2 inner=1", ri, g3, 4, "const", dict(max_inner=1, max_outer=2, repara=False))
    fit("random outer=1 free", ri, g3, 4, "const", dict(max_inner=1, max_outer=1, repara=False), frozen=False, b0=0.25, y="const")
    for nm, kw in (("", {}), (" repara", dict(repara=True)), (" control=0", dict(control_lambda=0)), (" control=1 extended", dict(control_lambda=1, extend_lambda=True)), (" extended", dict(extend_lambda=True))):
        k = dict(max_inner=1, max_outer=2, repara=False)
        k.update(kw)
        fit("random outer=2 free" + nm, ri, g3, 3, "const", k, frozen=False, b0=0.25, y="const")
    fit("constant gradient first", ii, x3, 3, None, dict(max_inner=1, prefit_grad=True))
    fit("random gradient first", ri, g3, 3, "const", dict(max_inner=1, max_outer=1, prefit_grad=True, repara=True))
    fit("constant exact", ii, x3, 4, None, dict(max_inner=4), exact=True)
    fit("random exact", ri, g3, 4, "const", dict(max_inner=4, max_outer=1, repara=False), exact=True, b0=0.0)
    q = dict(max_inner=3, method="QR/Chol")
    fit("constant exact QR", ii, x3, 4, None, q, exact=True)
    fit("random exact QR", ri, g3, 4, "const", dict(max_inner=4, max_outer=1, repara=False, method="QR/Chol"), exact=True, b0=0.0)
    return out
