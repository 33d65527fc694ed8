"""Step control while fitting additive models: accepted steps, and a consistent state whenever a fit ends."""
import numpy as np
from engine.case import Case, Goal, eqs, dense, F
from checks.P02 import sp
from checks.P14 import rows_of
from checks.P15 import mm
from checks.P17 import pen, dg
from checks.frame import frame
from checks.glm import free_family

EXTS = ["eigen_solvers"]
ASSUMPTIONS = ["the deviance of the family is an arbitrary function: one unknown per evaluation, up to the stated number of evaluations"]


def asobj(A):
    return np.asarray(dense(A), dtype=object)


def cases(tier, M):
    out = []
    G, T, FO = M.gamm_solvers, M.terms, M.formula
    deep = tier == "thorough"

    # ---- one step -----------------------------------------------------------------------
    def step(evals, npen, worse=False, nan=False):
        def run(I):
            C = sp(M).csc_array
            n, p = 2, 2
            X = I.const(np.array([[1.0, 2.0], [1.0, -1.0]]))
            b0, b1 = I.arr("b0", (p,)), I.arr("b1", (p,))
            off = I.arr("off", (n, 1))
            f = free_family(M, I, evals)
            if worse:
                c = I.real("limit")
                f.deviance = lambda y, mu: c + I.pos("excess")
            S = C(I.const(np.zeros((p, p))))
            lam = I.pos("lam") if npen else 0
            if npen:
                S = C(I.const(np.array([[0.0, 0.0], [0.0, 1.0]]))) * lam
            eta0 = (C(X) @ b1).reshape(-1, 1) + off
            y = I.arr("y", (n, 1))
            d0 = I.real("d0") if not nan else float("nan")
            limit = I.real("limit")
            pd0 = d0 + lam * b1[1] * b1[1]
            if worse:
                I.assume(pd0 > limit)
            r = G.correct_coef_step(b0, b1, d0, pd0, limit, f, eta0, eta0 / 2, y, C(X), npen, S, None, 1, off)
            o = dict(zip(("dev", "pen", "mu", "eta", "b"), r))
            o.update(b0=b0, b1=b1, off=off, lam=lam, limit=limit, calls=float(f.calls), X=X, d0=d0 if not nan else 0.0, pd0=pd0 if not nan else 0.0)
            o["devs"] = [I.real("dev_%d" % k) for k in range(f.calls)]
            return o

        def goals(I, o):
            k = int(o["calls"])
            b0, b1, b = [asobj(o[x]).reshape(-1) for x in ("b0", "b1", "b")]
            g = []
            if worse:
                return eqs("no acceptable step: coefficients stay", b, b0) + state(o, b)
            w = 2.0 ** -k
            if k == 0:
                g += eqs("step taken in full", b, b1)
                g.append(Goal("deviance", o["dev"], "==", o["d0"]))
                g.append(Goal("penalized deviance", np.asarray(o["pen"]).reshape(-1)[0], "==", o["pd0"]))
            else:
                g += eqs("step halved", b, b0 + (b1 - b0) * w)
                g.append(Goal("deviance", o["dev"], "==", o["devs"][k - 1]))
                g.append(Goal("penalized deviance", np.asarray(o["pen"]).reshape(-1)[0], "==", o["devs"][k - 1] + o["lam"] * b[1] * b[1]))
            g.append(Goal("accepted step does not increase the penalized deviance", np.asarray(o["pen"]).reshape(-1)[0], "<=", o["limit"]))
            # halved only as long as needed
            prev = [o["pd0"]] + [o["devs"][i - 1] + o["lam"] * (b0[1] + (b1[1] - b0[1]) * 2.0 ** -i) ** 2 for i in range(1, k)]
            for i in range(k):
                if i or not nan:
                    g.append(Goal("step rejected only when worse %d" % i, prev[i], ">", o["limit"]))
            return g + state(o, b)

        def state(o, b):
            e = mm(asobj(o["X"]), np.asarray(b, dtype=object).reshape(-1, 1)) + asobj(o["off"])
            return eqs("linear predictor of the accepted step", o["eta"], e) + eqs("mean of the accepted step", o["mu"], e / 2)

        out.append(Case("coefficient step %s%s%s" % ("penalized" if npen else "unpenalized", " always worse" if worse else " up to %d halvings" % evals, " from nan" if nan else ""), run, goals,
                        "every coefficient, offset and sequence of deviances", max_paths=32, generic=True))

    step(3, 0)
    step(3, 1)
    step(2, 1, nan=True)
    step(0, 1, worse=True)
    step(0, 0, worse=True)

    # ---- complete fits -------------------------------------------------------------------
    def fit(name, mk, data, evals, npen, fitkw, off, frozen=False, bad=(), scale=None):
        def run(I):
            cols = rows_of(I, data)
            n = len(next(iter(cols.values())))
            y = [I.real("y_%d" % i) if npen != "const" else I.const([1.0, 3.0, -2.0][i])[()] for i in range(n)]
            fam = free_family(M, I, evals, scale, bad=bad)
            fam.init_mu = lambda y_: y_
            form = FO.Formula(FO.lhs("y"), mk(), frame(I, y=y, **cols), find_nested=False, print_warn=False)
            m = M.models.GAMM(form, fam)
            pens = M.penalties.combine_shared_penalties(FO.build_penalties(form))
            for i, p in enumerate(pens):
                p.lam = I.const(float(2 ** i))[()] if npen == "const" else I.pos("lam_%d" % i, lo=1e-3, hi=1e5)
                p.frozen = frozen
            m.overall_penalties = pens
            k = dict(progress_bar=False, check_cond=0, restart=True)
            k.update(fitkw)
            o = {}
            if off:
                a = I.arr("off", (n, 1))
                k["offset"] = a
                o["off"] = a
            m.fit(**k)
            o["X"], o["coef"], o["eta"], o["mu"], o["penalty"] = m.get_mmat(), m.coef, m.preds[0], m.mus[0], m.penalty
            o["lam"] = [p.lam for p in m.overall_penalties]
            o["S"] = [p.S_J_emb for p in m.overall_penalties]
            o["hess"], o["hobs"], o["scale"], o["res"], o["y"] = m.hessian, m.hessian_obs, m.scale, m.res, np.array(y).reshape(-1, 1) if not I.sym else asobj(y).reshape(-1, 1)
            o["iter"], o["code"], o["calls"] = float(m.info.iter), float(m.info.code), float(fam.calls)
            return o

        def goals(I, o):
            b = asobj(o["coef"]).reshape(-1, 1)
            e = mm(asobj(o["X"]), b)
            if off:
                e = e + asobj(o["off"])
            g = eqs("linear predictor of the coefficients", o["eta"], e) + eqs("mean of the coefficients", o["mu"], e / 2)
            n = len(asobj(o["y"]))
            Xo = asobj(o["X"])[[i for i in range(n) if i not in bad], :]
            XX = mm(Xo.T, Xo) / 4  # the weights of this family
            g += eqs("hessian", asobj(o["hess"]) * o["scale"], -XX) + eqs("observed hessian", asobj(o["hobs"]) * o["scale"], -XX)
            rs = np.asarray(o["res"], dtype=object).reshape(-1)
            for i in bad:
                g.append(Goal("residual of an excluded observation %d" % i, rs[i], "==", 0))
            pn = 0
            for l, s in zip(o["lam"], o["S"]):
                pn = pn + l * mm(mm(b.T, asobj(s)), b)[0, 0]
            g.append(Goal("penalty of the coefficients", np.asarray(o["penalty"]).reshape(-1)[0] if o["S"] else o["penalty"], "==", pn))
            for k, l in enumerate(o["lam"]):
                g += [Goal("smoothing parameter %d above its bound" % k, l, ">=", 1e-7), Goal("smoothing parameter %d below its bound" % k, l, "<=", 1e7)]
            g.append(Goal("iterations", o["iter"], "<=", float(fitkw["max_outer"])))
            return g

        out.append(Case("fit " + name, run, goals, "every response, offset, smoothing parameter and sequence of deviances", max_paths=96, generic=True, timeout_ms=20000))

    line = (lambda: [T.l(["x"])], {"x": [1, -1, 2]})
    icl = (lambda: [T.i(), T.l(["x"])], {"x": [0, 1, 3]})
    ri = (lambda: [T.ri("g")], {"g": ["a", "b", "a"]})
    for mo in (1, 2, 3):
        for off in (False, True):
            fit("line outer=%d%s" % (mo, " offset" if off else ""), *line, 6, 0, dict(max_outer=mo, max_inner=1), off)
    fit("intercept line outer=2 offset", *icl, 5, 0, dict(max_outer=2, max_inner=1), True)
    fit("random outer=1 frozen", *ri, 5, "sym", dict(max_outer=1, max_inner=1), True, frozen=True)
    fit("random outer=2 frozen", *ri, 5, "sym", dict(max_outer=2, max_inner=1), True, frozen=True)
    fit("random outer=1 inner=2 frozen", *ri, 6, "sym", dict(max_outer=1, max_inner=2), True, frozen=True)
    fit("random outer=2 inner=2 frozen", *ri, 6, "sym", dict(max_outer=2, max_inner=2), True, frozen=True)
    fit("random outer=1 inner=3 frozen", *ri, 7, "sym", dict(max_outer=1, max_inner=3), False, frozen=True)
    fit("random outer=1", *ri, 5, "const", dict(max_outer=1, max_inner=1), False)
    fit("random outer=2", *ri, 5, "const", dict(max_outer=2, max_inner=1), False)
    x4 = (lambda: [T.l(["x"])], {"x": [1, -1, 2, 3]})
    for b in ((0,), (2,), (1, 3)):
        fit("line outer=1 excluded %s" % (b,), *x4, 4, 0, dict(max_outer=1, max_inner=1), True, bad=b)
        fit("line outer=2 excluded %s" % (b,), *x4, 4, 0, dict(max_outer=2, max_inner=1), False, bad=b)
    for ci, (nm, kw) in enumerate([("control=0", dict(control_lambda=0)), ("control=2", dict(control_lambda=2)), ("extended", dict(extend_lambda=True, control_lambda=1)), ("extended control=2", dict(extend_lambda=True, control_lambda=2))]):
        fit("random outer=2 %s" % nm, *ri, 4, "const", dict(max_outer=2, max_inner=1, **kw), False)
        fit("random outer=2 inner=2 %s" % nm, *ri, 7, "const", dict(max_outer=2, max_inner=2, **kw), False)

    # ---- a smoothing parameter step that is taken back --------------------------------------
    def undone(inner, moved):
        def run(I):
            C = sp(M).csc_array
            n, p = 2, 1
            X = I.const(np.array([[1.0], [2.0]]))
            f = free_family(M, I, 4)
            y = I.const(np.array([[1.0], [3.0]]))
            coef = I.const(np.array([0.25]))
            off = 0
            eta = (C(X) @ coef).reshape(-1, 1)
            mu = eta / 2
            t = pen(M, I, p, 0, dg(1), 1, I.const(4.0)[()])
            acc = I.const(1.0)[()]
            rest = I.const(moved)[()]
            S, Pi, R, use = G.compute_S_emb_pinv_det(p, [t], "svd", False)
            yb, Xb, z, Wr = G.update_PIRLS(y, y, mu, eta, C(X), C(X), f, None)
            r = G.correct_lambda_step(y, yb, z, Wr, n, p, C(X), Xb, coef, None, f, p, S, [t], [True], "svd", np.array([[acc + rest]]) if not I.sym else I.const(np.zeros((1, 1))) + (acc + rest),
                                      {"prev_lam": [I.const(2.0)[()]], "acc": [acc]}, 0, I.real("d"), 1, 1, True, True, "nesterov2", None, True, "Chol", off, inner)
            names = "yb Xb z Wr eta mu coef L Li edf tedf scale wres dlam ext pens was S checks keep drop".split()
            o = dict(zip(names, r))
            q = {"eta": o["eta"], "mu": o["mu"], "coef": o["coef"], "lam": o["pens"][0].lam, "X": X, "checks": float(o["checks"]), "z": o["z"], "y": y, "S": o["S"]}
            return q

        def goals(I, o):
            b = asobj(o["coef"]).reshape(-1, 1)
            e = mm(asobj(o["X"]), b)
            g = eqs("linear predictor of the coefficients", o["eta"], e) + eqs("mean of the coefficients", o["mu"], e / 2)
            if inner > 1:
                # the working response belongs to the same predictor
                g += eqs("working response", o["z"], e + 2 * (asobj(o["y"]) - e / 2))
            return g

        out.append(Case("step of a smoothing parameter taken back inner=%d left=%g" % (inner, moved), run, goals, "every sequence of deviances", max_paths=600, generic=True))

    for inner in (1, 2, 3):
        undone(inner, 0.0)
        undone(inner, -0.5)
    return out
