"""Smoothing parameter updates: penalty algebra, traces and steps."""
import numpy as np
from engine.case import Case, Goal, eqs, dense, F
from checks.P02 import sp
from checks.P15 import mm

EXTS = ["eigen_solvers"]
ASSUMPTIONS = ["the svd and the eigendecomposition of a diagonal matrix of unknowns are exact; of constants they are computed numerically"]


def asobj(A):
    return np.asarray(dense(A), dtype=object)


def near(label, A, B, eps=1e-8):
    A, B = np.asarray(dense(A), dtype=object).reshape(-1), np.asarray(dense(B), dtype=object).reshape(-1)
    g = [Goal(label + " size", float(len(A)), "==", float(len(B)))]
    for k, (a, b) in enumerate(zip(A, B)):
        g += [Goal("%s[%d]" % (label, k), a - b, "<=", eps), Goal("%s[%d]" % (label, k), a - b, ">=", -eps)]
    return g


def pen(M, I, p, at, S, rep=1, lam=None, id=None, D=None, type=None):
    CT = M.custom_types
    C = sp(M).csc_array
    S = np.array(S, dtype=float)
    D = np.sqrt(S) if D is None else np.array(D, dtype=float)
    k = S.shape[0]
    SE, DE = np.zeros((p, p)), np.zeros((p, p))
    for r in range(rep):
        a = at + r * k
        SE[a:a + k, a:a + k] = S
        DE[a:a + k, a:a + k] = D
    t = CT.LambdaTerm(start_index=at, type=type or CT.PenType.IDENTITY, id=id)
    t.S_J, t.S_J_emb, t.D_J_emb = C(I.const(S)), C(I.const(SE)), C(I.const(DE))
    t.rank, t.rep_sj, t.lam, t.term = int(np.linalg.matrix_rank(S)) * rep, rep, lam, 0
    t.spec = SE
    return t


# (start, penalty, repeats, id, name of lambda)
def dg(*d):
    return np.diag([float(x) for x in d])


LAY = {
    "one": (3, [(1, dg(1, 1), 1, None, "a")]),
    "two apart": (5, [(1, dg(1, 1), 1, None, "a"), (4, dg(1), 1, None, "b")]),
    "split": (4, [(1, dg(1, 1, 0), 1, None, "a"), (1, dg(0, 0, 1), 1, None, "b")]),
    "overlap": (3, [(1, dg(1, 2), 1, None, "a"), (1, dg(0, 1), 1, None, "b")]),
    "later split": (6, [(1, dg(1, 1), 1, None, "a"), (4, dg(1, 0), 1, None, "b"), (4, dg(0, 1), 1, None, "c")]),
    "split later one": (6, [(1, dg(1, 0), 1, None, "a"), (1, dg(0, 1), 1, None, "b"), (4, dg(1, 1), 1, None, "c")]),
    "repeated split": (5, [(1, dg(1, 0), 2, None, "a"), (1, dg(0, 1), 2, None, "b")]),
    "repeated split late": (7, [(1, dg(1), 1, None, "c"), (3, dg(1, 0), 2, None, "a"), (3, dg(0, 1), 2, None, "b")]),
    "shared": (5, [(1, dg(1, 1), 1, 7, "a"), (3, dg(1, 1), 1, 7, "a")]),
    "shared around": (6, [(1, dg(1), 1, 7, "a"), (2, dg(1, 0), 1, None, "b"), (2, dg(0, 1), 1, None, "c"), (4, dg(1), 1, 7, "a")]),
    "id once first": (6, [(1, dg(1, 0), 1, 3, "b"), (1, dg(0, 1), 1, 4, "c"), (3, dg(1), 1, 7, "a"), (4, dg(1), 1, 7, "a")]),
    "id once between": (6, [(1, dg(1), 1, 7, "a"), (2, dg(1, 0), 1, 3, "b"), (2, dg(0, 1), 1, 4, "c"), (4, dg(1), 1, 7, "a")]),
    "shared two": (7, [(1, dg(1), 1, 8, "b"), (2, dg(1, 1), 1, 7, "a"), (4, dg(1, 1), 1, 7, "a"), (6, dg(1), 1, 8, "b")]),
    "shared split": (5, [(1, dg(1, 0), 1, 7, "a"), (1, dg(0, 1), 1, 8, "b"), (3, dg(1, 0), 1, 7, "a"), (3, dg(0, 1), 1, 8, "b")]),
    "shared late": (8, [(1, dg(1, 0), 1, None, "b"), (1, dg(0, 1), 1, None, "c"), (3, dg(1), 1, 7, "a"), (4, dg(1), 1, None, "d"), (5, dg(1), 1, 7, "a"), (6, dg(1), 1, None, "e")]),
    "shared before split": (8, [(1, dg(1), 1, 7, "a"), (2, dg(1), 1, 7, "a"), (3, dg(1, 0), 1, None, "b"), (3, dg(0, 1), 1, None, "c"), (5, dg(1), 1, None, "d"), (6, dg(1), 1, 7, "a")]),
}


def build(M, I, lay, numeric=None):
    p, ps = LAY[lay]
    lam = {}
    for k, (at, S, rep, id, nm) in enumerate(ps):
        if nm not in lam:
            lam[nm] = numeric[nm] if numeric else I.pos("lam_" + nm, lo=1e-3, hi=1e5)
    raw = [pen(M, I, p, at, S, rep, lam[nm], id) for at, S, rep, id, nm in ps]
    spec = []  # (name, embedded penalty) per smoothing parameter, in the order of the combined penalties
    merged = M.penalties.combine_shared_penalties(raw)
    return p, raw, merged, lam


def spec_of(lay):
    p, ps = LAY[lay]
    E = []
    for at, S, rep, id, nm in ps:
        e = np.zeros((p, p))
        for r in range(rep):
            a = at + r * len(S)
            e[a:a + len(S), a:a + len(S)] = S
        E.append((nm, e, at, len(S) * rep, id))
    return p, E


def cases(tier, M):
    out = []
    G = M.gamm_solvers
    deep = tier == "thorough"

    def layout(lay, root):
        def run(I):
            p, raw, merged, lam = build(M, I, lay)
            b = I.arr("b", (p, 1))
            S, Pi, R, use = G.compute_S_emb_pinv_det(p, merged, "svd", root)
            o = {"S": S, "Pi": Pi, "RR": R @ R.T if root else None, "lam": dict(lam), "b": b, "n": float(len(use)), "m": float(len(merged))}
            o["Sj"] = [t.S_J_emb for t in merged]
            o["lj"] = [t.lam for t in merged]
            o["d"] = []
            o["q"] = []
            for k, t in enumerate(merged):
                d, q = G.compute_lgdetD_bsb(t.rank if use[k] else None, t.lam, Pi, t.S_J_emb, b)
                o["d"].append(d)
                o["q"].append(np.asarray(q).reshape(-1)[0])
            return o

        def goals(I, o):
            p, E = spec_of(lay)
            St = np.zeros((p, p), dtype=object)
            for nm, e, at, ln, id in E:
                St = St + o["lam"][nm] * e
            g = eqs("total penalty", o["S"], St)
            g.append(Goal("decisions", o["n"], "==", o["m"]))
            g.append(Goal("smoothing parameters", o["m"], "==", float(len({nm for nm, *_ in E}))))
            multi = {at for _, _, at, _, _ in E if sum(1 for x in E if x[2] == at) > 1}
            Pi = asobj(o["Pi"])
            for i in range(p):
                for j in range(p):
                    inb = any(at in multi and at <= i < at + ln and at <= j < at + ln for _, _, at, ln, _ in E)
                    if not inb:
                        g.append(Goal("pseudo-inverse outside the terms with several penalties[%d,%d]" % (i, j), Pi[i, j], "==", 0))
                    elif i == j and bool(np.any([e[i, i] for _, e, *_ in E])):
                        g.append(Goal("pseudo-inverse[%d]" % i, Pi[i, i] * St[i, i], "==", 1))
                    else:
                        g.append(Goal("pseudo-inverse[%d,%d]" % (i, j), Pi[i, j], "==", 0))
            if o["RR"] is not None:
                g += eqs("root of the total penalty", o["RR"], St)
            b = asobj(o["b"]).reshape(-1)
            # which parameter each combined penalty carries: by its matrix
            for k in range(int(o["m"])):
                Sj = asobj(o["Sj"][k])
                fl = np.array([[float(x.v) if hasattr(x, "v") and not isinstance(x, float) else float(x) for x in r] for r in Sj.tolist()]) if not I.sym else np.array([[float(dense_const(x)) for x in r] for r in Sj.tolist()])
                nm = [n for n in o["lam"] if np.array_equal(sum(e for m_, e, *_ in E if m_ == n), fl)]
                g.append(Goal("penalty of combined parameter %d" % k, float(len(nm)), "==", 1.0))
                if len(nm) != 1:
                    continue
                g.append(Goal("value of combined parameter %d" % k, o["lj"][k], "==", o["lam"][nm[0]]))
                d = 0
                for i in range(p):
                    if fl[i, i] != 0:
                        d = d + fl[i, i] / St[i, i]
                g.append(Goal("derivative of log|S| wrt %s" % nm[0], o["d"][k], "==", d))
                g.append(Goal("quadratic form of %s" % nm[0], o["q"][k], "==", sum(fl[i, i] * b[i] * b[i] for i in range(p))))
            return g

        out.append(Case("total penalty %s%s" % (lay, " root" if root else ""), run, goals, "every smoothing parameter in [1e-3, 1e5] and coefficient", max_paths=64, generic=True))

    for lay in LAY:
        layout(lay, False)
        if lay in ("one", "split", "later split", "repeated split", "shared split", "two apart", "overlap") or deep:
            layout(lay, True)

    # penalties that do not commute
    def noncommuting(rep):
        Sa = np.array([[2.0, -1.0], [-1.0, 1.0]])
        Sb = np.array([[1.0, 0.5], [0.5, 3.0]])
        la, lb = 2.5, 0.75

        def run(I):
            p = 2 + 2 * rep
            T = [pen(M, I, p, 2, Sa, rep, la), pen(M, I, p, 2, Sb, rep, lb)]
            b = I.arr("b", (p, 1))
            S, Pi, R, use = G.compute_S_emb_pinv_det(p, T, "svd", True)
            o = {"S": S, "Pi": Pi, "RR": R @ R.T, "b": b, "d": [], "q": []}
            for k, t in enumerate(T):
                d, q = G.compute_lgdetD_bsb(t.rank if use[k] else None, t.lam, Pi, t.S_J_emb, b)
                o["d"].append(d)
                o["q"].append(np.asarray(q).reshape(-1)[0])
            return o

        def goals(I, o):
            p = 2 + 2 * rep
            B = la * Sa + lb * Sb
            St, Pt = np.zeros((p, p)), np.zeros((p, p))
            for r in range(rep):
                a = 2 + 2 * r
                St[a:a + 2, a:a + 2] = B
                Pt[a:a + 2, a:a + 2] = np.linalg.inv(B)
            g = near("total penalty", o["S"], St) + near("pseudo-inverse", o["Pi"], Pt) + near("root", o["RR"], St)
            g += near("derivative 0", [o["d"][0]], [rep * float(np.trace(np.linalg.inv(B) @ Sa))])
            g += near("derivative 1", [o["d"][1]], [rep * float(np.trace(np.linalg.inv(B) @ Sb))])
            b = asobj(o["b"])
            for k, S0 in enumerate((Sa, Sb)):
                q = 0
                for r in range(rep):
                    v = b[2 + 2 * r:4 + 2 * r, :]
                    q = q + mm(mm(v.T, S0.astype(object)), v)[0, 0]
                g.append(Goal("quadratic form %d" % k, o["q"][k], "==", q))
            return g

        out.append(Case("total penalty that does not commute rep=%d" % rep, run, goals, "every coefficient; given smoothing parameters", generic=True, tol=1e-9))

    noncommuting(1)
    noncommuting(2)

    # ---- traces and degrees of freedom ------------------------------------------------------
    def lower(I, p, pat):
        L = np.zeros((p, p), dtype=object if I.sym else float)
        if I.sym:
            from engine.sym import const
            L[:] = const(0)
        for i in range(p):
            for j in range(i + 1):
                if i == j:
                    L[i, j] = I.pos("l_%d_%d" % (i, j))
                elif pat == "full" or (pat == "arrow" and (i == p - 1)):
                    L[i, j] = I.real("l_%d_%d" % (i, j))
        if I.sym:
            from engine import shim
            L = L.view(shim.SymArray)
        return L

    def traces(lay, how, pat="arrow", Pr=None):
        def run(I):
            p, raw, merged, lam = build(M, I, lay)
            L = lower(I, p, pat)
            C = sp(M).csc_array
            o = {"L": L, "lam": dict(lam)}
            if how == "inverse":
                # any matrix whose cross product is the covariance
                edf, par, Bs = G.calculate_edf(None, None, C(L), merged, None, p, 1, None, None)
            else:
                edf, par, Bs = G.calculate_edf(C(L), Pr, None, merged, [1.0] * len(raw), p, 1, None, None)
            te = G.calculate_term_edf(merged, par)
            o["edf"], o["par"], o["Bs"], o["te"] = edf, list(par), list(Bs), list(te)
            o["Sj"] = [t.S_J_emb for t in merged]
            return o

        def goals(I, o):
            p, E = spec_of(lay)
            L = asobj(o["L"])
            if how == "inverse":
                W = L
            else:
                # L W = P, so that W'W is the covariance
                PM = np.zeros((p, p), dtype=object)
                for i in range(p):
                    PM[Pr[i], i] = 1
                W = np.zeros((p, p), dtype=object)
                for c in range(p):
                    for i in range(p):
                        e = PM[i, c]
                        for k in range(i):
                            e = e - L[i, k] * W[k, c]
                        W[i, c] = e / L[i, i]
            v = [sum(W[k, i] * W[k, i] for k in range(p)) for i in range(p)]
            tr = {}
            g = []
            for nm, e, *_ in E:
                tr[nm] = tr.get(nm, 0) + sum(e[i, i] * v[i] for i in range(p) if e[i, i] != 0)
            g.append(Goal("traces", float(len(o["Bs"])), "==", float(len(tr))))
            for k in range(len(o["Sj"])):
                Sj = asobj(o["Sj"][k])
                fl = np.array([[float(dense_const(x)) if I.sym else float(x) for x in r] for r in Sj.tolist()])
                nm = [n for n in tr if np.array_equal(sum(e for m_, e, *_ in E if m_ == n), fl)]
                if len(nm) == 1 and k < len(o["Bs"]):
                    g.append(Goal("trace of V S_%s" % nm[0], o["Bs"][k], "==", tr[nm[0]]))
            g.append(Goal("effective degrees of freedom", o["edf"], "==", p - sum(o["lam"][nm] * tr[nm] for nm in tr)))
            at = []
            for nm, e, a, ln, id in E:
                if a not in [x for x, _ in at]:
                    at.append((a, ln))
            at.sort()
            g.append(Goal("terms", float(len(o["te"])), "==", float(len(at))))
            if len(o["te"]) == len(at):
                for k, (a, ln) in enumerate(at):
                    d = ln
                    for nm, e, a2, _, _ in E:
                        if a2 == a:
                            d = d - o["lam"][nm] * sum(e[i, i] * v[i] for i in range(p) if e[i, i] != 0)
                    g.append(Goal("effective degrees of freedom of term %d" % k, o["te"][k], "==", d))
            return g

        out.append(Case("traces %s %s%s" % (lay, how, "" if Pr is None else " " + "".join(map(str, Pr))), run, goals, "every factor of the penalized hessian and smoothing parameter", max_paths=64, generic=True))

    for lay in LAY:
        traces(lay, "inverse")
    import itertools
    for lay in ("one", "split", "two apart", "repeated split", "shared", "id once first", "shared around", "later split") if not deep else LAY:
        p = LAY[lay][0]
        traces(lay, "factor", Pr=list(range(p)))
        traces(lay, "factor", Pr=[(3 * i + 1) % p if p % 3 else (p - 1 - i) for i in range(p)])

    # null penalties on single coefficients
    def nulls(p, at, S, rep, Pr, before):
        def run(I):
            NULL = M.custom_types.PenType.NULL
            t = pen(M, I, p, at, S, rep, I.pos("lam"), type=NULL)
            L = lower(I, p, "arrow")
            B = M.matrix_solvers.compute_B(sp(M).csc_array(L), M.matrix_solvers.compute_eigen_perm(Pr), t, 1)
            return {"L": L, "B": B}

        def goals(I, o):
            L = asobj(o["L"])
            W = np.zeros((p, p), dtype=object)
            for c in range(p):
                for i in range(p):
                    e = 1 if Pr[c] == i else 0
                    for k in range(i):
                        e = e - L[i, k] * W[k, c]
                    W[i, c] = e / L[i, i]
            v = [sum(W[k, i] * W[k, i] for k in range(p)) for i in range(p)]
            d = 0
            for r in range(rep):
                for i in range(len(S)):
                    if S[i, i]:
                        d = d + v[at + r * len(S) + i]
            return [Goal("trace of V S", o["B"], "==", d)]

        out.append(Case("trace of a null penalty p=%d at=%d rep=%d %s" % (p, at, rep, "".join(map(str, Pr))), run, goals, "every factor of the penalized hessian", max_paths=32, generic=True))

    nulls(3, 0, dg(0, 0, 1), 1, [0, 1, 2], 0)
    nulls(4, 1, dg(0, 1, 0), 1, [2, 0, 3, 1], 1)
    nulls(5, 1, dg(0, 1), 2, [4, 3, 2, 1, 0], 1)
    nulls(5, 3, dg(1, 0), 1, [0, 1, 2, 3, 4], 3)
    nulls(5, 2, dg(1, 1, 0), 1, [1, 0, 2, 4, 3], 2)

    # ---- steps ----------------------------------------------------------------------------
    def step():
        def run(I):
            d, t, q, l, s = I.real("d"), I.real("t"), I.real("q"), I.pos("lam", lo=1e-7, hi=1e7), I.pos("phi")
            dl = G.step_fellner_schall_sparse(d, t, q, l, s)
            return {"d": d, "t": t, "q": q, "l": l, "s": s, "dl": dl, "g": G.grad_lambda(d, t, q, s)}

        def goals(I, o):
            d, t, q, l, s, n = o["d"], o["t"], o["q"], o["l"], o["s"], o["l"] + o["dl"]
            g = [Goal("new parameter above its lower bound", n, ">=", 1e-7), Goal("new parameter below its upper bound", n, "<=", 1e7)]
            g.append(Goal("gradient", o["g"] * 2 * s, "==", (d - t) * s - q))
            if bool(q <= 0):
                g.append(Goal("unbounded update", n, "==", 1e7))
            else:
                num = d - t if bool(d - t > 0) else 0
                u = s * num * l / q
                if bool(u < 1e-7):
                    u = 1e-7
                elif bool(u > 1e7):
                    u = 1e7
                g.append(Goal("generalized Fellner-Schall update", n, "==", u))
                if bool(d >= t):
                    # uphill on the restricted likelihood
                    g.append(Goal("direction of the update", o["dl"] * o["g"], ">=", 0))
            return g

        out.append(Case("update of a smoothing parameter", run, goals, "every trace, quadratic form, scale and smoothing parameter in the admissible range", max_paths=64))

    step()

    def first(freeze):
        """the step proposed by a first iteration of an additive model with two random terms"""
        def run(I):
            C = sp(M).csc_array
            n, p = 3, 2
            X = C(I.const(np.array([[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]])))
            y = I.arr("y", (n, 1))
            T = [pen(M, I, p, 0, dg(1), 1, I.pos("lam_0", lo=1e-3, hi=1e5)), pen(M, I, p, 1, dg(1), 1, I.pos("lam_1", lo=1e-3, hi=1e5))]
            for k in freeze:
                T[k].frozen = True
            r = G.init_step_gam(y, y, y, y, n, p, X, X, M.exp_fam.Gaussian(), p, T, "svd", 1, None, True, "Chol", 0, None)
            o = dict(zip("dev pen eta mu coef L Li edf tedf scale wres dl S".split(), r))
            o["lam"] = [t.lam for t in T]
            o["y"] = y
            o["pen"] = np.asarray(o["pen"]).reshape(-1)[0]
            o["tedf"] = list(o["tedf"])
            return o

        def goals(I, o):
            Li = asobj(o["Li"])
            V = mm(Li.T, Li)
            b = asobj(o["coef"]).reshape(-1)
            dl = np.asarray(o["dl"], dtype=object).reshape(-1)
            g = []
            for k in range(2):
                l, q = o["lam"][k], b[k] * b[k]
                if k in freeze:
                    g.append(Goal("frozen parameter %d" % k, dl[k], "==", 0))
                    continue
                num = 1 / l - V[k, k]
                if bool(q <= 0):
                    n_ = 1e7
                else:
                    if bool(num < 0):
                        num = 0
                    n_ = o["scale"] * (num / q) * l
                    if bool(n_ < 1e-7):
                        n_ = 1e-7
                    if bool(n_ > 1e7):
                        n_ = 1e7
                g.append(Goal("proposed step %d" % k, dl[k], "==", n_ - l))
            w = asobj(o["wres"]).reshape(-1)
            g.append(Goal("deviance", o["dev"], "==", sum(x * x for x in w)))
            g.append(Goal("penalized deviance", o["pen"], "==", o["dev"] + sum(o["lam"][k] * b[k] * b[k] for k in range(2))))
            return g

        out.append(Case("first step%s" % (" frozen " + str(freeze) if freeze else ""), run, goals, "every response and smoothing parameter", max_paths=96, generic=True))

    if deep:
        first([])
    first([0])
    first([1])

    def ext(method, it):
        def run(I):
            l0, l, d = I.pos("prev", lo=1e-7, hi=1e7), I.pos("lam", lo=1e-7, hi=1e7), I.real("d")
            e = {"prev_lam": [I.const(3.0)[()], l0], "acc": [0, I.const(7.0)[()]]}
            w = [False, True]
            o = {"l0": l0, "l": l, "d": d}
            d2, e, w = G.extend_lambda_step(1, l, d, e, w, it, method)
            o["d2"], o["was"], o["acc"], o["prev"], o["other"] = d2, 1.0 if w[1] else 0.0, e["acc"][1], e["prev_lam"][1], [e["prev_lam"][0], e["acc"][0], 1.0 if w[0] else 0.0]
            o["b"], o["c"] = G.undo_extension_lambda_step(1, l + d2, d2, e, w, method)
            o["w2"], o["a2"] = 1.0 if w[1] else 0.0, e["acc"][1]
            return o

        def goals(I, o):
            l0, l, d = o["l0"], o["l"], o["d"]
            df = l - l0
            same = (bool(d > 0) and bool(df > 0)) or (bool(d < 0) and bool(df < 0)) or (bool(d == 0) and bool(df == 0))
            acc = 0
            ad = d if bool(d >= 0) else -d
            af = df if bool(df >= 0) else -df
            sg = 1 if bool(d > 0) else (-1 if bool(d < 0) else 0)
            if same:
                if method == "expected_ratio":
                    expo = 0.375 if it <= 50 else min(0.9, 0.375 * 1.0025 ** (it - 50))
                    ex = (2 - 2 / (it + 1) ** expo) * af
                    if bool(ad < ex):
                        acc = sg * (ad + ex) / 2 - d
                elif not (bool(d > 1) and bool(df < 1)):
                    eps = 2.0 ** -52
                    if method == "nesterov":
                        acc = sg * d * d / (af if bool(af > eps) else eps)
                    else:
                        q = ad / (2 * af if bool(2 * af > eps) else eps)
                        acc = d * (q if bool(q < 0.99) else 0.99)
            n = l + d + acc
            ok = bool(n < 1e7) and bool(n > 1e-7) and not bool(acc == 0)
            if not ok:
                acc = 0
            g = [Goal("extended step", o["d2"], "==", d + acc, tol=1e-9), Goal("extended", o["was"], "==", 1.0 if ok else 0.0), Goal("extension", o["acc"], "==", acc, tol=1e-9), Goal("accepted parameter", o["prev"], "==", l)]
            g.append(Goal("extension keeps the direction", acc * d, ">=", 0))
            g += [Goal("other terms untouched %d" % k, x, "==", v) for k, (x, v) in enumerate(zip(o["other"], (3.0, 0.0, 0.0)))]
            g += [Goal("undone parameter", o["b"], "==", l + d), Goal("undone step", o["c"], "==", d), Goal("no extension left", o["w2"], "==", 0.0), Goal("no acceleration left", o["a2"], "==", 0)]
            return g

        out.append(Case("extension %s iteration %d" % (method, it), run, goals, "every previous and current smoothing parameter and step", max_paths=128, tol=1e-7))

    for m in ("nesterov", "nesterov2"):
        ext(m, 0)
    for it in (0, 1, 7, 60) if not deep else (0, 1, 2, 3, 5, 7, 15, 31, 50, 51, 60, 100, 400):
        ext("expected_ratio", it)
    return out


def dense_const(x):
    from engine.shim import tofloat
    return tofloat(x)
