"""Reparameterization of penalized models and the restricted likelihood."""
import numpy as np
from engine import sym
from engine.case import Case, Goal, eqs, dense, F
from checks.P02 import sp
from checks.P14 import rows_of
from checks.P15 import mm
from checks.P17 import pen, dg, near, LAY, build, spec_of, asobj
from checks.frame import frame

EXTS = ["eigen_solvers"]
ASSUMPTIONS = ["eigendecompositions of diagonal matrices of unknowns are exact; of constants they are computed numerically and obligations are decided up to 1e-8 for coefficients in [-10, 10]"]


def det(A):
    """determinant by expansion"""
    n = A.shape[0]
    if n == 0:
        return 1
    if n == 1:
        return A[0, 0]
    d = 0
    for j in range(n):
        if isinstance(A[0, j], (int, float)) and A[0, j] == 0:
            continue
        m = np.delete(np.delete(A, 0, 0), j, 1)
        d = d + (-1) ** j * A[0, j] * det(m)
    return d


def cases(tier, M):
    out = []
    RP, U = M.repara, M.utils
    deep = tier == "thorough"
    # single terms whose penalties overlap: one of them has full rank, ranks nest, three at once
    MORE = {
        "full and part": (3, [(1, dg(1, 1), 1, None, "a"), (1, dg(0, 1), 1, None, "b")]),
        "two full": (3, [(1, dg(1, 4), 1, None, "a"), (1, dg(9, 1), 1, None, "b")]),
        "two full repeated": (5, [(1, dg(1, 4), 2, None, "a"), (1, dg(9, 1), 2, None, "b")]),
        "overlap deficient": (4, [(1, dg(1, 1, 0), 1, None, "a"), (1, dg(0, 1, 0), 1, None, "b")]),
        "three nested": (4, [(1, dg(1, 0, 0), 1, None, "a"), (1, dg(1, 4, 0), 1, None, "b"), (1, dg(1, 4, 9), 1, None, "c")]),
        "three chain": (5, [(1, dg(1, 1, 0, 0), 1, None, "a"), (1, dg(0, 1, 1, 0), 1, None, "b"), (1, dg(0, 0, 1, 0), 1, None, "c")]),
        "deficient": (4, [(1, dg(0, 4, 1), 1, None, "a")]),
        "deficient repeated": (5, [(1, dg(0, 4), 2, None, "a")]),
    }

    def get(lay):
        if lay in LAY:
            return LAY[lay]
        return MORE[lay]

    def make(I, lay):
        p, ps = get(lay)
        lam = {}
        for at, S, rep, id, nm in ps:
            if nm not in lam:
                lam[nm] = I.pos("lam_" + nm, lo=1e-2, hi=1e4)
        raw = [pen(M, I, p, at, S, rep, lam[nm], id) for at, S, rep, id, nm in ps]
        return p, raw, M.penalties.combine_shared_penalties(raw), lam

    def embed(p, E, lam):
        St = np.zeros((p, p), dtype=object)
        for nm, e, at, ln, id in E:
            St = St + lam[nm] * e
        return St

    def spec(lay):
        p, ps = get(lay)
        E = []
        for at, S, rep, id, nm in ps:
            e = np.zeros((p, p))
            for r in range(rep):
                a = at + r * len(S)
                e[a:a + len(S), a:a + len(S)] = S
            E.append((nm, e, at, len(S) * rep, id))
        return p, E

    def layout(lay, inv, root):
        def run(I):
            p, raw, merged, lam = make(I, lay)
            b = I.arr("b", (p, 1))
            Sj, S, Si, Sr, Srep, gidx, at, nc, Q, Mp = RP.reparam(None, merged, None, option=4, form_inverse=inv, form_root=root)
            o = {"lam": lam, "b": b, "S": S, "Q": Q, "Srep": Srep, "at": [float(x) for x in at], "nc": [float(x) for x in nc]}
            o["Sj"] = [t.S_J_emb for t in Sj]
            o["Dj"] = [t.D_J_emb for t in Sj]
            o["DD"] = [t.D_J_emb @ t.D_J_emb.T for t in Sj]
            o["S_J"] = [t.S_J for t in Sj]
            o["lj"] = [t.lam for t in Sj]
            o["g"] = [[float(x) for x in g] for g in gidx]
            o["inv"] = Si if inv else None
            o["rep"] = [float(Sj[g[0]].rep_sj) for g in gidx]
            o["RR"] = Sr @ Sr.T if root else None
            return o

        def goals(I, o):
            p, E = spec(lay)
            St = embed(p, E, o["lam"])
            ng = len(o["at"])
            g = [Goal("terms", float(ng), "==", float(len({e[2] for e in E})))]
            # the transformation of all coefficients
            QQ = np.zeros((p, p), dtype=object)
            for i in range(p):
                QQ[i, i] = 1
            for k in range(ng):
                q = asobj(o["Q"][k])
                a, w = int(o["at"][k]), q.shape[0]
                g += eqs("orthogonal %d" % k, mm(q.T, q), np.eye(w))
                for r in range(int(o["rep"][k])):
                    QQ[a + r * w:a + (r + 1) * w, a + r * w:a + (r + 1) * w] = q
                blk = mm(mm(q.T, St[a:a + w, a:a + w]), q)
                Sr = asobj(o["Srep"][k])
                rk = Sr.shape[0]
                g += eqs("transformed total penalty of term %d" % k, blk[:rk, :rk], Sr)
                rest = [blk[i, j] for i in range(w) for j in range(w) if i >= rk or j >= rk]
                g += eqs("null space of term %d" % k, np.array(rest, dtype=object), np.zeros(len(rest)))
            g += eqs("total penalty", o["S"], mm(mm(QQ.T, St), QQ))
            members = [int(x) for gr in o["g"] for x in gr]
            g.append(Goal("penalties", float(len(members)), "==", float(len(E))))
            order = sorted(range(len(E)), key=lambda k: E[k][2])
            for k in range(len(o["Sj"])):
                nm, e = E[order[k]][:2]
                g += eqs("transformed penalty %d" % k, o["Sj"][k], mm(mm(QQ.T, e.astype(object)), QQ))
                g += eqs("transformed root %d" % k, o["DD"][k], mm(mm(QQ.T, e.astype(object)), QQ))
                g.append(Goal("smoothing parameter %d" % k, o["lj"][k], "==", o["lam"][nm]))
                at, ln = E[order[k]][2], E[order[k]][3]
                sj = asobj(o["S_J"][k])
                full = mm(mm(QQ.T, e.astype(object)), QQ)
                g += eqs("block of transformed penalty %d" % k, sj, full[at:at + len(sj), at:at + len(sj)])
            Srp = asobj(o["S"])
            if o["RR"] is not None:
                g += eqs("root of the total penalty", o["RR"], Srp)
            if inv:
                SI = asobj(o["inv"]) if o["inv"] is not None else np.zeros((p, p), dtype=object)
                for k in range(ng):
                    if inv == 1 and len(o["g"][k]) == 1:
                        continue
                    a, w, rk = int(o["at"][k]), int(o["nc"][k]), asobj(o["Srep"][k]).shape[0]
                    for r in range(int(o["rep"][k])):
                        s = a + r * w
                        g += eqs("inverse of the total penalty of term %d.%d" % (k, r), mm(SI[s:s + rk, s:s + rk], Srp[s:s + rk, s:s + rk]), np.eye(rk))
            return g

        out.append(Case("reparameterization %s inverse=%d%s" % (lay, inv, " root" if root else ""), run, goals, "every smoothing parameter in [1e-2, 1e4]", max_paths=64, generic=True, validate=("Q", "Dj")))

    names = list(LAY) + list(MORE)
    for lay in names:
        layout(lay, 0, False)
        if lay in MORE or deep or lay in ("one", "split", "repeated split", "shared split"):
            layout(lay, 2, True)
            layout(lay, 1, False)

    # ---- whole models, several distribution parameters -----------------------------------------
    # per distribution parameter: number of unpenalized coefficients, then terms (penalties of the term, repeats)
    MOD = {
        "one parameter": [(1, [([dg(1, 0)], 1)])],
        "two parameters": [(1, [([dg(1, 1)], 1)]), (1, [([dg(0, 1)], 1)])],
        "second unpenalized": [(1, [([dg(1, 0)], 1)]), (2, [])],
        "first unpenalized": [(2, []), (1, [([dg(0, 1)], 1)])],
        "middle unpenalized": [(1, [([dg(0, 1)], 1)]), (2, []), (0, [([dg(0, 1)], 1)])],
        "first two unpenalized": [(1, []), (1, []), (1, [([dg(0, 1)], 1)])],
        "no unpenalized": [(0, [([dg(0, 1)], 1)]), (0, [([dg(0, 2)], 1)])],
        "several terms": [(1, [([dg(0, 1)], 1), ([dg(0, 1), dg(1, 0)], 1)]), (1, [([dg(0, 1)], 2)])],
        "repeated": [(1, [([dg(0, 1)], 2)]), (1, [([dg(0, 1)], 1)])],
    }

    def model(name, share=False):
        ds = MOD[name]

        def plan():
            at, P = 0, []
            for d, (up, terms) in enumerate(ds):
                at += up
                for S, rep in terms:
                    for s in S:
                        P.append((d, at, s, rep))
                    at += len(S[0]) * rep
            return at, P

        def run(I):
            p, P = plan()
            nc = [up + sum(len(S[0]) * rep for S, rep in terms) for up, terms in ds]
            raw = []
            for k, (d, at, s, rep) in enumerate(P):
                t = pen(M, I, p, at, s, rep, I.pos("lam_%d" % (0 if share else k), lo=1e-2, hi=1e4), 7 if share else None)
                t.dist_param = d
                raw.append(t)
            pens = M.penalties.combine_shared_penalties(raw)
            b = I.arr("b", (p, 1))
            C = sp(M).csc_array
            Xs = [C(I.arr("X%d" % d, (2, n))) for d, n in enumerate(nc)]
            split = list(np.cumsum(nc)[:-1])
            split = [int(x) for x in split]
            br, Xr, pr, S, Sn, Sr, Si, Qe, Qs = RP.reparam_model(nc, [d[0] for d in ds], b, split, Xs, pens, form_inverse=True, form_root=True, form_balanced=True)
            bs, brs = np.split(b, split), np.split(br, split)
            o = {"b": b, "br": br, "Q": Qe, "S": S, "lam": [t.lam for t in raw], "RR": Sr @ Sr.T, "Sn": Sn, "n": float(len(pr))}
            o["Sj"] = [t.S_J_emb for t in pr]
            o["lj"] = [t.lam for t in pr]
            o["e0"] = [x @ c for x, c in zip(Xs, bs)]
            o["e1"] = [x @ c for x, c in zip(Xr, brs)]
            o["back"] = [q @ c for q, c in zip(Qs, brs)]
            o["bs"] = bs
            return o

        def goals(I, o):
            p, P = plan()
            E = []
            for d, at, s, rep in P:
                e = np.zeros((p, p), dtype=object)
                for r in range(rep):
                    e[at + r * len(s):at + (r + 1) * len(s), at + r * len(s):at + (r + 1) * len(s)] = s
                E.append(e)
            Q = asobj(o["Q"])
            g = eqs("orthogonal", mm(Q.T, Q), np.eye(p))
            St = sum((l * e for l, e in zip(o["lam"], E)), np.zeros((p, p), dtype=object))
            g += eqs("total penalty", o["S"], mm(mm(Q.T, St), Q)) + eqs("root", o["RR"], mm(mm(Q.T, St), Q))
            if share:
                E, L = [sum(E)], o["lam"][:1]
            else:
                L = o["lam"]
            g.append(Goal("penalties", o["n"], "==", float(len(E))))
            for k, e in enumerate(E):
                g += eqs("penalty %d" % k, o["Sj"][k], mm(mm(Q.T, e), Q))
                g.append(Goal("smoothing parameter %d" % k, o["lj"][k], "==", L[k]))
            g += eqs("coefficients", o["br"], mm(Q.T, asobj(o["b"])))
            for d in range(len(ds)):
                g += eqs("linear predictor %d" % d, o["e1"][d], o["e0"][d])
                if d < len(o["back"]):
                    g += eqs("coefficients of parameter %d" % d, o["back"][d], o["bs"][d])
            return g

        out.append(Case("model %s%s" % (name, " shared" if share else ""), run, goals, "every model matrix, coefficient and smoothing parameter", max_paths=64, generic=True, validate=("Q", "br", "RR", "S", "Sj", "Sn")))

    for nm in MOD:
        model(nm)
    for nm in ("two parameters", "middle unpenalized"):
        model(nm, True)

    # ---- penalties that do not commute: up to numerical error -------------------------------------
    NC = {
        "first differences": [np.array([[1.0, -1, 0], [-1, 2, -1], [0, -1, 1]])],
        "two tensor margins": [np.kron([[1.0, -1], [-1, 1]], np.eye(2)), np.kron(np.eye(2), [[1.0, -1], [-1, 1]])],
        "differences and identity": [np.array([[1.0, -1, 0], [-1, 2, -1], [0, -1, 1]]), np.eye(3)],
        "full rank pair": [np.array([[2.0, -1.0], [-1.0, 1.0]]), np.array([[1.0, 0.5], [0.5, 3.0]])],
        "three": [np.array([[1.0, -1, 0], [-1, 1, 0], [0, 0, 0]]), np.array([[0.0, 0, 0], [0, 1, -1], [0, -1, 1]]), np.ones((3, 3))],
    }

    def numeric(name, lams, rep):
        Ss = NC[name]
        k = len(Ss[0])

        def run(I):
            p = 1 + k * rep
            T = [pen(M, I, p, 1, S, rep, l, D=np.zeros((k, k))) for S, l in zip(Ss, lams)]
            b = I.arr("b", (p, 1), lo=-10, hi=10)
            Sj, S, Si, Sr, Srep, gidx, at, nc, Q, Mp = RP.reparam(None, T, None, option=4, form_inverse=2, form_root=True)
            q = Q[0]
            QQ = np.eye(p)
            C = sp(M).csc_array
            qd = q.toarray()
            E = I.const(np.eye(p))
            for r in range(rep):
                E[1 + r * k:1 + (r + 1) * k, 1 + r * k:1 + (r + 1) * k] = qd
            br = C(E).T @ b
            o = {"b": b, "tot": (br.T @ S @ br)[0, 0], "each": [(br.T @ t.S_J_emb @ br)[0, 0] for t in Sj], "len": [(br.T @ br)[0, 0], (b.T @ b)[0, 0]]}
            z = S @ br
            o["inv"] = (z.T @ Si @ z)[0, 0]
            w = Sr.T @ br
            o["root"] = (w.T @ w)[0, 0]
            return o

        def goals(I, o):
            b = asobj(o["b"])
            g = []
            tot = 0
            for j, (S, l) in enumerate(zip(Ss, lams)):
                qf = 0
                for r in range(rep):
                    v = b[1 + r * k:1 + (r + 1) * k]
                    qf = qf + mm(mm(v.T, S.astype(object)), v)[0, 0]
                g += near("penalty %d" % j, [o["each"][j]], [qf], 1e-7)
                tot = tot + l * qf
            for nm in ("tot", "inv", "root"):
                g += near({"tot": "total penalty", "inv": "inverse", "root": "root"}[nm], [o[nm]], [tot], 1e-6 * max(1, max(lams)))
            g += near("length", [o["len"][0]], [o["len"][1]], 1e-7)
            return g

        out.append(Case("numeric %s %s%s" % (name, lams, " x%d" % rep if rep > 1 else ""), run, goals, "every coefficient in [-10, 10]; listed smoothing parameters", generic=True, timeout_ms=20000))

    for name in NC:
        n = len(NC[name])
        for lams in ([2.5, 0.75, 0.3], [0.5, 40.0, 3.0], [1.0, 1.0, 1.0])[:3 if n > 1 else 1]:
            for rep in (1, 2) if name == "full rank pair" and lams[0] == 2.5 else (1,):
                numeric(name, lams[:n], rep)

    # ---- restricted likelihood ---------------------------------------------------------------------
    def reml(lay, flat, scaled, keep=None):
        def run(I):
            p, raw, merged, lam = make(I, lay)
            b = I.arr("b", (p,) if flat else (p, 1))
            # negative Hessian: a factor times its transpose
            L = I.const(np.zeros((p, p)))
            for i in range(p):
                L[i, i] = I.pos("h_%d" % i)
                if i:
                    L[i, 0] = I.real("h_%d_0" % i)
            C = sp(M).csc_array
            nH = C(L) @ C(L).T
            if keep is not None:
                # an unidentifiable coefficient: its rows and columns are zero
                d = nH.toarray()
                for i in range(p):
                    if i not in keep:
                        d[i, :] = 0
                        d[:, i] = 0
                nH = C(d)
            ph = I.pos("phi") if scaled else 1
            r = U.REML(I.real("llk"), nH, b, ph, merged, None if keep is None else np.array(keep))
            r1 = np.asarray(r).reshape(-1)[0]
            return {"r": r1, "b": b, "nH": nH, "phi": ph, "lam": lam, "llk": I.real("llk")}

        def goals(I, o):
            p, E = spec(lay)
            St = embed(p, E, o["lam"])
            b = asobj(o["b"]).reshape(-1, 1)
            ph = o["phi"]
            H = asobj(o["nH"]) + St / ph
            if keep is not None:
                H = H[np.ix_(keep, keep)]
            ds, rk = 1, 0
            for i in range(p):
                if any(e[i, i] for _, e, *_ in E):
                    ds = ds * (St[i, i] / ph)
                    rk += 1
            pi = sym.PI if I.sym else np.pi
            quad = mm(mm(b.T, St), b)[0, 0] / ph
            # on the scale exp(2 * score), free of logarithms
            d = 2 * (o["r"] - o["llk"]) + quad
            return [Goal("restricted likelihood", F.exp(d) * det(H), "==", ds * (2 * pi) ** (p - rk))]

        out.append(Case("restricted likelihood %s%s%s%s" % (lay, " flat" if flat else "", " scale" if scaled else "", " dropped" if keep is not None else ""), run, goals, "every log-likelihood, coefficient, Hessian (arrow pattern), smoothing parameter and scale", generic=True, max_paths=64))

    for lay in ("one", "split", "overlap", "two full", "full and part", "deficient", "overlap deficient", "shared"):
        reml(lay, False, True)
    reml("one", True, True)
    reml("split", False, False)
    reml("repeated split", False, True)
    reml("split", False, True, keep=[0, 1, 3])
    reml("one", False, False, keep=[1, 2])

    # ---- scores of models -----------------------------------------------------------------------
    T, FO, EF = M.terms, M.formula, M.exp_fam

    def score(o, llk, nH, S_, b, ph, rk, I):
        """exp(2 score) det(H + S/phi) = det+(S/phi) (2 pi)^null ...: the obligation for a diagonal total penalty"""
        p = len(b)
        H = nH + S_ / ph
        ds = 1
        for i in range(p):
            if i in rk:
                ds = ds * (S_[i, i] / ph)
        pi = sym.PI if I.sym else np.pi
        d = 2 * (o - llk) + mm(mm(b.T, S_), b)[0, 0] / ph
        return Goal("restricted likelihood", F.exp(d) * det(H), "==", ds * (2 * pi) ** (p - len(rk)))

    def fitted(name, mk, data, fam, rk, phi, drop=None):
        """scores of a model object whose state is arbitrary"""
        def run(I):
            cols = rows_of(I, data)
            n = len(next(iter(cols.values())))
            y = [I.pos("y_%d" % i) for i in range(n)]
            form = FO.Formula(FO.lhs("y"), mk(), frame(I, y=y, **cols), find_nested=False, print_warn=False)
            f_ = fam()
            two = f_.twopar
            m = M.models.GAMM(form, f_)
            pens = M.penalties.combine_shared_penalties(FO.build_penalties(form))
            for i, t in enumerate(pens):
                t.lam = I.pos("lam_%d" % i, lo=1e-2, hi=1e4)
            X = m.get_mmat()
            p = X.shape[1]
            m.overall_penalties = pens
            m.coef = I.arr("b", (p, 1))
            m.scale = I.pos("phi") if two else 1
            m.preds = [(X @ m.coef).reshape(-1, 1) if phi != "pos" else I.arr("eta", (n, 1), kind="pos")]
            m.mus = [f_.link.fi(m.preds[0])]
            L = I.const(np.zeros((p, p)))
            for i in range(p):
                L[i, i] = I.pos("h_%d" % i)
                if i:
                    L[i, 0] = I.real("h_%d_0" % i)
            C = sp(M).csc_array
            nH = C(L) @ C(L).T
            if drop is not None:
                d = nH.toarray()
                d[drop, :] = 0
                d[:, drop] = 0
                nH = C(d)
            m.hessian = nH * -1.0
            m.hessian_obs = nH * -1.0
            m.Wr = C(np.eye(n)) if not isinstance(f_, EF.Gaussian) else None
            m.info = M.custom_types.Fit_info()
            m.info.dropped = None if drop is None else [drop]
            S_ = sum((t.S_J_emb * t.lam for t in pens[1:]), pens[0].S_J_emb * pens[0].lam)
            o = {"nH": nH, "S": S_, "b": m.coef, "phi": m.scale, "llk": m.get_llk(False), "y": np.array(y, dtype=object if I.sym else float).reshape(-1, 1), "mu": m.mus[0]}
            m.penalty = (m.coef.T @ S_ @ m.coef)
            o["pllk"] = m.get_llk(True)
            o["pen"] = m.penalty
            o["reml"] = m.get_reml()
            o["ref"] = f_.llk(o["y"], o["mu"], m.scale) if two else f_.llk(o["y"], o["mu"])
            return o

        def goals(I, o):
            b = asobj(o["b"]).reshape(-1, 1)
            nH, S_ = asobj(o["nH"]), asobj(o["S"])
            r = list(rk)
            if drop is not None:
                pass
            g = [Goal("log-likelihood", o["llk"], "==", o["ref"])]
            if drop is None:
                g.append(score(o["reml"], o["llk"], nH, S_, b, o["phi"], rk, I))
            else:
                kp = [i for i in range(len(b)) if i != drop]
                H = (nH + S_ / o["phi"])[np.ix_(kp, kp)]
                pi = sym.PI if I.sym else np.pi
                ds = 1
                for i in rk:
                    ds = ds * (S_[i, i] / o["phi"])
                d = 2 * (o["reml"] - o["llk"]) + mm(mm(b.T, S_), b)[0, 0] / o["phi"]
                g.append(Goal("restricted likelihood", F.exp(d) * det(H), "==", ds * (2 * pi) ** (len(b) - len(rk))))
            return g

        out.append(Case("score of a model %s" % name, run, goals, "every coefficient, Hessian (arrow pattern), smoothing parameter and scale", generic=True, max_paths=32))

    ri = (lambda: [T.i(), T.ri("g")], {"g": ["a", "b", "a"]})
    fitted("gaussian", *ri, lambda: EF.Gaussian(), (1, 2), "any")
    fitted("gamma", *ri, lambda: EF.Gamma(EF.LOG()), (1, 2), "any")
    fitted("poisson", *ri, lambda: EF.Poisson(), (1, 2), "any")
    fitted("gaussian dropped", lambda: [T.i(), T.l(["x"]), T.ri("g")], {"g": ["a", "b", "a"], "x": [1, 2, 4]}, lambda: EF.Gaussian(), (2, 3), "any", drop=1)

    def candidate(name, data, offset, inv):
        """score of candidate smoothing parameters: that of the model fitted with them"""
        def run(I):
            cols = rows_of(I, data)
            n = len(next(iter(cols.values())))
            y = [I.real("y_%d" % i) for i in range(n)]
            form = FO.Formula(FO.lhs("y"), [T.i(), T.ri("g")], frame(I, y=y, **cols), find_nested=False, print_warn=False)
            m = M.models.GAMM(form, EF.Gaussian())
            pens = M.penalties.combine_shared_penalties(FO.build_penalties(form))
            for i, t in enumerate(pens):
                t.lam = I.pos("lam_%d" % i)
            X, yy = m.get_mmat(), m.get_ys()
            off = I.arr("off", (n, 1)) if offset == "vec" else I.real("off") if offset == "scalar" else 0
            calls = []
            orig = U.REML

            def reml_(llk, nH, coef, scale, penalties, keep=None):
                v = I.real("R") if I.sym else orig(llk, nH, coef, scale, penalties, keep)
                calls.append((llk, nH, coef, scale, [t.lam for t in penalties], keep, v))
                return v

            U.REML = reml_
            try:
                r, Li, LP, Pr, b, ph, edf, llk = U.compute_reml_candidate_GAMM(EF.Gaussian(), yy, X, pens, 1, off, None, "Chol", inv)
            finally:
                U.REML = orig
            o = {"r": np.asarray(r).reshape(-1)[0], "b": b, "phi": ph, "edf": edf, "llk": llk, "X": X, "y": yy, "S": pens[0].S_J_emb * pens[0].lam}
            o["off"] = off
            o["V"] = Li.T @ Li if inv else None
            o["lam"] = [t.lam for t in pens]
            if len(calls) == 1:
                # the criterion itself is decided above for all of its arguments: here, that it gets those of this model
                o["arg"] = [calls[0][0], calls[0][1], calls[0][2], calls[0][3], calls[0][4]]
                o["keep"] = calls[0][5] is not None
                o["R"] = np.asarray(calls[0][6]).reshape(-1)[0]
            return o

        def goals(I, o):
            X, S_, y = asobj(o["X"]), asobj(o["S"]), asobj(o["y"]).reshape(-1, 1)
            n, p = X.shape
            off = asobj(o["off"]).reshape(-1, 1) if offset == "vec" else np.array([[o["off"]]] * n, dtype=object)
            b = asobj(o["b"]).reshape(-1, 1)
            XX = mm(X.T, X)
            A = XX + S_
            g = eqs("normal equations", mm(A, b), mm(X.T, y - off))
            if inv:
                g += eqs("covariance", mm(asobj(o["V"]), A), np.eye(p))
                F_ = mm(asobj(o["V"]), XX)
                g.append(Goal("degrees of freedom", o["edf"], "==", sum(F_[i, i] for i in range(p))))
            rs = y - off - mm(X, b)
            g.append(Goal("scale", o["phi"] * (n - o["edf"]), "==", mm(rs.T, rs)[0, 0]))
            pi = sym.PI if I.sym else np.pi
            # with the scale just shown, RSS/scale is n - edf
            g.append(Goal("log-likelihood", o["llk"], "==", -F.log(2 * pi * o["phi"]) * n / 2 - (n - o["edf"]) / 2))
            if "arg" in o:
                a = o["arg"]
                g += [Goal("criterion: value", o["r"], "==", o["R"]), Goal("criterion: log-likelihood", a[0], "==", o["llk"]), Goal("criterion: scale", a[3], "==", o["phi"]), Goal("criterion: all coefficients", float(o["keep"]), "==", 0.0)]
                g += eqs("criterion: curvature", asobj(a[1]) * o["phi"], XX) + eqs("criterion: coefficients", asobj(a[2]).reshape(-1, 1), b)
                g += [Goal("criterion: smoothing parameter %d" % i, x, "==", y_) for i, (x, y_) in enumerate(zip(a[4], o["lam"]))]
            else:
                g.append(score(o["r"], o["llk"], XX / o["phi"], S_, b, o["phi"], list(range(1, p)), I))
            return g

        out.append(Case("candidate %s" % name, run, goals, "every response, offset and smoothing parameter", generic=True, max_paths=32, timeout_ms=30000, validate=("r", "R")))

    two, three = {"g": ["a", "b", "a"]}, {"g": ["a", "b", "a", "b"]}
    candidate("plain", two, None, True)
    candidate("offset", two, "scalar", True)
    candidate("offset per row", two, "vec", False)
    if deep:
        candidate("plain larger", three, None, True)
    return out
