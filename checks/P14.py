"""Model matrices: the columns of every term, the coefficient layout, prediction on new data."""
import numpy as np
from engine.case import Case, Goal, eqs, dense, F
from checks.P02 import sp
from checks.frame import frame
from checks import forms

EXTS = []
ASSUMPTIONS = ["basis values that are not identically zero are taken to be nonzero (a zero entry is not stored, which leaves the matrix unchanged)",
               "scipy.linalg.qr of one column is the Householder reflection of LAPACK"]

NAN = float("nan")


def rows_of(I, spec, pre=""):
    """spec: column -> list of constants, strings, 'u' (unknown in the range of the column), '*' (any real)"""
    out = {}
    for c, vals in spec.items():
        r = []
        nums = [v for v in vals if not isinstance(v, str)]
        for i, v in enumerate(vals):
            if v == "u":
                r.append(I.real("%s%s_%d" % (pre, c, i), lo=min(nums), hi=max(nums)))
            elif v == "*":
                r.append(I.real("%s%s_%d" % (pre, c, i)))
            else:
                r.append(v)
        out[c] = r
    return out


def cases(tier, M):
    out = []
    T, FO, CT = M.terms, M.formula, M.custom_types
    deep = tier == "thorough"
    DEG = {}

    def case(name, mk, data, new=None, deg=2, y_nan=(), **kw):
        """mk(): terms; data, new: column specifications"""
        def run(I):
            cols = rows_of(I, data)
            n = len(next(iter(cols.values())))
            y = [NAN if i in y_nan else I.real("y_%d" % i) for i in range(n)]
            terms = mk(I) if kw.get("irf") else mk()
            form = FO.Formula(FO.lhs("y"), terms, frame(I, y=y, **cols), find_nested=False, print_warn=False,
                              series_id="s" if kw.get("irf") else None)
            o = {"cols": cols, "y": y}
            FO.build_penalties(form)
            X = FO.build_model_matrix(form)
            o["X"] = X
            o["n_coef"] = float(form.n_coef)
            o["names"] = float(len(form.coef_names))
            o["unique"] = float(len(set(form.coef_names)))
            o["per"] = [float(v) for v in form.coef_per_term]
            o["idx"] = [[float(v) for v in a] for a in form.coef_idx_per_term]
            o["unp"] = float(form.unpenalized_coef)
            m = M.models.GAMM(form, M.exp_fam.Gaussian())
            o["mm"] = m.get_mmat()
            o["sub"] = [FO.build_model_matrix(form, use_only=[ti]) for ti in range(len(terms))]
            b = I.arr("b", (form.n_coef, 1))
            m.coef = b
            m.scale = I.pos("scale")
            m.lvi = sp(M).csc_array(I.arr("LI", (form.n_coef, form.n_coef))) if kw.get("ci") else None
            o["b"] = b
            pc, pm, pb = m.predict(None, frame(I, **cols))
            o["pred"], o["pmat"] = pc, pm
            if new is not None:
                nc = rows_of(I, new, "n")
                o["ncols"] = nc
                p2, m2, _ = m.predict(None, frame(I, **nc))
                o["npred"], o["nmat"] = p2, m2
                o["nsub"] = [m.predict([ti], frame(I, **nc))[0] for ti in range(len(terms))]
            self_terms[name, I.sym] = terms
            return o

        def goals(I, o):
            terms = self_terms[name, I.sym]
            cols = o["cols"]
            rng = {c: (min(x for x in data[c] if not isinstance(x, str)), max(x for x in data[c] if not isinstance(x, str)))
                   for c in data if not any(isinstance(x, str) and x not in ("u", "*") for x in data[c]) and any(not isinstance(x, str) for x in data[c])}
            if I.sym:
                from fractions import Fraction
                rng = {c: (Fraction(a).limit_denominator(1000), Fraction(b).limit_denominator(1000)) for c, (a, b) in rng.items()}
            full = forms.Data(cols, rng=rng)
            keep = [i for i in range(full.n) if i not in y_nan]
            blocks, order = forms.matrix(M, terms, full, deg)
            blocks = {ti: [[c[i] for i in keep] for c in b] for ti, b in blocks.items()}
            A = [c for ti in order for c in blocks[ti]]
            nc = len(A)
            g = [Goal("number of coefficients", o["n_coef"], "==", float(nc)), Goal("number of names", o["names"], "==", float(nc)),
                 Goal("distinct names", o["unique"], "==", float(nc))]
            if o["n_coef"] != nc:
                return g
            at = 0
            pos = {}
            for ti in order:
                pos[ti] = list(range(at, at + len(blocks[ti])))
                at += len(blocks[ti])
                g.append(Goal("coefficients of term %d" % ti, o["per"][ti], "==", float(len(blocks[ti]))))
                g += eqs("indices of term %d" % ti, np.array(o["idx"][ti]), np.array(pos[ti], dtype=float))
            Xs = np.empty((len(keep), nc), dtype=object)
            for j, c in enumerate(A):
                for i in range(len(keep)):
                    Xs[i, j] = c[i]
            X = dense(o["X"])
            g += eqs("X", X, Xs) + eqs("get_mmat", o["mm"], X)
            if X.shape != Xs.shape:
                return g
            for ti in order:
                Z = np.zeros_like(Xs)
                Z[:, pos[ti]] = X[:, pos[ti]]
                g += eqs("only term %d" % ti, o["sub"][ti], Z)
            # sum-to-zero constraint
            for ti in order:
                t = terms[ti]
                if isinstance(t, T.f) and t.is_identifiable and t._const_type == CT.ConstType.QR and t.by is None and t.by_cont is None and \
                        (len(t.variables) == 1 or t.te) and t.drop_coef is None and t.should_rp == 0:
                    for j in pos[ti]:
                        s = X[0, j]
                        for i in range(1, len(keep)):
                            s = s + X[i, j]
                        lab = "column %d of smooth sums to zero over the data" % j
                        # (constraints on constant data are evaluated in floats)
                        g += [Goal(lab, s, "<=", 1e-9), Goal(lab, s, ">=", -1e-9)] if t.te or not any("u" in data[v] for v in t.variables) else [Goal(lab, s, "==", 0)]
            # prediction
            b = o["b"][:, 0]
            fb, _ = forms.matrix(M, terms, full, deg)
            FA = [c for ti in order for c in fb[ti]]
            PM = dense(o["pmat"])
            g += eqs("matrix for the same data", PM[keep], X)
            for i in range(full.n):
                e = 0
                for j in range(nc):
                    e = e + PM[i, j] * b[j]
                g.append(Goal("prediction %d" % i, np.asarray(o["pred"]).reshape(-1)[i], "==", e))
            if new is not None:
                nd = full.new(o["ncols"])
                nb, _ = forms.matrix(M, terms, nd, deg)
                NM = dense(o["nmat"])
                NS = np.empty((nd.n, nc), dtype=object)
                for j, c in enumerate([c for ti in order for c in nb[ti]]):
                    for i in range(nd.n):
                        NS[i, j] = c[i]
                g += eqs("new data X", NM, NS)
                for i in range(nd.n):
                    parts = [np.asarray(o["nsub"][ti]).reshape(-1)[i] for ti in order]
                    tot = parts[0]
                    for x in parts[1:]:
                        tot = tot + x
                    g.append(Goal("terms add up to the prediction %d" % i, tot, "==", np.asarray(o["npred"]).reshape(-1)[i]))
            return g

        out.append(Case(name, run, goals, "every value of the unknown covariates; %d rows%s" % (
            len(next(iter(data.values()))), ", %d new rows" % len(next(iter(new.values()))) if new else ""), generic=True,
            max_paths=kw.get("max_paths", 64), timeout_ms=30000))

    self_terms = {}
    G4 = ["a", "b", "a", "c"]
    H4 = ["k", "k", "m", "m"]
    # linear terms
    case("intercept and slopes", lambda: [T.i(), T.l(["z"]), T.l(["w"]), T.l(["z", "w"])],
         {"z": ["*", "*"], "w": ["*", "*"]}, {"z": ["*"], "w": ["*"]})
    case("slope and interaction", lambda: [T.l(["z"]), T.i(), T.l(["z", "w"])],
         {"z": ["*", 0.0, 1.0], "w": [2.0, "*", -1.0]}, {"z": ["*"], "w": ["*"]})
    case("factor, dummy coded", lambda: [T.i(), T.l(["g"]), T.l(["z"]), T.l(["g", "z"]), T.l(["g", "h"])],
         {"z": ["*"] * 4, "g": G4, "h": H4}, {"z": ["*"] * 3, "g": ["c", "a", "b"], "h": ["m", "k", "m"]})
    case("factor without intercept", lambda: [T.l(["z"]), T.l(["g"]), T.l(["h"]), T.l(["h", "g", "z"])],
         {"z": ["*"] * 4, "g": G4, "h": H4}, {"z": ["*"], "g": ["b"], "h": ["m"]})
    case("linear interactions helper", lambda: [T.i()] + T.li(["g", "z", "h"]), {"z": ["*"] * 4, "g": G4, "h": H4}, {"z": ["*"], "g": ["b"], "h": ["m"]})
    # random terms
    case("random intercept and slopes", lambda: [T.i(), T.ri("g"), T.rs(["z"], by="g"), T.rs(["h"], by="g"), T.rs(["h"])],
         {"z": ["*"] * 4, "g": G4, "h": H4}, {"z": ["*"] * 2, "g": ["c", "b"], "h": ["m", "k"]}, y_nan=(2,))
    case("random slope interaction", lambda: [T.i(), T.rs(["z", "h"], by="g"), T.rs(["g", "z"])],
         {"z": ["*"] * 4, "g": G4, "h": H4}, {"z": ["*"] * 2, "g": ["c", "b"], "h": ["m", "k"]})
    # smooths
    X4 = [0.0, 1.0, "u", 0.25]
    for con in ("QR", "DROP", "DIFF"):
        ct = getattr(CT.ConstType, con)
        case("smooth %s" % con, lambda ct=ct: [T.i(), T.f(["x"], nk=3, constraint=ct, basis_kwargs={"deg": 2})],
             {"x": X4}, {"x": ["u", 0.0, 1.0] if False else [0.0, 1.0, "u"]}, y_nan=() if con != "QR" else (3,))
        case("smooth by factor %s" % con, lambda ct=ct: [T.i(), T.l(["g"]), T.f(["x"], nk=2, by="g", constraint=ct, basis_kwargs={"deg": 2})],
             {"x": X4, "g": G4}, {"x": [0.0, 1.0, "u"], "g": ["a", "c", "b"]})
        case("tensor interaction %s" % con, lambda ct=ct: [T.i(), T.f(["x", "w"], nk=[2, 1], rp=0, scale_te=False, constraint=ct, basis_kwargs={"deg": 1})],
             {"x": [0.0, 1.0, 0.25 if con == "QR" else "u"], "w": [-1.0, 0.0, 1.0]}, {"x": [0.0, 1.0, "u"], "w": [0.5, -1.0, 1.0]}, deg=1)
        case("tensor smooth %s" % con, lambda ct=ct: [T.i(), T.f(["x", "w"], nk=[3, 3], te=True, rp=0, scale_te=False, constraint=ct, basis_kwargs={"deg": 1})],
             {"x": [0.0, 1.0, 0.25 if con == "QR" else "u"], "w": [-1.0, 0.5, 1.0]}, {"x": [0.0, 1.0, "u"], "w": [0.5, -1.0, 1.0]}, deg=1)
    case("smooth degree 3", lambda: [T.i(), T.f(["x"], nk=4)], {"x": X4}, {"x": [0.0, 1.0, "u"]}, deg=3)
    case("smooth not constrained", lambda: [T.f(["x"], nk=4, identifiable=False, basis_kwargs={"deg": 2}), T.ri("g")], {"x": X4, "g": G4}, {"x": [0.0, 1.0, "u"], "g": ["a", "c", "b"]})
    case("binary smooth", lambda: [T.i(), T.f(["x"], nk=3, basis_kwargs={"deg": 2}), T.f(["x"], nk=3, binary=("g", "b"), basis_kwargs={"deg": 2})],
         {"x": [0.0, "u", 1.0], "g": ["a", "b", "b"]}, {"x": [0.0, "u", 1.0], "g": ["b", "b", "a"]})
    case("varying coefficient", lambda: [T.i(), T.f(["x"], nk=3, by_cont="z", identifiable=False, basis_kwargs={"deg": 2}), T.f(["x"], nk=3, by_cont="z", by="g", identifiable=False, basis_kwargs={"deg": 2})],
         {"x": X4, "z": ["*"] * 4, "g": G4}, {"x": [0.0, 1.0, "u"], "z": ["*"] * 3, "g": ["a", "c", "b"]})
    case("factor smooth", lambda: [T.i(), T.fs(["x"], rf="g", nk=3, m=1, rp=0, basis_kwargs={"deg": 2})], {"x": X4, "g": G4}, {"x": [0.0, 1.0, "u"], "g": ["a", "c", "b"]})

    # impulse response smooths: two series of 3 and 4 samples, response range unknown
    def irf(by=None, pen=True, after=False):
        def mk(I):
            w = I.real("w", lo=5, hi=6)
            t = [T.i(), T.irf(["t"], [1, 0], [{"max_c": w, "min_c": 0 * w, "convolve": True, "deg": 1}], nk=3, by=by, is_penalized=pen), T.l(["z"])]
            return t + [T.f(["x"], nk=2, basis_kwargs={"deg": 1}), T.ri("s")] if after else t
        return mk

    IR = {"t": [0.0, 1.0, 2.0, 0.0, 1.0, 2.0, 3.0], "s": ["p"] * 3 + ["q"] * 4, "z": ["*", 1.0, 0.0, 2.0, -1.0, 1.0, 0.0]}
    case("impulse response", irf(), IR, irf=True)
    case("impulse response with missing response", irf(after=True), dict(IR, x=[0.0, 1.0, 0.5, 0.375, 0.25, 0.125, 0.75]), irf=True, y_nan=(2, 4), deg=1)
    case("impulse response by factor", irf(by="k"), dict(IR, k=["v"] * 3 + ["u_"] * 4), irf=True)
    case("impulse response not penalized", irf(pen=False, after=True), dict(IR, x=[0.0, 1.0, 0.5, "u", 0.25, 0.125, 0.75]), irf=True, deg=1)

    def dropped(drop, **k):
        def mk():
            t = T.f(["x"], nk=4, identifiable=False, basis_kwargs={"deg": 2}, **k)
            t.drop_coef = drop
            return [T.i(), t]
        return mk

    case("dropped columns", dropped([1]), {"x": X4}, {"x": [0.0, 1.0, "u"]})
    case("dropped columns 0 2", dropped([0, 2]), {"x": X4}, {"x": [0.0, 1.0, "u"]})
    case("dropped columns by factor", dropped([1, 4, 11], by="g"), {"x": X4, "g": G4}, {"x": [0.0, 1.0, "u"], "g": ["a", "c", "b"]})
    case("dropped columns by factor, shared", dropped([1, 4, 11], by="g", id=1), {"x": X4, "g": G4}, {"x": [0.0, 1.0, "u"], "g": ["a", "c", "b"]})
    return out
