"""Sparse factorizations and linear solves behind every fit."""
import numpy as np
from engine.case import Case, Goal, eqs, dense
from checks.P02 import sp

EXTS = ["eigen_solvers"]
ASSUMPTIONS = []


def mm(A, B):
    n, k = A.shape
    m = B.shape[1]
    C = np.empty((n, m), dtype=object)
    for i in range(n):
        for j in range(m):
            e = 0
            for l in range(k):
                e = e + A[i, l] * B[l, j]
            C[i, j] = e
    return C


def permuted(A, P):
    """P A P' for Eigen's permutation indices P: (P x)[P[i]] = x[i]"""
    n = A.shape[0]
    C = np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            C[P[i], P[j]] = A[i, j]
    return C


def filled(I, name, n, m, pat, sym=False, pos=False):
    """matrix with unknown entries at the pattern (1), zero elsewhere"""
    A = np.zeros((n, m), dtype=object if I.sym else float)
    if I.sym:
        from engine.sym import const
        A[:] = const(0)
    for i in range(n):
        for j in range(m):
            if pat[i][j]:
                A[i, j] = I.var("%s_%d_%d" % (name, i, j), "pos" if pos and i == j else "real") if not sym or j <= i else 0
    if sym:
        for i in range(n):
            for j in range(i + 1, n):
                A[i, j] = A[j, i]
    if I.sym:
        from engine import shim
        A = A.view(shim.SymArray)
    return A


PATS = {
    "dense1": [[1]], "dense2": [[1, 1], [1, 1]], "dense3": [[1] * 3] * 3,
    "arrow3": [[1, 1, 1], [1, 1, 0], [1, 0, 1]], "tri3": [[1, 1, 0], [1, 1, 1], [0, 1, 1]],
    "diag3": [[1, 0, 0], [0, 1, 0], [0, 0, 1]],
    "arrow4": [[1, 1, 1, 1], [1, 1, 0, 0], [1, 0, 1, 0], [1, 0, 0, 1]],
    "tri4": [[1, 1, 0, 0], [1, 1, 1, 0], [0, 1, 1, 1], [0, 0, 1, 1]],
    "star4": [[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1], [1, 1, 1, 1]],
}
XP = {
    "x3x2": [[1, 1], [1, 1], [1, 1]], "x3x2s": [[1, 0], [1, 1], [0, 1]], "x4x3s": [[1, 1, 0], [1, 0, 1], [1, 1, 0], [1, 0, 1]],
    "x2x2": [[1, 1], [0, 1]], "x3x3s": [[1, 0, 0], [1, 1, 0], [1, 0, 1]],
}


SPEN = {"none2": None, "none3": None, "diag2": [[1, 0], [0, 1]], "one3": [[0, 0, 0], [0, 1, 0], [0, 1, 0]]}


def cases(tier, M):
    out = []
    MS = M.matrix_solvers
    deep = tier == "thorough"

    def C(A):
        return sp(M).csc_array(A)

    # Cholesky factors of any symmetric matrix
    def chol(pat, perm):
        P0 = PATS[pat]
        n = len(P0)

        def run(I):
            A = filled(I, "a", n, n, P0, sym=True)
            if perm:
                L, P, code = MS.cpp_cholP(C(A))
                return {"A": A, "L": L, "P": [int(x) for x in P], "code": float(code)}
            L, code = MS.cpp_chol(C(A))
            return {"A": A, "L": L, "P": list(range(n)), "code": float(code)}

        def goals(I, o):
            A = np.asarray(o["A"])
            P = [int(x) for x in o["P"]]
            g = [Goal("permutation", float(sorted(P) == list(range(n))), "==", 1.0)]
            pd = minors_pos(permuted(A, P), n)
            if o["code"] == 0:
                L = dense(o["L"])
                for i in range(n):
                    for j in range(i + 1, n):
                        g.append(Goal("L[%d,%d] above the diagonal" % (i, j), L[i, j], "==", 0))
                    g.append(Goal("L[%d,%d] positive" % (i, i), L[i, i], ">", 0))
                g += eqs("L L'", mm(L, L.T), permuted(A, P))
            else:
                # reported as failed: some leading minor is not positive
                g.append(Goal("failure without cause", float(pd), "==", 0.0) if isinstance(pd, bool) else pd)
            return g

        return Case("%s %s" % ("permuted cholesky" if perm else "cholesky", pat), run, goals, "every symmetric %dx%d matrix of this pattern" % (n, n), max_paths=32)

    def det(A):
        n = A.shape[0]
        if n == 1:
            return A[0, 0]
        s = 0
        for j in range(n):
            if not isinstance(A[0, j], (int, float)) or A[0, j] != 0:
                m = np.delete(np.delete(A, 0, 0), j, 1)
                s = s + (1 if j % 2 == 0 else -1) * A[0, j] * det(m)
        return s

    def minors_pos(A, n):
        """goal: not all leading minors are positive"""
        ok = True
        for k in range(1, n + 1):
            d = det(A[:k, :k])
            if not bool(d > 0):
                ok = False
                break
        return ok

    for p in ["dense1", "dense2", "dense3", "arrow3", "tri3", "diag3"] + (["arrow4", "tri4", "star4"]):
        out.append(chol(p, False))
        out.append(chol(p, True))

    def xs(I, xp, sp_):
        """X with pattern xp and a penalty S = D D' (so X'X + S has a Cholesky factor)"""
        X0 = XP[xp]
        n, m = len(X0), len(X0[0])
        X = filled(I, "x", n, m, X0)
        D = filled(I, "d", m, m, sp_ if sp_ is not None else [[0] * m for _ in range(m)])
        S_ = mm(np.asarray(D), np.asarray(D).T)
        if I.sym:
            from engine import shim
            S_ = S_.view(shim.SymArray)
        else:
            S_ = S_.astype(float)
        return X, D, S_

    def gram(X, S_):
        X = np.asarray(X)
        return mm(X.T, X) + np.asarray(S_)

    # coefficients and factors of the penalized normal equations
    def normal(xp, spn, fn):
        sp_ = SPEN[spn]

        def run(I):
            X, D, S_ = xs(I, xp, sp_)
            y = I.arr("y", X.shape[0])
            A = gram(X, S_)
            o = {"A": A, "X": X, "y": y}
            Ac = A.view(type(X)) if I.sym else A.astype(float)
            if fn == "solve_am":
                o["Li"], o["P"], o["b"], o["code"] = MS.cpp_solve_am(y, C(X), C(S_))
            elif fn == "solve_coef":
                o["L"], o["P"], o["b"], o["code"] = MS.cpp_solve_coef(y, C(X), C(S_))
            elif fn == "solve_coefXX":
                Xy = mm(np.asarray(X).T, np.asarray(y).reshape(-1, 1)).reshape(-1)
                o["L"], o["P"], o["b"], o["code"] = MS.cpp_solve_coefXX(Xy.view(type(X)) if I.sym else Xy.astype(float), C(Ac))
            elif fn == "solve_L":
                o["Li"], o["P"], o["code"] = MS.cpp_solve_L(C(X), C(S_))
            elif fn == "solve_LXX":
                o["Li"], o["P"], o["code"] = MS.cpp_solve_LXX(C(Ac))
            o["P"] = [int(x) for x in o["P"]]
            o["code"] = float(o["code"])
            return o

        def goals(I, o):
            A = np.asarray(o["A"])
            n = A.shape[0]
            P = o["P"]
            g = [Goal("permutation", float(sorted(P) == list(range(n))), "==", 1.0)]
            if o["code"] != 0:
                if n > 2:
                    return g  # when a factorization fails is decided by the cholesky cases and n <= 2
                ok = minors_pos(permuted(A, P), n)
                return g + [Goal("failure without cause", float(ok), "==", 0.0)]
            if "b" in o:
                Xy = mm(np.asarray(o["X"]).T, np.asarray(o["y"]).reshape(-1, 1))
                g += eqs("normal equations", mm(A, np.asarray(o["b"]).reshape(-1, 1)), Xy)
            PA = permuted(A, P)
            if "L" in o:
                L = dense(o["L"])
                for i in range(n):
                    for j in range(i + 1, n):
                        g.append(Goal("L[%d,%d] above the diagonal" % (i, j), L[i, j], "==", 0))
                g += eqs("L L'", mm(L, L.T), PA)
            if "Li" in o:
                Li = dense(o["Li"])
                for i in range(n):
                    for j in range(i + 1, n):
                        g.append(Goal("inverse L[%d,%d] above the diagonal" % (i, j), Li[i, j], "==", 0))
                U = dense(MS.apply_eigen_perm(P, o["Li"]))
                g += eqs("V A", mm(mm(U.T, U), A), np.eye(n))
            return g

        return Case("%s %s %s" % (fn, xp, spn), run, goals, "every X and penalty root of these patterns, every y", max_paths=32, generic=True)

    # stable QR route: X stacked on a penalty root E (S = E'E), columns ordered by P1 then pivoted by P2
    def qr(xp, spn):
        sp_ = SPEN[spn]

        def run(I):
            X0 = XP[xp]
            n, m = len(X0), len(X0[0])
            X = filled(I, "x", n, m, X0)
            E = filled(I, "e", m, m, sp_ if sp_ is not None else [[0] * m for _ in range(m)])
            y = I.arr("y", n)
            R, P1, P2, b, rank, code = MS.cpp_solve_coef_pqr(y, C(X), C(E))
            return {"X": X, "E": E, "y": y, "R": R, "P1": [int(x) for x in P1], "P2": [int(x) for x in P2], "b": b, "rank": float(rank), "code": float(code)}

        def goals(I, o):
            X, E, R = np.asarray(o["X"]), np.asarray(o["E"]), dense(o["R"])
            m = X.shape[1]
            g = [Goal("success", o["code"], "==", 0.0)]
            r = int(o["rank"])
            P1, P2 = o["P1"], o["P2"]
            g.append(Goal("orderings", float(sorted(P1) == sorted(P2) == list(range(m))), "==", 1.0))
            A = mm(X.T, X) + mm(E.T, E)
            # column k of the factorized matrix is column P1[P2[k]]
            o_ = [P1[P2[k]] for k in range(m)]
            K = o_[:r]
            for i in range(r):
                for j in range(i):
                    g.append(Goal("R[%d,%d] below the diagonal" % (i, j), R[i, j], "==", 0))
            g += eqs("R'R", mm(R.T, R), A[np.ix_(K, K)])
            Xy = mm(X.T, np.asarray(o["y"]).reshape(-1, 1))
            g += eqs("normal equations", mm(A[np.ix_(K, K)], np.asarray(o["b"]).reshape(-1, 1)), Xy[K, :])
            if r == m or not I.sym:
                g.append(Goal("rank", o["rank"], "==", float(m)))
            return g

        return Case("qr %s %s" % (xp, spn), run, goals, "every X and penalty root of these patterns, every y", max_paths=32, generic=True)

    for a, b in [("x3x2s", "none2"), ("x3x2s", "diag2"), ("x2x2", "none2"), ("x2x2", "diag2")]:
        out.append(qr(a, b))

    for fn in ["solve_am", "solve_coef", "solve_coefXX", "solve_L", "solve_LXX"]:
        out.append(normal("x3x2", "none2", fn))
        out.append(normal("x3x2s", "diag2", fn))
        out.append(normal("x4x3s", "none3", fn))
        if deep:
            out.append(normal("x3x3s", "one3", fn))
            if fn not in ("solve_coef", "solve_coefXX"):
                out.append(normal("x4x3s", "one3", fn))

    # triangular solves
    def tri(n, m, up, pat):
        def run(I):
            T = [[1 if (i <= j if up else j <= i) and pat(i, j) else 0 for j in range(n)] for i in range(n)]
            A = filled(I, "t", n, n, T, pos=True)
            B = filled(I, "c", n, m, [[(i + j) % 3 != 1 for j in range(m)] for i in range(n)])
            f = MS.cpp_backsolve_tr if up else MS.cpp_solve_tr
            return {"A": A, "B": B, "X": f(C(A), C(B))}

        def goals(I, o):
            return eqs("A X", mm(np.asarray(o["A"]), dense(o["X"])), np.asarray(o["B"]))

        return Case("%s %dx%d" % ("upper solve" if up else "lower solve", n, m), run, goals, "every nonsingular triangular matrix and right-hand side", generic=True)

    for n, m in [(1, 1), (2, 3), (3, 2), (4, 2)]:
        for up in (False, True):
            out.append(tri(n, m, up, lambda i, j: True))
    out.append(tri(5, 2, False, lambda i, j: i == j or j == 0 or i == 4))
    out.append(tri(5, 2, True, lambda i, j: i == j or i == 0 or j == 4))

    def linv(n):
        def run(I):
            A = filled(I, "t", n, n, [[1 if j <= i else 0 for j in range(n)] for i in range(n)], pos=True)
            return {"A": A, "Li": MS.compute_Linv(C(A))}

        def goals(I, o):
            return eqs("L Linv", mm(np.asarray(o["A"]), dense(o["Li"])), np.eye(n))

        return Case("inverse of a triangular factor %d" % n, run, goals, "every nonsingular lower triangular matrix", generic=True)

    for n in (1, 2, 3, 4):
        out.append(linv(n))

    def perm(P):
        n = len(P)

        def run(I):
            A = I.arr("a", (n, n))
            return {"A": A, "B": MS.apply_eigen_perm(P, C(A)), "C": MS.compute_eigen_perm(P)}

        def goals(I, o):
            A = np.asarray(o["A"])
            B = np.empty((n, n), dtype=object)
            E = np.zeros((n, n))
            for c in range(n):
                B[:, c] = A[:, P[c]]
                E[P[c], c] = 1.0
            return eqs("columns", dense(o["B"]), B) + eqs("permutation", dense(o["C"]), E)

        return Case("permutation %s" % P, run, goals, "every matrix")

    for P in [[0, 1], [1, 0], [1, 2, 0], [2, 0, 1], [2, 0, 3, 1]]:
        out.append(perm(P))

    def trans(xp):
        X0 = XP[xp]

        def run(I):
            A = filled(I, "a", len(X0), len(X0[0]), X0)
            d, r, c = MS.translate_sparse(C(A))
            return {"A": A, "d": list(d), "r": [int(x) for x in r], "c": [int(x) for x in c]}

        def goals(I, o):
            A = np.asarray(o["A"])
            g = [Goal("entries", float(len(o["d"])), "==", float(sum(map(sum, X0))))]
            return g + [Goal("entry %d" % k, o["d"][k], "==", A[o["r"][k], o["c"][k]]) for k in range(len(o["d"]))] + \
                [Goal("positions", float(len(set(zip(o["r"], o["c"])))), "==", float(len(o["d"])))]

        return Case("triplets of %s" % xp, run, goals, "every matrix of this pattern")

    for x in XP:
        out.append(trans(x))
    return out
