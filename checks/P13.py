"""Penalty matrices: quadratic form, root, rank, placement, tensor products and sharing."""
import numpy as np
from engine.case import Case, Goal, eqs, F, dense
from checks.P02 import sp

EXTS = []
ASSUMPTIONS = ["constraint matrices of QR type have orthonormal columns where the rank is concerned"]


def mat(data, rows, cols, n, m=None):
    """dense matrix from triplets"""
    A = np.zeros((n, m or n), dtype=object)
    for d, r, c in zip(list(data), list(rows), list(cols)):
        A[int(r), int(c)] = A[int(r), int(c)] + d
    return A


def quad(S, b):
    return sum((b[i] * S[i, j] * b[j] for i in range(len(b)) for j in range(len(b))), 0)


def mv(A, b):
    return [sum((A[i, j] * b[j] for j in range(A.shape[1])), 0) for i in range(A.shape[0])]


def diffs(v, m):
    v = list(v)
    for _ in range(m):
        v = [v[i + 1] - v[i] for i in range(len(v) - 1)]
    return v


def ssq(v):
    return sum((x * x for x in v), 0)


def frank(A):
    return float(np.linalg.matrix_rank(np.array([[float(x) for x in r] for r in A]), tol=1e-8))


def con_map(kind, Z, n):
    """full coefficients of the unconstrained basis implied by constrained ones, per constraint type"""
    if kind == "DROP":
        T = np.zeros((n, n - 1))
        keep = [i for i in range(n) if i != Z]
        for j, i in enumerate(keep):
            T[i, j] = 1
        return T
    # DIFF: columns are differences of neighbouring (cyclically shifted) basis columns
    B = np.eye(n)
    P = np.concatenate((B[:, Z:], B[:, :Z]), axis=1)
    D = np.diff(P)
    return np.concatenate((D[:, D.shape[1] - Z:], D[:, :D.shape[1] - Z]), axis=1)


def outer(D, k):
    return np.array([[sum((D[i, a] * D[j, a] for a in range(D.shape[1])), 0) for j in range(k)] for i in range(k)], dtype=object)


def cases(tier, M):
    out = []
    P = M.penalties
    CT = M.custom_types
    deep = tier == "thorough"

    def diffpen(n, m, kind, Z=None):
        k = n if kind is None else n - 1

        def run(I):
            con = None
            z = None
            if kind == "QR":
                z = I.arr("Z", (n, n - 1))
                con = CT.Constraint(z, CT.ConstType.QR)
            elif kind is not None:
                con = CT.Constraint(Z, getattr(CT.ConstType, kind))
            pd, pr, pc, cd, cr, cc, rank = P.DifferencePenalty().constructor(n, con, m=m)
            nc = max([int(c) for c in cc] + [0]) + 1
            return {"S": mat(pd, pr, pc, k), "D": mat(cd, cr, cc, k, max(nc, n)), "rank": float(rank), "b": I.arr("b", k), "z": z}

        def goals(I, o):
            b = o["b"]
            if kind is None:
                full = list(b)
            elif kind == "QR":
                full = mv(np.asarray(o["z"]), b)
            else:
                full = mv(con_map(kind, Z, n), b)
            g = [Goal("b'Sb is the sum of squared differences", quad(o["S"], b), "==", ssq(diffs(full, m)))]
            g += eqs("S = D D'", outer(o["D"], k), o["S"])
            g.append(Goal("rank", o["rank"], "==", float(n - m) if not (m == 0 and kind) else float(n - 1)))
            if kind != "QR":
                g.append(Goal("rank is the rank of S", o["rank"], "==", frank(o["S"])))
            return g

        return Case("difference penalty n=%d m=%d %s%s" % (n, m, kind or "", "" if Z is None else Z), run, goals,
                    "every coefficient vector%s; %d basis functions" % (" and constraint matrix" if kind == "QR" else "", n))

    for n, m in [(3, 1), (4, 2), (5, 2), (5, 3), (4, 0)] + ([(8, 2), (10, 2), (10, 1), (9, 3)] if deep else []):
        out.append(diffpen(n, m, None))
        if m > 0 and n <= 5:
            out.append(diffpen(n, m, "QR"))
        for Z in range(n):
            out.append(diffpen(n, m, "DROP", Z))
            if m > 0:
                out.append(diffpen(n, m, "DIFF", Z))

    def ident(n, con, weights):
        def run(I):
            w = I.arr("w", n, "pos")
            c = None if con is None else CT.Constraint(1, CT.ConstType.DROP)
            pd, pr, pc, cd, cr, cc, rank = P.IdentityPenalty(CT.PenType.DISTANCE if weights else CT.PenType.IDENTITY).constructor(
                n, c, **({"f": lambda i: w[i - 1]} if weights else {}))
            k = n if con is None else n - 1
            return {"S": mat(pd, pr, pc, k), "D": mat(cd, cr, cc, k), "rank": float(rank), "b": I.arr("b", k), "w": w}

        def goals(I, o):
            k = len(o["b"])
            g = [Goal("b'Sb", quad(o["S"], o["b"]), "==", sum((o["b"][i] * o["b"][i] * (o["w"][i] if weights else 1) for i in range(k)), 0)),
                 Goal("rank", o["rank"], "==", float(k))]
            return g + eqs("S = D D'", outer(o["D"], k), o["S"])

        return Case("identity penalty n=%d con=%s weights=%s" % (n, con, weights), run, goals, "every coefficient vector (and positive weight)")

    for n in (1, 3):
        for weights in (False, True):
            out.append(ident(n, None, weights))
    out.append(ident(3, 1, False))
    out.append(ident(3, 1, True))

    # --- tensor products -----------------------------------------------------------------------
    def tp(ks, j, kind=None, Z=None, r=None):
        n = int(np.prod(ks))
        k = n if kind is None else n - 1

        def run(I):
            Dj = I.arr("D", (ks[j], r or ks[j]))
            A = np.asarray(Dj)
            Sj = np.array([[sum((A[a, c] * A[b, c] for c in range(A.shape[1])), 0) for b in range(ks[j])] for a in range(ks[j])],
                          dtype=object if I.sym else float)
            if r is not None:
                full = np.zeros((ks[j], ks[j]), dtype=A.dtype)
                full[:, :r] = A
                A = full
            con = None
            z = None
            if kind == "QR":
                z = I.arr("Z", (n, n - 1))
                con = CT.Constraint(z, CT.ConstType.QR)
            elif kind is not None:
                con = CT.Constraint(Z, getattr(CT.ConstType, kind))
            res = P.TP_pen(sp(M).csc_array(Sj), sp(M).csc_array(A), j, list(ks), con, False)
            pd, pr, pc, cd, cr, cc = res
            return {"S": mat(pd, pr, pc, k), "D": mat(cd, cr, cc, k, n), "b": I.arr("b", k), "z": z, "Dj": Dj}

        def goals(I, o):
            b = o["b"]
            if kind is None:
                full = list(b)
            elif kind == "QR":
                full = mv(np.asarray(o["z"]), b)
            else:
                full = mv(con_map(kind, Z, n), b)
            Dj = np.asarray(o["Dj"])
            idx = list(np.ndindex(*ks))
            pos = {t: i for i, t in enumerate(idx)}
            q = 0
            rest = [t for t in np.ndindex(*[x for a, x in enumerate(ks) if a != j])]
            for t in rest:
                line = [full[pos[t[:j] + (a,) + t[j:]]] for a in range(ks[j])]
                q = q + ssq([sum((Dj[a, c] * line[a] for a in range(ks[j])), 0) for c in range(Dj.shape[1])])
            g = [Goal("penalty of margin %d over all other margins" % j, quad(o["S"], b), "==", q)]
            return g + eqs("S = D D'", outer(o["D"], k), o["S"])

        return Case("tensor penalty %s margin %d %s%s%s" % (ks, j, kind or "", "" if Z is None else Z, "" if r is None else " root rank %d" % r),
                    run, goals, "every marginal root, coefficient vector%s" % (" and constraint matrix" if kind == "QR" else ""))

    for ks in [(2, 2), (2, 3), (3, 2), (2, 2, 2)]:
        for j in range(len(ks)):
            out.append(tp(ks, j))
    out.append(tp((2, 2), 0, "QR", r=1))
    out.append(tp((2, 2), 1, "DROP", 2, r=1) if False else tp((3, 2), 0, "DIFF", 3, r=2))

    # --- embedding and dropping ----------------------------------------------------------------
    def embed(n, start, tot, drop, offset=0):
        def run(I):
            A = I.arr("S", (n, n))
            pd, pr, pc = [], [], []
            for c in range(n):
                for r in range(n):
                    pd.append(A[r, c])
                    pr.append(r)
                    pc.append(c)
            o = {"A": A}
            nd = 0
            if drop is not None:
                pd, pr, pc, nd = P.adjust_pen_drop(pd, pr, pc, drop, offset=offset)
            E, nxt = P.embed_in_S_sparse(pd, pr, pc, None, tot, n - nd, start)
            o["Sj"] = P.embed_in_Sj_sparse(pd, pr, pc, None, n - nd)
            o["E"], o["next"], o["nd"] = E, float(nxt), float(nd)
            E2, nxt2 = P.embed_in_S_sparse(pd, pr, pc, E.copy(), tot, n - nd, start)
            o["E2"] = E2
            return o

        def goals(I, o):
            A = np.asarray(o["A"])
            keep = [i for i in range(n) if drop is None or i + offset not in drop]
            B = A[np.ix_(keep, keep)]
            E = np.zeros((tot, tot), dtype=object)
            E[start:start + len(keep), start:start + len(keep)] = B
            return (eqs("block", o["Sj"], B) + eqs("embedded", o["E"], E) + eqs("accumulated", o["E2"], 2 * E) +
                    [Goal("next index", o["next"], "==", float(start + len(keep))), Goal("dropped", o["nd"], "==", float(n - len(keep)))])

        return Case("embed n=%d start=%d of %d drop=%s offset=%d" % (n, start, tot, drop, offset), run, goals, "every block of this size")

    for c in [(2, 0, 3, None), (2, 1, 4, None), (3, 1, 5, [1]), (4, 0, 5, [0, 2]), (4, 1, 6, [5, 7, 1], 4), (3, 2, 6, [3, 4], 3), (3, 0, 3, [7], 0)]:
        out.append(embed(*c))

    # --- sharing one smoothing parameter ---------------------------------------------------------
    def shared(ids, sizes, ncoef):
        def run(I):
            pens = []
            st = 1
            for t, (i, n) in enumerate(zip(ids, sizes)):
                Dm = I.arr("D%d" % t, (n, n))
                A = np.asarray(Dm)
                S = np.array([[sum((A[a, c] * A[b, c] for c in range(n)), 0) for b in range(n)] for a in range(n)], dtype=object if I.sym else float)
                Es = np.zeros((ncoef, ncoef), dtype=S.dtype)
                Ed = np.zeros((ncoef, ncoef), dtype=S.dtype)
                Es[st:st + n, st:st + n] = S
                Ed[st:st + n, st:st + n] = A
                if I.sym:
                    Es[Es == 0] = 0
                pens.append(CT.LambdaTerm(S_J=sp(M).csc_array(S), S_J_emb=sp(M).csc_array(Es), D_J_emb=sp(M).csc_array(Ed), start_index=st,
                                          lam=I.pos("lam%d" % (t if i is None else 100 + i)), type=CT.PenType.IDENTITY, rank=n, term=t, id=i))
                st += n
            lam = [p.lam for p in pens]
            S0 = [p.S_J_emb.toarray() for p in pens]
            mer = P.combine_shared_penalties(pens)
            tot = sum((p.S_J_emb.toarray() * p.lam for p in mer), 0)
            rk = [float(p.rank) for p in mer]
            D = [p.D_J_emb.toarray() for p in mer]
            Sm = [p.S_J_emb.toarray() for p in mer]
            spl = P.split_shared_penalties(mer)
            return {"lam": lam, "S0": S0, "tot": tot, "n": float(len(mer)), "rk": rk, "D": D, "Sm": Sm, "nspl": float(len(spl)),
                    "spl": [p.S_J_emb.toarray() for p in spl], "splS": [p.S_J.toarray() for p in spl], "spll": [p.lam for p in spl],
                    "st": [float(p.start_index) for p in spl], "rk2": [float(p.rank) for p in spl], "term": [float(p.term) for p in spl]}

        def goals(I, o):
            uniq = len({i for i in ids if i is not None}) + sum(1 for i in ids if i is None)
            tot = sum((o["S0"][t] * o["lam"][t] for t in range(len(ids))), 0)
            g = [Goal("number of smoothing parameters", o["n"], "==", float(uniq))] + eqs("total penalty", o["tot"], tot)
            g.append(Goal("ranks", float(sum(o["rk"])), "==", float(sum(sizes))))
            for t in range(len(o["D"])):
                g += eqs("S = D D' of merged penalty %d" % t, outer(np.asarray(o["D"][t]), ncoef), o["Sm"][t])
            g.append(Goal("number of penalties after splitting", o["nspl"], "==", float(len(ids))))
            if o["nspl"] == len(ids):
                for t in range(len(ids)):
                    g += eqs("split penalty %d" % t, o["spl"][t], o["S0"][t])
                    g.append(Goal("split lambda %d" % t, o["spll"][t], "==", o["lam"][t]))
                    g.append(Goal("split start %d" % t, o["st"][t], "==", float(1 + sum(sizes[:t]))))
                    g.append(Goal("split rank %d" % t, o["rk2"][t], "==", float(sizes[t])))
                    g.append(Goal("split term %d" % t, o["term"][t], "==", float(t)))
                    g += eqs("split block %d" % t, o["splS"][t], o["S0"][t][1 + sum(sizes[:t]):1 + sum(sizes[:t + 1]), 1 + sum(sizes[:t]):1 + sum(sizes[:t + 1])])
            return g

        return Case("shared ids=%s sizes=%s" % (ids, sizes), run, goals, "every root matrix and smoothing parameter")

    for ids, sizes in [((None, None), (1, 2)), ((7, 7), (1, 2)), ((None, 3, 3), (1, 1, 1)), ((3, None, 3), (1, 1, 1)), ((1, 2, 2), (1, 1, 1)), ((1, 2, 1, 2), (1, 1, 1, 1)), ((4, 4, 5), (1, 1, 2))]:
        out.append(shared(ids, sizes, 1 + sum(sizes)))

    def multi(ncoefs, extra, pens):
        """penalties of several parameter models in the joint coefficient vector"""
        def run(I):
            class Fo:
                pass
            fs, ps = [], []
            o = {"S": [], "st": []}
            for k, nc in enumerate(ncoefs):
                f = Fo()
                f.n_coef = nc
                fs.append(f)
                row = []
                for t, (st, n) in enumerate(pens[k]):
                    A = np.asarray(I.arr("S%d_%d" % (k, t), (nc, nc)))
                    B = np.asarray(I.arr("D%d_%d" % (k, t), (nc, nc)))
                    row.append(CT.LambdaTerm(S_J=sp(M).csc_array(A[st:st + n, st:st + n]), S_J_emb=sp(M).csc_array(A), D_J_emb=sp(M).csc_array(B),
                                             start_index=st, type=CT.PenType.IDENTITY, rank=n, term=t))
                    o["S"].append((k, st, A, B))
                ps.append(row)
            r = P.embed_shared_penalties(ps, fs, extra)
            o["E"] = [(p.S_J_emb, p.D_J_emb, float(p.start_index), float(p.dist_param)) for row in r for p in row]
            o["S"] = [(float(k), float(st), A, B) for k, st, A, B in o["S"]]
            return o

        def goals(I, o):
            tot = sum(ncoefs) + (extra or 0)
            g = []
            for (k, st, A, B), (E, D, s, dp) in zip(o["S"], o["E"]):
                k = int(k)
                off = sum(ncoefs[:k])
                W = np.zeros((tot, tot), dtype=object)
                V = np.zeros((tot, tot), dtype=object)
                W[off:off + ncoefs[k], off:off + ncoefs[k]] = A
                V[off:off + ncoefs[k], off:off + ncoefs[k]] = B
                g += eqs("S of model %d" % k, E, W) + eqs("D of model %d" % k, D, V)
                g += [Goal("start of model %d" % k, s, "==", float(off + int(st))), Goal("parameter of model %d" % k, dp, "==", float(k))]
            return g

        return Case("models %s extra %s" % (ncoefs, extra), run, goals, "every penalty of these sizes")

    for c in [((2, 3), None, [[(1, 1)], [(1, 2)]]), ((2, 1, 2), 2, [[(0, 2)], [(0, 1)], [(0, 1), (1, 1)]]), ((1, 2), 1, [[], [(1, 1)]])]:
        out.append(multi(*c))
    return out
