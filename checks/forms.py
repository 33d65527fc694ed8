"""Specification side of model matrices: what the columns of each term are."""
import itertools
import numpy as np
from checks.P12 import deboor
from checks.P13 import con_map


def bs(x, lo, hi, nk, deg):
    ndx = nk - deg
    dx = (hi - lo) / ndx
    t = [lo + dx * (k - deg) for k in range(ndx + 1 + 2 * deg)]
    return [deboor(x, t, k, deg) for k in range(nk)]


class Data:
    """rows of a data set: name -> list (strings for factors)"""

    def __init__(self, cols, levels=None, rng=None):
        self.cols = cols
        self.n = len(next(iter(cols.values())))
        self.levels = levels or {c: sorted({x for x in v if x is not None}) for c, v in cols.items() if any(isinstance(x, str) for x in v)}
        self.rng = rng or {}

    def at(self, rows):
        return Data({c: [v[i] for i in rows] for c, v in self.cols.items()}, self.levels, self.rng)

    def new(self, cols):
        return Data(cols, self.levels, self.rng)


def linear_cols(vars, data, dummy):
    """columns of a linear or interaction term: products of indicators and covariates"""
    per = []
    for v in vars:
        if v in data.levels:
            lv = data.levels[v][1 if dummy else 0:]
            per.append([[1 if x == l else 0 for x in data.cols[v]] for l in lv])
        else:
            per.append([data.cols[v]])
    out = []
    for combo in itertools.product(*per):
        col = []
        for i in range(data.n):
            e = 1
            for c in combo:
                e = e * c[i]
            col.append(e)
        out.append(col)
    return out


def smooth_basis(term, data, deg, te):
    """rows of the unconstrained (tensor) basis and constraint map of each margin"""
    ident = term.is_identifiable
    B = None
    for vi, v in enumerate(term.variables):
        nk = term.nk[vi] if len(term.variables) > 1 else term.nk
        if ident and not te:
            nk += 1
        lo, hi = data.rng[v]
        b = [bs(x, lo, hi, nk, deg) for x in data.cols[v]]
        if ident and not te:
            T = cmap(term.Z[vi], nk)
            b = [[sum((r[a] * T[a, j] for a in range(nk)), 0) for j in range(nk - 1)] for r in b]
        if term.should_rp > 0:
            C = dn(term.RP[vi].C)
            b = [[sum((r[a] * C[a, j] for a in range(len(r))), 0) for j in range(C.shape[1])] for r in b]
        B = b if B is None else [[p * q for p in r for q in s] for r, s in zip(B, b)]
    if ident and te:
        k = len(B[0])
        T = cmap(term.Z[0], k)
        B = [[sum((r[a] * T[a, j] for a in range(k)), 0) for j in range(k - 1)] for r in B]
    return B


def dn(a):
    return np.asarray(a.toarray() if hasattr(a, "toarray") else a)


def cmap(con, n):
    k = str(con.type).split(".")[-1]
    if k == "QR":
        return dn(con.Z)
    return con_map(k, con.Z, n)


def smooth_cols(term, data, deg):
    te = term.te
    B = smooth_basis(term, data, deg, te)
    if term.by_cont is not None:
        B = [[e * data.cols[term.by_cont][i] for e in r] for i, r in enumerate(B)]
    k = len(B[0])
    out = []
    if term.by is not None:
        for l in data.levels[term.by]:
            for j in range(k):
                out.append([B[i][j] if data.cols[term.by][i] == l else 0 for i in range(data.n)])
    elif term.binary is not None:
        for j in range(k):
            out.append([B[i][j] if data.cols[term.binary[0]][i] == term.binary[1] else 0 for i in range(data.n)])
    else:
        for j in range(k):
            out.append([B[i][j] for i in range(data.n)])
    if term.drop_coef is not None:
        out = [c for j, c in enumerate(out) if j not in term.drop_coef]
    return out


def irf_cols(t, data):
    """response of the event at the onset sample of its series, one unit of time per sample"""
    assert len(t.variables) == 1
    kw, nk = t.basis_kwargs[0], t.nk
    K = nk + 1 + kw["deg"]
    knots = [kw["min_c"] + (kw["max_c"] - kw["min_c"]) * k / (K - 1) for k in range(K)]
    sid = data.cols["s"]
    series = list(dict.fromkeys(sid))
    B = []
    for s, onset in zip(series, t.event_onset):
        n = sum(1 for x in sid if x == s)
        B += [[0] * nk if i < onset else [deboor(i - onset, knots, k, kw["deg"]) for k in range(nk)] for i in range(n)]
    if t.by is None:
        return [[B[i][j] for i in range(data.n)] for j in range(nk)]
    return [[B[i][j] if data.cols[t.by][i] == l else 0 for i in range(data.n)] for l in data.levels[t.by] for j in range(nk)]


def matrix(M, terms, data, deg):
    """columns per term, in the order linear, smooth, random"""
    T = M.terms
    blocks = {}
    order = []
    const = any(isinstance(t, T.i) for t in terms)
    for ti, t in enumerate(terms):
        if isinstance(t, T.i):
            blocks[ti] = [[1] * data.n]
        elif isinstance(t, T.l):
            blocks[ti] = linear_cols(t.variables, data, const)
            if not const and any(v in data.levels for v in t.variables):
                const = True
        else:
            continue
        order.append(ti)
    for ti, t in enumerate(terms):
        if isinstance(t, T.irf):
            blocks[ti] = irf_cols(t, data)
            order.append(ti)
    for ti, t in enumerate(terms):
        if isinstance(t, T.f):
            blocks[ti] = smooth_cols(t, data, deg)
            order.append(ti)
    for ti, t in enumerate(terms):
        if isinstance(t, T.ri):
            blocks[ti] = linear_cols(t.variables, data, False)
            order.append(ti)
        elif isinstance(t, T.rs):
            base = linear_cols(t.variables, data, False)
            if t.by is None:
                blocks[ti] = base
            else:
                blocks[ti] = [[c[i] if data.cols[t.by][i] == l else 0 for i in range(data.n)] for l in data.levels[t.by] for c in base]
            order.append(ti)
    return blocks, order
