"""Helpers for the HSMM properties: families with free densities and the segmentation semantics."""
import numpy as np
from engine.case import F

_cls = {}


def fams(M):
    """families whose log-densities are the linear predictors themselves, so that every positive
    observation density and every duration distribution is representable"""
    if id(M) in _cls:
        return _cls[id(M)]
    E = M.exp_fam
    D1 = E.DerivOrder.d1

    class FreeObs(E.GAMLSSFamily):
        """log density = first parameter (+ second parameter if there are two)"""

        def __init__(self, n=1):
            super().__init__(n, [E.Identity() for _ in range(n)])
            self.d_eta = True

        def lp(self, y, *mus):
            r = mus[0]
            for m in mus[1:]:
                r = r + m
            return r

        def llk(self, y, *mus):
            return self.lp(y, *mus).sum()

        def lcp(self, y, *mus):
            return self.lp(y, *mus)

        def dpars(self, y, *mus, index=0, order=D1):
            return mus[0] * 0 + 1

        def rvs(self, *mus, size=1, seed=0):
            return None

        def get_resid(self, y, *mus):
            return y

    class FreeRes(FreeObs):
        """parameters: mean, log density, log cumulative density"""

        def __init__(self):
            super().__init__(3)

        def lp(self, y, *mus):
            return mus[1] * 1

        def lcp(self, y, *mus):
            return mus[2] * 1

    FreeObs.Res = FreeRes

    class FreeDur(E.GAMLSSFamily):
        """log p(d) = parameter d (up to the normalisation done by the model)"""

        def __init__(self, n):
            super().__init__(n, [E.Identity() for _ in range(n)])
            self.d_eta = True

        def _pick(self, y, mus, g):
            y = np.asarray(y).reshape(-1)
            if len(y) == 1:  # one duration, all rows of the parameters
                return g(int(float(y[0])))
            return np.concatenate([g(int(float(v))) for v in y], axis=0)

        def lp(self, y, *mus):
            return self._pick(y, mus, lambda d: mus[d - 1])

        def llk(self, y, *mus):
            return self.lp(y, *mus).sum()

        def lcp(self, y, *mus):
            return self.lp(y, *mus)

        def dpars(self, y, *mus, index=0, order=D1):
            return self._pick(y, mus, lambda d: mus[0] * 0 + (1 if index == d - 1 else 0))

        def rvs(self, *mus, size=1, seed=0):
            return None

        def get_resid(self, y, *mus):
            return self.lp(y, *mus)

    _cls[id(M)] = (FreeObs, FreeDur)
    return _cls[id(M)]


def segmentations(n_T, D, n_S, obs, dur0, dur, T, pi, ends_with_last, ends_in_last):
    """sum over all state/duration sequences.

    obs(t, j, k, first): density of observation t in state j, k-th point of its segment
    dur0(d, j) / dur(d, j, t): probability that the first / a later segment (starting at t) lasts d
    T(i, j, t): transition probability out of i after its last point t
    """
    tot = 0

    def enter(t, j, w, first):
        nonlocal tot
        for d in range(1, D):
            p = dur0(d, j) if first else dur(d, j, t)
            if isinstance(p, int) and p == 0:
                continue
            if ends_with_last and t + d > n_T:
                continue
            v = w * p
            for k in range(min(d, n_T - t)):
                v = v * obs(t + k, j, k, first)
            e = t + d
            if e >= n_T:
                if not ends_in_last or j == n_S - 1:
                    tot = tot + v
                continue
            for i in range(n_S):
                if i != j:
                    tr = T(j, i, e - 1)
                    if isinstance(tr, int) and tr == 0:
                        continue
                    enter(e, i, v * tr, False)

    for j in range(n_S):
        p0 = pi(j)
        if isinstance(p0, int) and p0 == 0:
            continue
        enter(0, j, p0, True)
    return tot


def histories(n_T, D, n_S, obs, dur0, dur, T, pi, ends_with_last, ends_in_last):
    """all admissible histories: (states per time point, remaining duration after the last point, factors)"""
    out = []

    def enter(t, j, fac, st, first):
        for d in range(1, D):
            p = dur0(d, j) if first else dur(d, j, t)
            if isinstance(p, int) and p == 0:
                continue
            if ends_with_last and t + d > n_T:
                continue
            e = t + d
            k = min(d, n_T - t)
            f = fac + [p] + [obs(t + q, j, q, first) for q in range(k)]
            s = st + [j] * k
            if e >= n_T:
                if not ends_in_last or j == n_S - 1:
                    out.append((tuple(s), e - n_T, [x for x in f if not (isinstance(x, int) and x == 1)]))
                continue
            for i in range(n_S):
                if i != j:
                    tr = T(j, i, e - 1)
                    if isinstance(tr, int) and tr == 0:
                        continue
                    enter(e, i, f + [tr], s, False)

    for j in range(n_S):
        p0 = pi(j)
        if isinstance(p0, int) and p0 == 0:
            continue
        enter(0, j, [p0], [], True)
    return out


class Model:
    pass


def free_model(I, M, n_S, D, lens, M_sig=1, starts=True, ends_with=False, ends_in=False, fixT=True,
               perseries=False, tvd=False, npar=1, shared=None, shared_m=False, tid=False, small=None, lin=False, res=False):
    """HSMM in which every b(t,j), d(d,j), T, pi is free"""
    FreeObs, FreeDur = fams(M)
    HF = M.hsmm.HSMMFamily
    sp = M.exp_fam.scp.sparse if M.mode == "sym" else __import__("scipy").sparse
    N = sum(lens)
    nser = len(lens)
    sid = np.concatenate([[0], np.cumsum(lens)[:-1]]).astype(int)
    ndur = n_S * (1 if starts else 2)
    Xs, ys, coefs, names = [], [], [], []
    cidx = [0]

    def csc(a):
        return sp.csc_array(a)

    def addpar(X, nm):
        k = X.shape[1]
        c = I.arr(nm, (k, 1))
        Xs.append(csc(X))
        coefs.append(c)
        names.extend("%s_%d_0" % (nm, i) for i in range(k))
        ys.append(None)
        return (dense(X) @ c)

    def dense(x):
        return x

    eyeN = I.const(np.eye(N))
    etas = {}
    sh = {}
    obs_pars = list(shared or [])
    for par in obs_pars:
        for m in range(1 if shared_m else M_sig):
            X = I.arr("xs%d_%d" % (par, m), (N, 1))
            sh[par, m] = addpar(X, "s%d_%d" % (par, m))
    for j in range(n_S):
        for m in range(M_sig):
            for p in range(npar):
                X = eyeN if (shared is None and (p == 0 or res) and not small) else I.arr("xo%d_%d_%d" % (j, m, p), (N, 1))
                e = addpar(X, "o%d_%d_%d" % (j, m, p))
                if p in obs_pars:
                    e = e + sh[p, 0 if shared_m else m]
                etas[j, m, p] = e
    rows = N if tvd else nser
    deta = {}
    for j in range(ndur):
        for d in range(1, D):
            X = I.const(np.eye(rows)) if lin or (not tvd and not small) else I.arr("xd%d_%d" % (j, d), (rows, 1))
            deta[j, d] = addpar(X, "d%d_%d" % (j, d))
    # series-specific rows of the duration / transition / initial models
    T = pi = None
    Tv, pv = {}, {}
    if fixT:
        nT = nser if perseries else 1
        Tl, pl = [], []
        for s in range(nT):
            w = I.arr("T%d" % s, (n_S, n_S), "pos")
            A = I.const(np.zeros((n_S, n_S)))
            for i in range(n_S):
                for j in range(n_S):
                    if i != j:
                        A[i, j] = w[i, j]
            p = I.arr("pi%d" % s, n_S, "pos")
            if tvd:
                mats = []
                for t in range(max(lens)):
                    w = I.arr("T%d_%d" % (s, t), (n_S, n_S), "pos")
                    B = I.const(np.zeros((n_S, n_S)))
                    for i in range(n_S):
                        for j in range(n_S):
                            if i != j:
                                B[i, j] = w[i, j]
                    mats.append(B)
                A = np.stack(mats, axis=2)
                if I.sym:
                    from engine import shim
                    A = shim.wrap(A)
            Tl.append(A)
            pl.append(p)
        T = Tl if perseries else Tl[0]
        pi = pl if perseries else pl[0]
    else:
        teta, peta = {}, {}
        if n_S > 2:
            for j in range(n_S):
                for k in range(n_S - 2):
                    X = I.const(np.eye(rows)) if lin or (not tvd and not small) else I.arr("xt%d_%d" % (j, k), (rows, 1))
                    teta[j, k] = addpar(X, "t%d_%d" % (j, k))
        for k in range(n_S - 1):
            X = I.const(np.eye(rows)) if lin or (not tvd and not small) else I.arr("xp%d" % k, (rows, 1))
            peta[k] = addpar(X, "p%d" % k)
    n_links = len(Xs)
    ys[0] = I.const(np.zeros((N, 1)))
    if res:
        raw = [I.arr("y%d" % m, (N, 1)) for m in range(M_sig)]
        for q in range(n_S * M_sig * npar):
            ys[q] = raw[q // npar % M_sig]
    dn = tv = None
    o = Model()
    o.N, o.sid, o.lens, o.n_S, o.D = N, sid, lens, n_S, D
    tidarr = sid if tvd else np.arange(nser)
    fam = HF(n_links, [M.exp_fam.Identity()] * n_links, n_S, [[FreeObs.Res() if res else FreeObs(npar) for _ in range(M_sig)] for _ in range(n_S)],
             [FreeDur(D - 1) for _ in range(ndur)], sid, tidarr, D, M_sig, starts, ends_with, ends_in,
             build_mat_idx=list(range(n_links)), shared_pars=obs_pars, shared_m=shared_m, T=T, pi=pi, tvdtpi=tvd)
    coef = np.concatenate(coefs, axis=0)
    if I.sym:
        from engine import shim
        coef = shim.wrap(coef)
    split = np.cumsum([c.shape[0] for c in coefs])[:-1].tolist() if len(coefs) > 1 else []
    # HSMMFamily takes the last split as extra (theta) block only for MultiGauss; keep the plain layout
    o.fam, o.coef, o.split, o.ys, o.Xs, o.names = fam, coef, [int(x) for x in split], ys, Xs, names

    def series(s):
        off = int(sid[s])
        n = lens[s]

        def row(t):
            return off + t if tvd else s

        def ob(t, j, k=0, first=False):
            v = 0
            for m in range(M_sig):
                for p in range(npar):
                    if not res or p == 1:
                        v = v + etas[j, m, p][off + t, 0]
            return F.exp(v)

        def durp(d, jj, t):
            den = 0
            for q in range(1, D):
                den = den + F.exp(deta[jj, q][row(t), 0])
            return F.exp(deta[jj, d][row(t), 0]) / den

        memo = {}

        def durm(d, jj, t):
            if (d, jj, t) not in memo:
                memo[d, jj, t] = durp(d, jj, t)
            return memo[d, jj, t]

        def dur0(d, j):
            return durm(d, j, 0)

        def dur(d, j, t):
            return durm(d, j if starts else j + n_S, t if tvd else 0)

        def Tf(i, j, t):
            if fixT:
                A = T[s] if perseries else T
                return A[i, j, t] if tvd else A[i, j]
            if n_S == 2:
                return 1
            others = [q for q in range(n_S) if q != i]
            es = [1] + [F.exp(teta[i, k][row(t if tvd else 0), 0]) for k in range(n_S - 2)]
            tot = es[0]
            for e in es[1:]:
                tot = tot + e
            return es[others.index(j)] / tot

        def pif(j):
            if fixT:
                return (pi[s] if perseries else pi)[j]
            es = [1] + [F.exp(peta[k][row(0), 0]) for k in range(n_S - 1)]
            tot = es[0]
            for e in es[1:]:
                tot = tot + e
            return es[j] / tot

        return n, ob, dur0, dur, Tf, pif

    o.series = series
    o.flags = (ends_with, ends_in)
    o.M_sig = M_sig
    if res:
        o.cdf = lambda s, m: lambda t, j, k, first: F.exp(etas[j, m, 2][int(sid[s]) + t, 0])
        o.mean = lambda s, m: lambda t, j, k, first: etas[j, m, 0][int(sid[s]) + t, 0]
        o.y = lambda s, m, t: raw[m][int(sid[s]) + t, 0]
    o.durpar = lambda s, j, d, t: deta[j, d][int(sid[s]) + t if tvd else s, 0]
    return o


def partial_mass(n_T, D, n_S, obs, dur0, dur, T, pi, ends_with_last, ends_in_last, upto, leaf):
    """total weight of the histories up to time `upto` that the end-of-series options have not ruled out,
    with leaf(t, j, k, first) in place of the density of the last observation"""
    tot = 0

    def enter(t, j, w, first):
        nonlocal tot
        for d in range(1, D):
            p = dur0(d, j) if first else dur(d, j, t)
            if isinstance(p, int) and p == 0:
                continue
            end = t + d - 1
            if ends_with_last and end >= n_T and (upto >= 1 or upto == n_T - 1):
                continue
            v = w * p
            for k in range(min(end, upto) - t + 1):
                v = v * (leaf if t + k == upto else obs)(t + k, j, k, first)
            if end >= upto:
                if upto == n_T - 1 and (ends_with_last and end != n_T - 1 or ends_in_last and j != n_S - 1):
                    continue
                tot = tot + v
                continue
            for i in range(n_S):
                if i != j:
                    tr = T(j, i, end)
                    if isinstance(tr, int) and tr == 0:
                        continue
                    enter(end + 1, i, v * tr, False)

    for j in range(n_S):
        p0 = pi(j)
        if isinstance(p0, int) and p0 == 0:
            continue
        enter(0, j, p0, True)
    return tot


def brute_llk(o):
    r = 0
    for s in range(len(o.lens)):
        n, ob, d0, d, T, pi = o.series(s)
        r = r + F.log(segmentations(n, o.D, o.n_S, ob, d0, d, T, pi, *o.flags))
    return r


def hmp_model(I, M, n_S, D, lens, width=2, M_sig=1, fam="Gaussian", ar=False, shared=None, shared_m=False,
              ends_with=True, ends_in=True, negrho=False, symT=False):
    """HMP-like model: flats alternate with fixed-width bumps, durations of flats free"""
    FreeObs, FreeDur = fams(M)
    HF = M.hsmm.HSMMFamily
    sp = M.exp_fam.scp.sparse if M.mode == "sym" else __import__("scipy").sparse
    N, nser = sum(lens), len(lens)
    sid = np.concatenate([[0], np.cumsum(lens)[:-1]]).astype(int)
    Xs, ys, coefs, names = [], [], [], []
    raw = [I.arr("y%d" % m, (N, 1)) for m in range(M_sig)]
    scale = I.pos("scale")
    tmpl = I.arr("w", width)

    def addpar(X, nm, y):
        k = X.shape[1]
        c = I.arr(nm, (k, 1))
        Xs.append(sp.csc_array(X))
        coefs.append(c)
        names.extend("%s_%d_0" % (nm, i) for i in range(k))
        ys.append(y)
        return X @ c

    sh = {}
    for par in (shared or []):
        for m in range(1 if shared_m else M_sig):
            sh[m] = addpar(I.arr("xs%d" % m, (N, 1)), "s%d" % m, raw[m])
    mu = {}
    for j in range(1, n_S, 2):
        for m in range(M_sig):
            e = addpar(I.arr("xo%d_%d" % (j, m), (N, 1)), "o%d_%d" % (j, m), raw[m])
            if shared:
                e = e + sh[0 if shared_m else m]
            mu[j, m] = e
    deta = {}
    dfams = []
    yd = I.const(np.zeros((nser, 1)))
    for j in range(n_S):
        if j % 2:
            dfams.append(None)
            continue
        dfams.append(FreeDur(D - 1))
        for d in range(1, D):
            deta[j, d] = addpar(I.const(np.eye(nser)), "d%d_%d" % (j, d), yd)
    T = I.const(np.zeros((n_S, n_S)))
    for j in range(n_S - 1):
        T[j, j + 1] = I.pos("T%d" % j) if symT else I.const(np.ones(1))[0]
    pi = I.const(np.zeros(n_S))
    pi[0] = I.const(np.ones(1))[0]
    rho = Lrhoi = None
    if ar:
        rho = I.unit("rho")
        if negrho:
            rho = -rho
        f = F.sqrt(1 - rho * rho)
        d0 = [1 / f] * N
        d1 = [-rho / f] * (N - 1)
        for k, s in enumerate(sid):
            d0[s] = I.const(np.ones(1))[0]
            if k:
                d1[s - 1] = I.const(np.zeros(1))[0]
        d0, d1 = np.array(d0), np.array(d1)
        Lrhoi = sp.diags_array([d0, d1], format="csr", offsets=[0, 1])
    n_links = len(Xs)
    o = Model()
    o.N, o.sid, o.lens, o.n_S, o.D, o.M_sig = N, sid, lens, n_S, D, M_sig
    o.raw, o.mu, o.scale, o.tmpl, o.rho = raw, mu, scale, tmpl, rho
    o.fam = HF(n_links, [M.exp_fam.Identity()] * n_links, n_S, [[None] * M_sig for _ in range(n_S)], dfams, sid,
               np.arange(nser), D, M_sig, True, ends_with, ends_in, build_mat_idx=list(range(n_links)),
               shared_pars=list(shared or []), shared_m=shared_m, T=T, pi=pi, Lrhoi=Lrhoi, scale=scale,
               event_template=tmpl, hmp_fam=fam)
    coef = np.concatenate(coefs, axis=0)
    if I.sym:
        from engine import shim
        coef = shim.wrap(coef)
    o.coef, o.split = coef, [int(x) for x in np.cumsum([c.shape[0] for c in coefs])[:-1]]
    o.ys, o.Xs, o.names, o.T, o.pi = ys, Xs, names, T, pi
    o.flags = (ends_with, ends_in)

    def pt(t, j, k, m):
        """expected value of signal m at series row t, k-th point of state j"""
        return tmpl[k] * mu[j, m][t, 0] if j % 2 else 0

    def series(s):
        off, n = int(sid[s]), lens[s]
        cache = {}

        def dens(t, j, k, first, what="pdf", sig=None):
            v = 1
            for m in range(M_sig) if sig is None else [sig]:
                e = pt(off + t, j, k, m)
                y = o.raw[m][off + t, 0]
                if ar and t > 0:
                    prev = pt(off + t - 1, j, k - 1, m) if k > 0 else (0 if j == 0 else pt(off + t - 1, j - 1, width - 1, m))
                    f = F.sqrt(1 - rho * rho)
                    e = (e - rho * prev) / f
                    y = (y - rho * o.raw[m][off + t - 1, 0]) / f
                if what == "y":
                    return y
                if what == "mean":
                    return e
                r = (y - e) * (y - e)
                st = M.hsmm.scp.stats
                if what == "cdf":
                    v = v * (F.exp(st.norm.logcdf(y, loc=e, scale=F.sqrt(scale))) if fam == "Gaussian" else 1 - F.exp(-r / scale))
            return v

        o.dens = getattr(o, "dens", {})
        o.dens[s] = dens

        def ob(t, j, k, first):
            kk = k if j % 2 else (0 if k == 0 and not first else 1)  # flats: only first point differs
            if (t, j, kk, first and k == 0) in cache:
                return cache[t, j, kk, first and k == 0]
            v = 1
            for m in range(M_sig):
                e = pt(off + t, j, k, m)
                y = o.raw[m][off + t, 0]
                if ar and t > 0:
                    prev = pt(off + t - 1, j, k - 1, m) if k > 0 else (0 if j == 0 else pt(off + t - 1, j - 1, width - 1, m))
                    f = F.sqrt(1 - rho * rho)
                    e = (e - rho * prev) / f
                    y = (y - rho * o.raw[m][off + t - 1, 0]) / f
                r = (y - e) * (y - e)
                if fam == "Gaussian":
                    p = F.exp(-r / (2 * scale)) / F.sqrt(2 * PIV(I) * scale)
                else:
                    p = F.exp(-r / scale) / scale
                v = v * p
            cache[t, j, kk, first and k == 0] = v
            return v

        def dur(d, j, t):
            if j % 2:
                return 1 if d == width else 0
            den = 0
            for q in range(1, D):
                den = den + F.exp(deta[j, q][s, 0])
            return F.exp(deta[j, d][s, 0]) / den

        def Tf(i, j, t):
            return T[i, j] if j == i + 1 else 0

        def pif(j):
            return 1 if j == 0 else 0

        return n, ob, (lambda d, j: dur(d, j, 0)), dur, Tf, pif

    o.series = series
    o.cdf = lambda s, m: lambda t, j, k, first: o.dens[s](t, j, k, first, "cdf", m)
    o.mean = lambda s, m: lambda t, j, k, first: o.dens[s](t, j, k, first, "mean", m)
    o.y = lambda s, m, t: o.dens[s](t, 0, 0, True, "y", m)
    o.durpar = lambda s, j, d, t: None if j % 2 else deta[j, d][s, 0]
    # change of variables from the raw to the whitened signal
    o.logjac = 0
    if ar:
        for s in range(nser):
            o.logjac = o.logjac - M_sig * (lens[s] - 1) * F.log(1 - rho * rho) / 2
    return o


def PIV(I):
    if I.sym:
        from engine.sym import PI
        return PI
    import math
    return math.pi
