"""A user-defined location-scale family: quadratic derivatives, an arbitrary log-likelihood (one unknown per evaluation)."""
import numpy as np

# curvature between the parameters of one observation, and what the parameters are pulled to (per unit of y, constant)
W = [[2.0, 1.0, 0.5], [1.0, 3.0, -1.0], [0.5, -1.0, 4.0]]
PULL = [(1.0, 0.0), (-1.0, 1.0), (0.5, 2.0)]
SLOPE = [2.0, 4.0, 0.5]


def gls_family(M, I, K, evals=None, bad=(), d_eta=False, llk=None, init=None):
    EF = M.exp_fam

    class Lin(EF.Link):
        def __init__(self, s):
            self.s = s

        def f(self, mu):
            return mu * self.s

        def fi(self, eta):
            return eta / self.s

        def dy1(self, mu):
            return mu * 0 + self.s

        def dy2(self, mu):
            return mu * 0

    class Free(EF.GAMLSSFamily):
        def __init__(self):
            super().__init__(K, [Lin(s) for s in SLOPE[:K]])
            self.calls = 0
            self.args = []
            self.vals = []
            self.d_eta = d_eta

        def init_coef(self, models):
            return init

        def llk(self, y, *mus):
            k = self.calls
            self.calls += 1
            if llk is not None:
                v = llk(k, y, mus)
            elif k in bad:
                v = float("nan")
            else:
                if evals is not None:
                    I.assume(k < evals)
                v = I.real("llk_%d" % k)
            self.args.append([m * 1 for m in mus])
            self.vals.append(v)
            return v

        def lp(self, y, *mus):
            return mus[0]

        def lcp(self, y, *mus):
            return None

        def rvs(self, *mus, size=1, seed=0):
            return None

        def get_resid(self, y, *mus):
            return None

        def dpars(self, y, *mus, index, order):
            O = M.custom_types.DerivOrder if hasattr(M.custom_types, "DerivOrder") else EF.DerivOrder
            c = [1.0] * K if not d_eta else [1.0 / s for s in SLOPE]
            if order == O.d1:
                r = 0
                for j in range(K):
                    r = r - W[index][j] * (mus[j] - PULL[j][0] * y - PULL[j][1])
                return r * c[index]
            if order == O.d2:
                return mus[0] * 0 - W[index][index] * c[index] ** 2
            pairs = [(i, j) for i in range(K) for j in range(i + 1, K)]
            i, j = pairs[index]
            return mus[0] * 0 - W[i][j] * c[i] * c[j]

    return Free()


def true_llk(y, *mus):
    """the quadratic the derivatives above belong to"""
    K = len(mus)
    d = [mus[j] - PULL[j][0] * y - PULL[j][1] for j in range(K)]
    t = 0
    for i in range(K):
        for j in range(K):
            t = t - W[i][j] * (d[i] * d[j]) / 2
    return t.sum()


def grad_hess(X, y, b, cuts):
    """gradient and Hessian of that quadratic with respect to all coefficients (object arrays); cuts: (start, stop) per parameter"""
    K = len(X)
    n = len(y)
    from checks.P15 import mm
    mu = [mm(X[k], b[a:e]) / SLOPE[k] for k, (a, e) in enumerate(cuts)]
    d = [mu[k] - PULL[k][0] * y - PULL[k][1] for k in range(K)]
    p = len(b)
    g = np.zeros((p, 1), dtype=object)
    H = np.zeros((p, p), dtype=object)
    for i, (a, e) in enumerate(cuts):
        s = 0
        for j in range(K):
            s = s - W[i][j] * d[j]
        g[a:e] = mm(X[i].T, s) / SLOPE[i]
        for j, (c, f) in enumerate(cuts):
            H[a:e, c:f] = mm(X[i].T, X[j]) * (-W[i][j] / SLOPE[i] / SLOPE[j])
    return g, H, mu
