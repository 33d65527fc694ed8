"""Cases: real code driven by an input provider that is symbolic or concrete."""
import math
import random

import numpy as np
import scipy.special
import scipy.stats

from . import sym
from .sym import S, SymBool, SymError


# --- functions for specifications, on S, floats and arrays -------------------------------------
class F:
    """scalar functions of the specification side"""

    @staticmethod
    def exp(x):
        return x.exp() if isinstance(x, S) else math.exp(x)

    @staticmethod
    def log(x):
        if isinstance(x, S):
            return x.log()
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)

    @staticmethod
    def sqrt(x):
        return x.sqrt() if isinstance(x, S) else math.sqrt(x)

    @staticmethod
    def gammaln(x):
        from . import shim
        return shim.gammaln(x) if isinstance(x, S) else float(scipy.special.gammaln(x))

    @staticmethod
    def normcdf(x):
        return sym.fn("normcdf", x) if isinstance(x, S) else float(scipy.stats.norm.cdf(x))

    @staticmethod
    def normppf(x):
        return sym.fn("normppf", x) if isinstance(x, S) else float(scipy.stats.norm.ppf(x))

    @staticmethod
    def digamma(x):
        return sym.fn("polygamma", sym.const(0), x) if isinstance(x, S) else float(scipy.special.digamma(x))


KNOWN = " (known deviation)"


class Goal:
    """alt: the value the code is known to return instead of rhs (a listed finding); a failure with
    exactly that value is reported as the known deviation, any other failure as a new violation"""
    __slots__ = ("label", "lhs", "rel", "rhs", "tol", "alt")

    def __init__(self, label, lhs, rel, rhs, tol=None, alt=None):
        self.label, self.lhs, self.rel, self.rhs, self.tol, self.alt = label, lhs, rel, rhs, tol, alt


def scal(x):
    if isinstance(x, np.ndarray):
        return x.reshape(-1)[0] if x.size == 1 else x
    return x


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def eqs(label, A, B, tol=None, alt=None):
    """elementwise equality goals of two arrays (also their shapes)"""
    A, B = dense(A), dense(B)
    if alt is not None:
        alt = dense(alt)
    if A.shape != B.shape:
        if A.size == B.size and A.size == 1:
            A, B = A.reshape(1), B.reshape(1)
        else:
            return [Goal("%s shape %s!=%s" % (label, A.shape, B.shape), len(A.shape) + 0.0, "==", -1.0)]
    out = []
    for i in np.ndindex(*A.shape):
        out.append(Goal(label + ("[%s]" % ",".join(map(str, i)) if i else ""), A[i], "==", B[i], tol,
                        None if alt is None else alt[i]))
    return out


class Reject(Exception):
    """sampled point outside the assumptions"""


class Inputs:
    """common interface; kinds: real, pos, unit (0,1)"""

    sym = False

    def arr(self, name, shape, kind="real", order="C", **k):
        if isinstance(shape, int):
            shape = (shape,)
        out = np.empty(shape, dtype=object if self.sym else float, order=order)
        for i in np.ndindex(*shape):
            out[i] = self.var(name + "".join("_%d" % j for j in i), kind, **k)
        if self.sym:
            from . import shim
            return out.view(shim.SymArray)
        return out

    def real(self, name, **k):
        return self.var(name, "real", **k)

    def pos(self, name, **k):
        return self.var(name, "pos", **k)

    def unit(self, name, **k):
        return self.var(name, "unit", **k)

    def const(self, a):
        """constant data in the current mode"""
        if self.sym:
            from . import shim
            return shim.tosym(np.asarray(a, dtype=float))
        return np.asarray(a, dtype=float)

    def simplex(self, name, k):
        """k probabilities summing to one: p_i = w_i / sum(w)"""
        w = self.arr(name, k, "pos")
        s = w[0]
        for x in w[1:]:
            s = s + x
        return w / s


class SymIn(Inputs):
    sym = True

    def __init__(self):
        self.kinds = {}
        self.out = None

    def begin(self):
        self.kinds = {}

    def var(self, name, kind="real", lo=None, hi=None):
        from . import fnf
        v = sym.var(name)
        self.kinds[name] = (kind, lo, hi)
        if kind == "pos" or (lo is not None and lo >= 0):
            fnf.POS_VARS.add(name)
        if kind == "unit":
            fnf.POS_VARS.add(name)
            self.assume(v < 1)
        if lo is not None:
            self.assume(v > lo)
        if hi is not None:
            self.assume(v < hi)
        return v

    def assume(self, b):
        if isinstance(b, SymBool):
            sym.CTX.explorer.assume(b)
        elif not b:
            from .explore import Infeasible
            raise Infeasible()

    def D(self, sel, name):
        return sym.diff(sym.const(scal(sel(self.out))), sym.var(name))

    def D2(self, sel, n1, n2):
        return sym.diff(sym.diff(sym.const(scal(sel(self.out))), sym.var(n1)), sym.var(n2))


class ConcIn(Inputs):
    def __init__(self, case, env=None, seed=0):
        self.case = case
        self.given = env
        self.env = {}
        self.kinds = {}
        self.rng = random.Random(seed)
        self.out = None
        self.hs = 1.0
        self.used_fd = False

    def begin(self):
        self.kinds = {}

    def var(self, name, kind="real", lo=None, hi=None):
        if name in self.env:
            v = self.env[name]
        elif self.given is not None and name in self.given:
            v = self.given[name]
        else:
            r = self.rng
            if lo is not None and hi is not None:
                v = lo + (hi - lo) * (0.02 + 0.96 * r.random())
            elif kind == "real" and lo is None and hi is None:
                v = r.gauss(0, 1)
            elif kind == "unit":
                v = 0.02 + 0.96 * r.random()
            else:
                v = (lo or 0.0) + math.exp(r.gauss(0, 0.6))
                if hi is not None:
                    v = hi - math.exp(r.gauss(0, 0.6))
        self.env[name] = v = float(v)
        self.kinds[name] = (kind, lo, hi)
        if kind == "pos" and not v > 0 or kind == "unit" and not 0 < v < 1:
            raise Reject()
        if lo is not None and not v > lo or hi is not None and not v < hi:
            raise Reject()
        return v

    def assume(self, b):
        if not bool(b):
            raise Reject()

    def _at(self, sel, shifts):
        self.used_fd = True
        env = dict(self.env)
        for n, h in shifts:
            env[n] = env[n] + h
        J = ConcIn(self.case, env)
        J.out = self.case.run(J)
        return float(scal(sel(J.out)))

    def D(self, sel, name):
        if name not in self.env:
            return 0.0
        h = self.hs * 1e-3 * min(1.0, abs(self.env[name]) if self.kinds[name][0] != "real" else 1.0)
        f = lambda k: self._at(sel, [(name, k * h)])
        return (8 * (f(1) - f(-1)) - (f(2) - f(-2))) / (12 * h)

    def D2(self, sel, n1, n2):
        if n1 not in self.env or n2 not in self.env:
            return 0.0
        hs = {n: self.hs * 3e-3 * min(1.0, abs(self.env[n]) if self.kinds[n][0] != "real" else 1.0) for n in (n1, n2)}
        w = {1: 8.0, -1: -8.0, 2: -1.0, -2: 1.0}
        t = 0.0
        for a, wa in w.items():
            for b, wb in w.items():
                t += wa * wb * self._at(sel, [(n1, a * hs[n1]), (n2, b * hs[n2])])
        return t / (144 * hs[n1] * hs[n2])


class Case:
    """one bounded harness.  Subclasses or instances provide run(I) -> dict and goals(I, out)"""

    exts = ()
    trans = False
    max_paths = 64
    timeout_ms = 60000
    raises_ok = ()
    fd_tol = 2e-4
    tol = 1e-6
    samples = 3
    validate = True
    generic = False  # zero tests of values that are not identically zero take the nonzero branch

    def __init__(self, name, run=None, goals=None, bounds="", exts=None, **kw):
        self.name = name
        if run is not None:
            self._run = run
        if goals is not None:
            self._goals = goals
        self.bounds = bounds
        if exts is not None:
            self.exts = exts
        for k, v in kw.items():
            setattr(self, k, v)

    def run(self, I):
        return self._run(I)

    def goals(self, I, out):
        return self._goals(I, out)


def flatten(x, pre=""):
    """outputs -> list of (path, scalar)"""
    res = []
    if isinstance(x, dict):
        for k in x:
            res += flatten(x[k], pre + "/" + str(k))
    elif isinstance(x, (list, tuple)):
        for i, v in enumerate(x):
            res += flatten(v, pre + "/%d" % i)
    elif hasattr(x, "toarray"):
        res += flatten(x.toarray(), pre)
    elif isinstance(x, np.ndarray):
        if x.dtype.kind in "US":
            return [(pre + "/" + str(i), str(v)) for i, v in enumerate(x.flat)]
        if x.ndim == 0:
            return flatten(x[()], pre)
        res += [(pre + "[%s]" % ",".join(map(str, i)), x[i]) for i in np.ndindex(*x.shape)]
    elif x is None or isinstance(x, str):
        res.append((pre, x))
    else:
        res.append((pre, x))
    return res


def violated(g, tol):
    """does a goal over floats fail beyond tolerance?"""
    try:
        a, b = float(scal(g.lhs)), float(scal(g.rhs))
    except (TypeError, ValueError):
        return g.lhs != g.rhs
    if math.isnan(a) and math.isnan(b):
        return False
    if math.isnan(a) or math.isnan(b):
        return True
    t = g.tol if g.tol is not None else tol
    if math.isinf(a) or math.isinf(b):
        return {"==": a != b, "<=": a > b, ">=": a < b, "<": a >= b, ">": a <= b, "!=": a == b}[g.rel]
    s = t * (1 + abs(a) + abs(b))
    if g.rel == "==":
        return abs(a - b) > s
    if g.rel in ("<=", "<"):
        return a > b + s
    if g.rel in (">=", ">"):
        return a < b - s
    if g.rel == "!=":
        return abs(a - b) < 1e-12
    raise ValueError(g.rel)
