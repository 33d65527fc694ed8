"""Stand-ins for numpy / scipy / math inside the mssm modules while they run on symbolic values.

numpy's own object-array machinery does most of the work; what is replaced here is array creation
(object instead of float), predicates without an object loop, linear algebra kernels, scipy.sparse
(dense-backed exact sparse arrays) and the scipy.stats / scipy.special functions the families use,
each by its textbook definition.  Every replacement is an assumption of the check and is listed in
the evidence (ASSUMPTIONS).
"""
import builtins
import math as _math
import numbers
from fractions import Fraction

import numpy as _np
import scipy as _scp
import scipy.optimize, scipy.differentiate, scipy.sparse, scipy.stats, scipy.special, scipy.linalg, scipy.signal  # noqa

from . import sym
from .sym import S, SymBool, SymError, const, fn, PI, ONE, ZERO, CTX

ASSUMPTIONS = [
    "floating point arithmetic is read as exact real arithmetic (constants as exact rationals)",
    "numpy object-array arithmetic, indexing and reductions behave as on float arrays",
    "scipy.sparse arrays are modelled by exact dense-backed arrays with a stored-entry mask",
    "scipy.stats densities/cdfs and scipy.special functions are replaced by their textbook formulas",
]


class SymArray(_np.ndarray):
    """object ndarray whose casts to float stay symbolic"""

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, *a, **k):
        if _is_floatish(dtype):
            return self.copy()
        return _np.asarray(self).astype(dtype, *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.ndim == 0:
            return arr[()]
        return arr.view(SymArray) if arr.dtype == object else _np.asarray(arr)

    def __setitem__(self, k, v):
        if self.dtype == object:
            if isinstance(v, numbers.Real) and not isinstance(v, (bool, _np.bool_, S)):
                v = const(v)
            elif isinstance(v, _np.ndarray) and v.dtype.kind in "iuf":
                v = tosym(v.astype(float))
            elif isinstance(v, (list, tuple)):
                v = _np_array(v)
        _np.ndarray.__setitem__(self, k, v)

    def __reduce__(self):
        raise SymError("pickle of a symbolic array")

    def std(self, *a, **k):
        return _std(self, *a, **k)

    def var(self, *a, **k):
        return _var(self, *a, **k)

    def round(self, *a, **k):
        return self


def _is_floatish(dtype):
    try:
        return _np.dtype(dtype).kind in "fO"
    except TypeError:
        return False


def wrap(a):
    """object arrays become SymArray"""
    if isinstance(a, _np.ndarray) and a.dtype == object and type(a) is _np.ndarray:
        return a.view(SymArray)
    return a


def tosym(a):
    """float data -> object array of S"""
    a = _np.asarray(a)
    if a.dtype != object:
        if a.dtype.kind in "f":
            out = _np.empty(a.shape, dtype=object, order="F" if a.ndim > 1 and a.flags.f_contiguous else "C")
            for i in _np.ndindex(*a.shape):
                out[i] = const(float(a[i]))
            return out.view(SymArray)
        return a
    return wrap(a)


def has_sym(x):
    if isinstance(x, (S, SymBool)):
        return True
    if isinstance(x, SpSym):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(v) for v in x)
    return False


def _filled(shape, v, order="C"):
    out = _np.empty(shape, dtype=object, order=order or "C")
    out.fill(v)
    return out.view(SymArray)


def _elem(x, f, otype=object):
    if isinstance(x, S):
        return f(x)
    x = _np.asarray(x)
    out = _np.empty(x.shape, dtype=otype)
    for i in _np.ndindex(*x.shape):
        out[i] = f(x[i])
    return wrap(out) if x.shape else out[()]


def bcast(f, *args):
    """apply scalar function elementwise with broadcasting"""
    if not any(isinstance(a, (_np.ndarray, list, tuple)) for a in args):
        return f(*[const(a) for a in args])
    arrs = _np.broadcast_arrays(*[_np.asarray(a, dtype=object) for a in args])
    out = _np.empty(arrs[0].shape, dtype=object)
    for i in _np.ndindex(*out.shape):
        out[i] = f(*[const(a[i]) for a in arrs])
    return out.view(SymArray) if out.shape else out[()]


def _var(a, axis=None, ddof=0, keepdims=False, **k):
    a = _np.asarray(a)
    m = a.mean(axis=axis, keepdims=True)
    d = a - m
    n = a.size if axis is None else a.shape[axis]
    return (d * d).sum(axis=axis, keepdims=keepdims) / (n - ddof)


def _std(a, *args, **k):
    v = _var(a, *args, **k)
    return v.sqrt() if isinstance(v, S) else _np.sqrt(v)


class _NS:
    """attribute proxy: overrides first, the real module otherwise"""

    def __init__(self, real, **over):
        object.__setattr__(self, "_real", real)
        object.__setattr__(self, "_over", over)

    def __getattr__(self, n):
        o = object.__getattribute__(self, "_over")
        if n in o:
            return o[n]
        v = getattr(object.__getattribute__(self, "_real"), n)
        if callable(v) and not isinstance(v, type) and not isinstance(v, _np.ufunc):
            return _wrapped(v)
        return v


def _wrapped(v):
    def g(*a, **k):
        return _wrapout(v(*a, **k))

    g.__name__ = getattr(v, "__name__", "f")
    return g


def _wrapout(r):
    if isinstance(r, _np.ndarray):
        return wrap(r)
    if isinstance(r, tuple):
        return tuple(_wrapout(x) for x in r) if type(r) is tuple else r
    if isinstance(r, list):
        return [_wrapout(x) for x in r]
    return r


# --- numpy ------------------------------------------------------------------------------------
def _np_zeros(shape, dtype=None, order="C", **k):
    if dtype is not None and not _is_floatish(dtype):
        return _np.zeros(shape, dtype=dtype, order=order)
    return _filled(shape, ZERO, order)


def _np_ones(shape, dtype=None, order="C", **k):
    if dtype is not None and not _is_floatish(dtype):
        return _np.ones(shape, dtype=dtype, order=order)
    return _filled(shape, ONE, order)


def _np_full(shape, fill_value, dtype=None, order="C", **k):
    if dtype is not None and not _is_floatish(dtype):
        return _np.full(shape, fill_value, dtype=dtype, order=order)
    if isinstance(fill_value, (float, S)) and dtype is None or dtype is not None:
        if isinstance(fill_value, numbers.Real) or isinstance(fill_value, S):
            return _filled(shape, const(fill_value), order)
    return wrap(_np.full(shape, fill_value))


def _np_zeros_like(a, dtype=None, **k):
    a = _arr(a)
    if dtype is None and a.dtype.kind not in "fO":
        return _np.zeros_like(a)
    return _np_zeros(k.get("shape") or a.shape, dtype)


def _np_ones_like(a, dtype=None, **k):
    a = _arr(a)
    if dtype is None and a.dtype.kind not in "fO":
        return _np.ones_like(a)
    return _np_ones(k.get("shape") or a.shape, dtype)


def _np_full_like(a, v, dtype=None, **k):
    return _np_full(_arr(a).shape, v, dtype)


def _np_eye(N, M=None, k=0, dtype=None, **kw):
    if dtype is not None and not _is_floatish(dtype):
        return _np.eye(N, M, k, dtype=dtype)
    return tosym(_np.eye(N, M, k))


def _arr(a):
    if isinstance(a, SpSym):
        return a.toarray()
    return _np.asarray(a)


def _np_array(a, dtype=None, copy=True, order=None, ndmin=0, **k):
    if isinstance(a, SpSym):
        a = a.toarray()
    if dtype is not None and _is_floatish(dtype):
        r = _np.array(a, dtype=object, order=order or "K", ndmin=ndmin)
        return tosym(_deep_lift(r))
    r = _np.array(a, dtype=dtype, order=order or "K", ndmin=ndmin) if dtype is not None else _np.array(
        a, order=order or "K", ndmin=ndmin
    )
    if r.dtype.kind == "f":
        r = tosym(r)
    elif r.dtype == object:
        r = _deep_lift(r)
    return wrap(r)


def _deep_lift(r):
    for i in _np.ndindex(*r.shape):
        v = r[i]
        if isinstance(v, (numbers.Real, _np.bool_)) and not isinstance(v, (bool, _np.bool_)):
            r[i] = const(v)
    return wrap(r)


def _np_asarray(a, dtype=None, order=None, **k):
    if isinstance(a, _np.ndarray) and a.dtype == object and (dtype is None or _is_floatish(dtype)):
        return _np.asarray(a, order=order).view(SymArray)
    return _np_array(a, dtype=dtype, order=order)


def _np_asfortranarray(a, dtype=None):
    r = _np_asarray(a, dtype)
    return wrap(_np.asfortranarray(r))


def _np_ascontiguousarray(a, dtype=None):
    return wrap(_np.ascontiguousarray(_np_asarray(a, dtype)))


def _pred(name):
    real = getattr(_np, name)

    def g(x, *a, **k):
        if isinstance(x, S):
            return getattr(x, name)()
        if isinstance(x, SpSym):
            x = x.toarray()
        x = _np.asarray(x)
        if x.dtype != object:
            return real(x, *a, **k)
        r = _elem(x, lambda v: getattr(const(v), name)(), bool)
        return _np.asarray(r) if x.shape else bool(r)

    return g


def _np_sum(a, *args, **k):
    if isinstance(a, SpSym):
        return a.sum(*args, **k)
    return _wrapout(_np.sum(a, *args, **k))


def _np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    if not (has_sym(a) or has_sym(b)):
        return _np.isclose(a, b, rtol, atol, **k)
    a, b = _np.broadcast_arrays(_arr(a), _arr(b))
    out = _np.empty(a.shape, dtype=bool)
    for i in _np.ndindex(*a.shape):
        x, y = const(a[i]), const(b[i])
        out[i] = bool(abs(x - y) <= atol + rtol * abs(y))
    return out if out.shape else bool(out)


def _np_allclose(a, b, *r, **k):
    return bool(_np.all(_np_isclose(a, b, *r, **k)))


def _np_where(c, *args):
    if not args:
        return _np.where(_boolarr(c))
    c = _boolarr(c)
    a, b = args
    if has_sym(a) or has_sym(b) or True:
        c, a, b = _np.broadcast_arrays(c, _np.asarray(a), _np.asarray(b))
        if a.dtype == object or b.dtype == object or a.dtype.kind == "f" or b.dtype.kind == "f":
            out = _np.empty(c.shape, dtype=object)
            for i in _np.ndindex(*c.shape):
                out[i] = const(a[i] if c[i] else b[i])
            return out.view(SymArray)
        return _np.where(c, a, b)


def _boolarr(c):
    c = _np.asarray(c)
    if c.dtype == object:
        c = _np.array([bool(v) for v in c.flat], dtype=bool).reshape(c.shape)
    return c


def _np_einsum(*a, **k):
    k.pop("optimize", None)
    return _wrapout(_np.einsum(*a, **k))


def _np_clip(a, lo=None, hi=None, **k):
    def f(v):
        if lo is not None and v < lo:
            return const(lo)
        if hi is not None and v > hi:
            return const(hi)
        return v

    return _elem(a, lambda v: f(const(v))) if not isinstance(a, S) else f(a)


def _np_nan_to_num(a, nan=0.0, **k):
    return _elem(a, lambda v: const(nan) if const(v).isnan() else const(v))


def _np_logaddexp(a, b):
    return bcast(lambda x, y: (x.exp() + y.exp()).log(), a, b)


def _np_float(x):
    return x if isinstance(x, S) else float(x)


def _np_norm(x, ord=None, axis=None, keepdims=False):
    if isinstance(x, SpSym):
        x = x.toarray()
    x = _np.asarray(x, dtype=object)
    if ord in (None, 2, "fro") and (x.ndim == 1 or ord != 2 or axis is not None or 1 in x.shape):
        if axis is None:
            r = (x * x).sum()
            return const(r).sqrt()
        r = (x * x).sum(axis=axis, keepdims=keepdims)
        return const(r).sqrt() if not isinstance(r, _np.ndarray) else wrap(_np.sqrt(r))
    if ord == 1 and x.ndim == 2:
        return max_((abs(x)).sum(axis=0))
    if ord == _np.inf:
        a = abs(x)
        return max_(a.flat if x.ndim == 1 else a.sum(axis=1))
    raise SymError("norm ord=%r" % (ord,))


def max_(it):
    m = None
    for v in it:
        if m is None or v > m:
            m = v
    return m


def mat(a):
    if isinstance(a, SpSym):
        a = a.toarray()
    a = _np.asarray(a)
    return _np.array([[const(v) for v in r] for r in a], dtype=object).reshape(a.shape)


def det(a):
    a = mat(a)
    n = a.shape[0]
    if n == 0:
        return ONE
    if n == 1:
        return a[0, 0]
    memo = {}

    def rec(i, cols):
        if not cols:
            return ONE
        r = memo.get(cols)
        if r is not None:
            return r
        t = ZERO
        for k, c in enumerate(cols):
            if a[i, c] is ZERO:
                continue
            m = a[i, c] * rec(i + 1, cols[:k] + cols[k + 1:])
            t = t + m if k % 2 == 0 else t - m
        memo[cols] = t
        return t

    return rec(0, tuple(range(n)))


def inv(a):
    a = mat(a)
    n = a.shape[0]
    d = det(a)
    out = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            sub = _np.delete(_np.delete(a, i, 0), j, 1)
            c = det(sub)
            out[j, i] = (c if (i + j) % 2 == 0 else -c) / d
    return out.view(SymArray)


def solve(a, b, **k):
    b = _arr(b)
    return wrap(inv(a) @ b)


def cholesky(a, lower=True, **k):
    a = mat(a)
    n = a.shape[0]
    L = _np.empty((n, n), dtype=object)
    L.fill(ZERO)
    for j in range(n):
        s = a[j, j]
        for t in range(j):
            s = s - L[j, t] * L[j, t]
        if not (s > 0):
            raise _np.linalg.LinAlgError("not positive definite")
        L[j, j] = s.sqrt()
        for i in range(j + 1, n):
            s = a[i, j]
            for t in range(j):
                s = s - L[i, t] * L[j, t]
            L[i, j] = s / L[j, j]
    return (L if lower else L.T).view(SymArray)


def solve_triangular(a, b, trans=0, lower=False, unit_diagonal=False, **k):
    a, b = mat(a), _np.asarray(_arr(b), dtype=object)
    one = b.ndim == 1
    if one:
        b = b.reshape(-1, 1)
    if trans in (1, "T"):
        a, lower = a.T, not lower
    n = a.shape[0]
    x = _np.empty(b.shape, dtype=object)
    order = range(n) if lower else range(n - 1, -1, -1)
    for c in range(b.shape[1]):
        for i in order:
            s = const(b[i, c])
            for j in (range(i) if lower else range(i + 1, n)):
                s = s - a[i, j] * x[j, c]
            x[i, c] = s / a[i, i]
    x = x.view(SymArray)
    return x[:, 0] if one else x


def slogdet(a):
    d = det(a)
    s = CTX.explorer.sign(d)
    return const(s), abs(d).log()


def _unsupported(name):
    def g(*a, **k):
        if not any(has_sym(x) and not _all_const(x) for x in a):
            raise _Fallback()
        raise SymError("no symbolic model of " + name)

    return g


class _Fallback(Exception):
    pass


def _all_const(x):
    if isinstance(x, S):
        return sym.const_float(x) is not None
    if isinstance(x, SpSym):
        return _all_const(x.A)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return all(_all_const(v) for v in x.flat)
    return True


def tofloat(x):
    """concrete symbolic data back to floats"""
    if isinstance(x, S):
        return float(x)
    if isinstance(x, SpSym):
        return x.to_scipy()
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _np.array([float(v) for v in x.flat]).reshape(x.shape)
    return x


def numeric(real, name=None):
    """kernel without symbolic model: allowed on constant data, evaluated in floats"""

    def g(*a, **k):
        if not all(_all_const(x) for x in a):
            raise SymError("no symbolic model of %s" % (name or getattr(real, "__name__", "?")))
        r = real(*[tofloat(x) for x in a], **{kk: tofloat(v) for kk, v in k.items()})
        return _tosym_out(r)

    return g


def _diagonal(A):
    """entries of a symbolic diagonal matrix, None for any other"""
    A = _np.asarray(A)
    if A.dtype != object or A.ndim != 2 or A.shape[0] != A.shape[1]:
        return None
    n = A.shape[0]
    for i in range(n):
        for j in range(n):
            if i != j:
                e = A[i, j]
                if not (_all_const(e) and float(tofloat(e)) == 0.0):
                    return None
    return [A[i, i] for i in range(n)]


def _order(d, descending):
    """sorting permutation, decided on the path"""
    o = []
    for i in range(len(d)):
        k = len(o)
        while k > 0 and bool((d[i] > d[o[k - 1]]) if descending else (d[i] < d[o[k - 1]])):
            k -= 1
        o.insert(k, i)
    return o


def _unit(o):
    n = len(o)
    U = _np.zeros((n, n))
    for k, i in enumerate(o):
        U[i, k] = 1.0
    return U


def diag_eigh(real, vectors=True):
    g0 = numeric(real, "eigh")

    def g(A, *a, **k):
        d = None if _all_const(A) else _diagonal(A)
        if d is None:
            return g0(A, *a, **k)
        o = _order(d, False)
        w = _np.array([d[i] for i in o], dtype=object).view(SymArray)
        return (w, tosym(_unit(o))) if vectors else w

    return g


def diag_svd(real):
    g0 = numeric(real, "svd")

    def g(A, *a, **k):
        d = None if _all_const(A) else _diagonal(A)
        if d is None:
            return g0(A, *a, **k)
        sg = [-1.0 if bool(x < 0) else 1.0 for x in d]
        s = [-x if g_ < 0 else x for x, g_ in zip(d, sg)]
        o = _order(s, True)
        U = _unit(o)
        Vt = _np.array([[sg[i] if i == j else 0.0 for j in range(len(o))] for i in o])
        return tosym(U), _np.array([s[i] for i in o], dtype=object).view(SymArray), tosym(Vt)

    return g


def _tosym_out(r):
    if isinstance(r, _np.ndarray):
        return tosym(r) if r.dtype.kind == "f" else r
    if isinstance(r, tuple):
        return tuple(_tosym_out(x) for x in r)
    if isinstance(r, (float, _np.floating)):
        return const(r)
    return r


_LINALG = dict(
    norm=_np_norm,
    inv=inv,
    solve=solve,
    det=det,
    slogdet=slogdet,
    cholesky=cholesky,
    qr=numeric(_np.linalg.qr, "qr"),
    eigh=diag_eigh(_np.linalg.eigh),
    eigvalsh=diag_eigh(_np.linalg.eigvalsh, False),
    svd=diag_svd(_np.linalg.svd),
    matrix_rank=numeric(_np.linalg.matrix_rank, "rank"),
    pinv=numeric(_np.linalg.pinv, "pinv"),
)


def _nanext(cmp, real):
    def g(a, *r, **k):
        a = _np.asarray(a)
        if a.dtype != object or r or k:
            return real(a, *r, **k)
        m = None
        for v in a.flat:
            v = const(v)
            if not v.isnan() and (m is None or cmp(v, m)):
                m = v
        return m

    return g


def _qr(a, *args, mode="full", pivoting=False, **k):
    """one column: the Householder reflection of LAPACK's geqrf; otherwise constant data only"""
    A = _arr(a)
    if _all_const(A) or A.ndim != 2 or A.shape[1] != 1 or pivoting or mode != "full":
        return numeric(_scp.linalg.qr, "qr")(a, *args, mode=mode, pivoting=pivoting, **k)
    x = [const(v) for v in A[:, 0]]
    n = len(x)
    t = ZERO
    for v in x[1:]:
        t = t + v * v
    if t is ZERO:
        return _np_eye(n), wrap(A.copy())
    nrm = (x[0] * x[0] + t).sqrt()
    beta = -nrm if x[0] >= 0 else nrm
    tau = (beta - x[0]) / beta
    v = [ONE] + [e / (x[0] - beta) for e in x[1:]]
    Q = _np.empty((n, n), dtype=object)
    for i in range(n):
        for j in range(n):
            Q[i, j] = (ONE if i == j else ZERO) - tau * v[i] * v[j]
    R = _np.empty((n, 1), dtype=object)
    R.fill(ZERO)
    R[0, 0] = beta
    return Q.view(SymArray), R.view(SymArray)


def _np_fliplike(f):
    return _wrapped(f)


def _ufun(name, real):
    def g(x, *a, **k):
        if isinstance(x, SpSym):
            return SpSym._mk(getattr(g, "f")(x.A), x.M.copy(), x.fmt)
        return _wrapout(real(x, *a, **k))

    g.f = real
    return g


def _np_abs(x, *a, **k):
    if isinstance(x, SpSym):
        return abs(x)
    return _wrapout(_np.abs(x, *a, **k))


class _NpProxy(_NS):
    def __call__(self, *a, **k):
        raise TypeError


def _np_isscalar(x):
    return isinstance(x, S) or _np.isscalar(x)


def _np_unique(a, *args, **k):
    a = _np.asarray(a)
    if a.dtype == object and all(isinstance(v, S) and v.is_const for v in a.flat):
        r = _np.unique(tofloat(a), *args, **k)
        return _tosym_out(r)
    return _wrapout(_np.unique(a, *args, **k))


def _np_isin(a, b, **k):
    return _np.isin(tofloat(_np.asarray(a)), tofloat(_np.asarray(b)), **k)


def _np_linspace(a, b, *r, **k):
    if has_sym(a) or has_sym(b):
        n = r[0] if r else k.get("num", 50)
        a, b = const(a), const(b)
        return _deep_lift(_np.array([a + (b - a) * Fraction(i, max(n - 1, 1)) for i in range(n)], dtype=object))
    return _np.linspace(a, b, *r, **k)


def _np_diff(a, n=1, axis=-1, **k):
    return _wrapout(_np.diff(a, n=n, axis=axis, **k))


def _np_quiet(f):
    return _wrapped(f)


class _Finfo:
    eps = 2.220446049250313e-16
    max = 1.7976931348623157e308
    min = -1.7976931348623157e308
    tiny = 2.2250738585072014e-308
    smallest_normal = 2.2250738585072014e-308
    resolution = 1e-15


def _np_median(a, *r, **k):
    raise SymError("median")


def _np_sort(a, *r, **k):
    a = _np.asarray(a)
    return _wrapout(_np.sort(a, *r, **k))


NP = _NpProxy(
    _np,
    zeros=_np_zeros, ones=_np_ones, empty=_np_zeros, full=_np_full,
    zeros_like=_np_zeros_like, ones_like=_np_ones_like, empty_like=_np_zeros_like,
    full_like=_np_full_like, eye=_np_eye, identity=lambda n, dtype=None: _np_eye(n, dtype=dtype),
    array=_np_array, asarray=_np_asarray, asanyarray=_np_asarray,
    asfortranarray=_np_asfortranarray, ascontiguousarray=_np_ascontiguousarray,
    isnan=_pred("isnan"), isinf=_pred("isinf"), isfinite=_pred("isfinite"),
    sum=_np_sum, isclose=_np_isclose, allclose=_np_allclose, where=_np_where, einsum=_np_einsum,
    clip=_np_clip, nan_to_num=_np_nan_to_num, logaddexp=_np_logaddexp,
    linalg=_NS(_np.linalg, **_LINALG), pi=PI, abs=_np_abs, absolute=_np_abs,
    isscalar=_np_isscalar, unique=_np_unique, isin=_np_isin, linspace=_np_linspace,
    finfo=lambda *a: _Finfo, std=_std, var=_var, e=const(1).exp_sym(),
    quantile=numeric(_np.quantile, "quantile"), histogram=numeric(_np.histogram, "histogram"),
    ndarray=_np.ndarray, nanmin=_nanext(lambda a, b: a < b, _np.nanmin), nanmax=_nanext(lambda a, b: a > b, _np.nanmax),
    sqrt=_ufun("sqrt", _np.sqrt), exp=_ufun("exp", _np.exp), log=_ufun("log", _np.log),
)


# --- math -------------------------------------------------------------------------------------
def _m(name, f):
    real = getattr(_math, name)

    def g(x, *a):
        return f(x, *a) if isinstance(x, S) or any(isinstance(v, S) for v in a) else real(x, *a)

    return g


MATH = _NS(
    _math,
    log=_m("log", lambda x, b=None: const(x).log() if b is None else const(x).log() / const(b).log()),
    exp=_m("exp", lambda x: x.exp()), sqrt=_m("sqrt", lambda x: x.sqrt()),
    pow=_m("pow", lambda x, y: const(x) ** const(y)), log1p=_m("log1p", lambda x: x.log1p()),
    expm1=_m("expm1", lambda x: x.expm1()), lgamma=_m("lgamma", lambda x: fn("gammaln", x)),
    fabs=_m("fabs", abs), isnan=_m("isnan", lambda x: x.isnan()), isinf=_m("isinf", lambda x: x.isinf()),
    isfinite=_m("isfinite", lambda x: x.isfinite()), pi=PI,
)


# --- scipy.sparse -----------------------------------------------------------------------------
class SpSym:
    """exact sparse array: dense object array plus mask of stored entries"""

    __array_priority__ = 1000.0
    __array_ufunc__ = None
    fmt = "csc"

    def __new__(cls, *a, **k):
        return object.__new__(cls)

    def __init__(self, arg=None, shape=None, dtype=None, copy=False, **k):
        cls_fmt = type(self).fmt
        if isinstance(arg, SpSym):
            self.A, self.M = arg.A.copy(), arg.M.copy()
        elif _scp.sparse.issparse(arg):
            c = arg.tocoo()
            self.A = tosym(arg.toarray().astype(float))
            self.M = _np.zeros(arg.shape, dtype=bool)
            self.M[c.row, c.col] = True
        elif isinstance(arg, tuple) and len(arg) == 2 and isinstance(arg[1], tuple):
            data, (row, col) = arg
            row = _np.asarray(_ints(row))
            col = _np.asarray(_ints(col))
            if shape is None:
                shape = (int(row.max()) + 1, int(col.max()) + 1)
            self._coo(data, row, col, shape)
        elif isinstance(arg, tuple) and len(arg) == 3:
            data, indices, indptr = arg
            indices, indptr = _ints(indices), _ints(indptr)
            maj = _np.repeat(_np.arange(len(indptr) - 1), _np.diff(indptr))
            data = _np.asarray(data)[: len(maj)]
            indices = indices[: len(maj)]
            if shape is None:
                mn = int(indices.max()) + 1 if len(indices) else 0
                shape = (len(indptr) - 1, mn) if cls_fmt == "csr" else (mn, len(indptr) - 1)
            if cls_fmt == "csr":
                self._coo(data, maj, indices, shape)
            else:
                self._coo(data, indices, maj, shape)
        elif isinstance(arg, tuple) and len(arg) == 2:
            self.A = _filled(tuple(int(x) for x in arg), ZERO)
            self.M = _np.zeros(self.A.shape, dtype=bool)
        else:
            a = _np.asarray(arg)
            if a.ndim < 2:
                a = a.reshape(1, -1)
            self.A = tosym(a.astype(float) if a.dtype.kind in "biu" else a).copy()
            self.A = _deep_lift(self.A)
            self.M = _np.array([not (const(v) is ZERO) for v in self.A.flat], dtype=bool).reshape(a.shape)
        self.fmt = cls_fmt

    def _coo(self, data, row, col, shape):
        for nm, ix, k in (("row", row, 0), ("column", col, 1)):
            if len(ix) and (_np.max(ix) >= shape[k] or _np.min(ix) < 0):
                raise ValueError(("negative %s index found" if _np.min(ix) < 0 else "%s index exceeds matrix dimensions") % nm)
        self.A = _filled(tuple(int(x) for x in shape), ZERO)
        self.M = _np.zeros(self.A.shape, dtype=bool)
        data = _np.asarray(data)
        for d, r, c in zip(data.flat, row.flat, col.flat):
            self.A[r, c] = self.A[r, c] + const(d)
            self.M[r, c] = True

    @staticmethod
    def _mk(A, M=None, fmt="csc"):
        cls = {"csc": csc_array, "csr": csr_array, "coo": coo_array}.get(fmt, csc_array)
        s = object.__new__(cls)
        s.A = _deep_lift(_np.array(A, dtype=object)) if not isinstance(A, SymArray) else A
        if M is None:
            M = _np.array([not (const(v) is ZERO) for v in s.A.flat], dtype=bool).reshape(s.A.shape)
        s.M = M
        s.fmt = fmt
        return s

    # structure
    @property
    def shape(self):
        return self.A.shape

    ndim = 2

    @property
    def dtype(self):
        return _np.dtype(float)

    @property
    def format(self):
        return self.fmt

    @property
    def nnz(self):
        return int(self.M.sum())

    def getnnz(self, axis=None):
        return self.M.sum(axis=axis)

    def count_nonzero(self, axis=None):
        return int(_np.sum([[bool(self.A[i, j] != 0) for j in range(self.shape[1])] for i in range(self.shape[0])]))

    def _order(self):
        if self.fmt == "csr" or self.fmt == "coo":
            return [(i, j) for i in range(self.shape[0]) for j in range(self.shape[1]) if self.M[i, j]]
        return [(i, j) for j in range(self.shape[1]) for i in range(self.shape[0]) if self.M[i, j]]

    @property
    def data(self):
        o = self._order()
        out = _np.empty(len(o), dtype=object)
        for k, ij in enumerate(o):
            out[k] = self.A[ij]
        v = out.view(_WriteBack)
        v._sp, v._ord = self, o
        return v

    @data.setter
    def data(self, d):
        for ij, v in zip(self._order(), _np.asarray(d).flat):
            self.A[ij] = const(v)

    @property
    def indices(self):
        return _np.array([(j if self.fmt == "csr" else i) for i, j in self._order()], dtype=_np.int64)

    @property
    def indptr(self):
        ax = 1 if self.fmt == "csr" else 0
        return _np.concatenate([[0], _np.cumsum(self.M.sum(axis=ax))]).astype(_np.int64)

    @property
    def row(self):
        return _np.array([i for i, j in self._order()], dtype=_np.int64)

    @property
    def col(self):
        return _np.array([j for i, j in self._order()], dtype=_np.int64)

    @property
    def coords(self):
        return (self.row, self.col)

    has_sorted_indices = True
    has_canonical_format = True

    def sort_indices(self):
        pass

    def sum_duplicates(self):
        pass

    def sorted_indices(self):
        return self.copy()

    def eliminate_zeros(self):
        self.M = self.M & _np.array([not (v is ZERO) for v in self.A.flat]).reshape(self.shape)

    def prune(self):
        pass

    def nonzero(self):
        o = [(i, j) for i in range(self.shape[0]) for j in range(self.shape[1]) if self.A[i, j] is not ZERO]
        return _np.array([x[0] for x in o], dtype=int), _np.array([x[1] for x in o], dtype=int)

    def copy(self):
        return SpSym._mk(self.A.copy(), self.M.copy(), self.fmt)

    def __deepcopy__(self, memo):
        return self.copy()

    def __copy__(self):
        return self.copy()

    def asformat(self, f, copy=False):
        return SpSym._mk(self.A.copy(), self.M.copy(), f or self.fmt)

    def tocsc(self, copy=False):
        return self.asformat("csc")

    def tocsr(self, copy=False):
        return self.asformat("csr")

    def tocoo(self, copy=False):
        return self.asformat("coo")

    def tolil(self, copy=False):
        return self.copy()

    todok = tolil

    def toarray(self, order=None, out=None):
        r = _np.array(self.A, dtype=object, order=order or "C")
        return r.view(SymArray)

    todense = toarray

    @property
    def T(self):
        return SpSym._mk(self.A.T.copy().view(SymArray), self.M.T.copy(), {"csc": "csr", "csr": "csc"}.get(self.fmt, self.fmt))

    def transpose(self, *a, **k):
        return self.T

    def conj(self):
        return self

    def astype(self, *a, **k):
        return self.copy()

    def to_scipy(self):
        return _scp.sparse.csc_array(tofloat(self.A))

    def reshape(self, *sh, **k):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        return SpSym._mk(self.A.reshape(sh).view(SymArray), self.M.reshape(sh), self.fmt)

    # arithmetic
    def _other(self, o):
        if isinstance(o, SpSym):
            return o
        if _scp.sparse.issparse(o):
            return SpSym._mk(csc_array(o).A, csc_array(o).M, "csc")
        return None

    def __matmul__(self, o):
        s = self._other(o)
        if s is not None:
            R = wrap(_dot(self.A, s.A))
            return SpSym._mk(R, (self.M.astype(int) @ s.M.astype(int)) > 0, self.fmt)
        o = _np.asarray(o)
        return wrap(_sdot(self.A, self.M, o, False) if _special(o) else _dot(self.A, o))

    dot = __matmul__

    def __rmatmul__(self, o):
        s = self._other(o)
        if s is not None:
            return s @ self
        o = _np.asarray(o)
        return wrap(_sdot(self.A, self.M, o, True) if _special(o) else _dot(o, self.A))

    def __add__(self, o):
        s = self._other(o)
        if s is not None:
            return SpSym._mk((self.A + s.A).view(SymArray), self.M | s.M, self.fmt)
        if isinstance(o, (numbers.Real, S)):
            if o == 0:
                return self.copy()
            raise NotImplementedError("adding a nonzero scalar to a sparse array")
        return wrap(self.A + _np.asarray(o))

    __radd__ = __add__

    def __neg__(self):
        return SpSym._mk((-self.A).view(SymArray), self.M.copy(), self.fmt)

    def __abs__(self):
        return SpSym._mk(wrap(_np.abs(_np.asarray(self.A))), self.M.copy(), self.fmt)

    def __sub__(self, o):
        s = self._other(o)
        if s is not None:
            return SpSym._mk((self.A - s.A).view(SymArray), self.M | s.M, self.fmt)
        if isinstance(o, (numbers.Real, S)) and o == 0:
            return self.copy()
        return wrap(self.A - _np.asarray(o))

    def __rsub__(self, o):
        return (-self) + o

    def multiply(self, o):
        s = self._other(o)
        if s is not None:
            A, B = _np.broadcast_arrays(self.A, s.A)
            M1, M2 = _np.broadcast_arrays(self.M, s.M)
            return SpSym._mk(wrap(_np.asarray(A) * _np.asarray(B)), M1 & M2, "csr" if self.fmt == "coo" else self.fmt)
        if isinstance(o, (numbers.Real, S)):
            return SpSym._mk(wrap(_np.asarray(self.A) * const(o)), self.M.copy(), self.fmt)
        o = _np.asarray(o)
        R = _np.asarray(self.A) * o
        return SpSym._mk(wrap(R), _np.broadcast_to(self.M, R.shape).copy(), self.fmt)

    __mul__ = multiply
    __rmul__ = multiply

    def __truediv__(self, o):
        if isinstance(o, (numbers.Real, S)):
            return SpSym._mk(wrap(_np.asarray(self.A) / const(o)), self.M.copy(), self.fmt)
        s = self._other(o)
        B = s.A if s is not None else _np.asarray(o)
        return SpSym._mk(wrap(_np.asarray(self.A) / B), None, self.fmt)

    def power(self, n, dtype=None):
        return SpSym._mk(wrap(_np.asarray(self.A) ** n), self.M.copy(), self.fmt)

    def __pow__(self, n):
        return self.power(n)

    def sqrt(self):
        return self.power(Fraction(1, 2))

    # reductions
    def sum(self, axis=None, **k):
        return _wrapout(_np.asarray(self.A).sum(axis=axis))

    def mean(self, axis=None, **k):
        return _wrapout(_np.asarray(self.A).mean(axis=axis))

    def max(self, axis=None, **k):
        return _wrapout(_np.asarray(self.A).max(axis=axis))

    def min(self, axis=None, **k):
        return _wrapout(_np.asarray(self.A).min(axis=axis))

    def diagonal(self, k=0):
        return wrap(_np.diagonal(_np.asarray(self.A), k).copy())

    def trace(self, offset=0):
        return const(_np.trace(_np.asarray(self.A), offset))

    def setdiag(self, v, k=0):
        n = min(self.shape)
        v = _np.broadcast_to(_np.asarray(v), (n,)) if _np.ndim(v) == 0 else _np.asarray(v)
        for i in range(min(n, len(v))):
            self.A[i, i] = const(v[i])
            self.M[i, i] = True

    def __getitem__(self, key):
        key = _key(key)
        r = _np.asarray(self.A)[key]
        if isinstance(r, _np.ndarray) and r.ndim == 2:
            return SpSym._mk(wrap(r.copy()), self.M[key].copy(), self.fmt)
        if isinstance(r, _np.ndarray):
            return Sp1(wrap(r.copy()), self.M[key].copy()) if r.ndim == 1 else r
        return r

    def __setitem__(self, key, v):
        key = _key(key)
        v = v.toarray() if isinstance(v, SpSym) else v
        tmp = _np.asarray(self.A)
        tmp[key] = v
        self.A = _deep_lift(tmp)
        self.M[key] = True

    def __bool__(self):
        raise ValueError("truth value of a sparse array")

    def __len__(self):
        raise TypeError("sparse array length is ambiguous")

    def __iter__(self):
        for i in range(self.shape[0]):
            yield self[i]

    def _cmp(self, o, f):
        o = o.A if isinstance(o, SpSym) else o
        A = _np.asarray(self.A)
        B = _np.broadcast_to(_np.asarray(o, dtype=object), A.shape)
        out = _np.array([bool(f(const(a), const(b))) for a, b in zip(A.flat, B.flat)]).reshape(A.shape)
        return _scp.sparse.csc_array(out)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    __hash__ = None


class Sp1:
    """a one-dimensional slice of a sparse array"""

    __array_priority__ = 1000.0
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, a, m):
        self.A, self.M = a, m

    @property
    def shape(self):
        return self.A.shape

    @property
    def data(self):
        return self.A[self.M]

    @property
    def indices(self):
        return _np.where(self.M)[0]

    @property
    def nnz(self):
        return int(self.M.sum())

    def toarray(self, order=None):
        return self.A.copy()

    todense = toarray

    def sum(self, axis=None, **k):
        return self.A.sum()

    def nonzero(self):
        return (_np.array([i for i, v in enumerate(self.A) if v is not ZERO], dtype=int),)

    def reshape(self, *sh):
        sh = sh[0] if len(sh) == 1 and isinstance(sh[0], tuple) else sh
        return SpSym._mk(wrap(self.A.reshape(sh)), self.M.reshape(sh))

    def __matmul__(self, o):
        return self.A @ (o.A if isinstance(o, (SpSym, Sp1)) else o)

    def __rmatmul__(self, o):
        return o @ self.A

    def multiply(self, o):
        return Sp1(self.A * (o.A if isinstance(o, Sp1) else o), self.M.copy())

    __mul__ = __rmul__ = multiply

    def __getitem__(self, k):
        return self.A[k]


class _WriteBack(SymArray):
    """.data view that writes through to the sparse array"""

    _sp = None
    _ord = None

    def __array_finalize__(self, obj):
        self._sp = None
        self._ord = None

    def _flush(self):
        if self._sp is not None:
            for ij, v in zip(self._ord, _np.asarray(self).flat):
                self._sp.A[ij] = const(v)

    def __setitem__(self, k, v):
        _np.ndarray.__setitem__(self, k, v)
        self._flush()

    def __imul__(self, o):
        r = _np.ndarray.__imul__(self, o)
        self._flush()
        return r

    def __iadd__(self, o):
        r = _np.ndarray.__iadd__(self, o)
        self._flush()
        return r

    def __itruediv__(self, o):
        r = _np.ndarray.__itruediv__(self, o)
        self._flush()
        return r


def _special(o):
    """nan or infinite entries: entries that a sparse matrix does not store must not meet them"""
    if o.dtype.kind == "f":
        return not _np.all(_np.isfinite(o))
    if o.dtype != object:
        return False
    return any(isinstance(x, S) and not x.isfinite() or isinstance(x, float) and not _math.isfinite(x) for x in o.flat)


def _sdot(A, M, o, right):
    """product of a dense operand with a sparse matrix (on its right), over stored entries only"""
    if right:
        return _np.asarray(_sdot(A.T, M.T, o.T, False)).T
    one = o.ndim == 1
    B = o.reshape(-1, 1) if one else o
    R = _np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            e = const(0)
            for k in _np.nonzero(M[i])[0]:
                e = e + A[i, k] * B[k, j]
            R[i, j] = e
    return R[:, 0] if one else R


def _dot(a, b):
    """object matrix product skipping structural zeros"""
    a, b = _np.asarray(a), _np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return a @ b
    if a.shape[-1] == 0:
        sh = a.shape[:-1] + b.shape[1:]
        return _np.asarray(_filled(sh, ZERO))
    if a.dtype != object and b.dtype != object:
        return a @ b
    return _np.asarray(a, dtype=object) @ _np.asarray(b, dtype=object)


def _ints(x):
    x = _np.asarray(x)
    if x.dtype == object or x.dtype.kind == "f":
        x = _np.array([int(v) for v in x.flat], dtype=_np.int64).reshape(x.shape)
    return x


def _key(k):
    if isinstance(k, tuple):
        return tuple(_key1(x) for x in k)
    return _key1(k)


def _key1(x):
    if isinstance(x, S):
        return int(x)
    if isinstance(x, _np.ndarray) and x.dtype == object:
        return _ints(x)
    return x


class csc_array(SpSym):
    fmt = "csc"


class csr_array(SpSym):
    fmt = "csr"


class coo_array(SpSym):
    fmt = "coo"


class lil_array(SpSym):
    fmt = "csc"


def _sp_eye(m, n=None, k=0, format=None, dtype=None, **kw):
    return SpSym._mk(_np_eye(m, n, k), None, format or "csc")


def _sp_diags(diagonals, offsets=0, shape=None, format=None, dtype=None, **k):
    if isinstance(offsets, (int, _np.integer)):
        diagonals = [diagonals] if (_np.ndim(diagonals) == 1 and not isinstance(diagonals[0], (list, _np.ndarray))) else diagonals
        offsets = [offsets]
    if len(offsets) == 1 and len(diagonals) != 1:
        diagonals = [diagonals]
    if shape is None:
        m = max(len(d) + builtins.abs(int(o)) for d, o in zip(diagonals, offsets))
        shape = (m, m)
    A = _np.asarray(_filled(shape, ZERO))
    M = _np.zeros(shape, dtype=bool)
    for d, o in zip(diagonals, offsets):
        o = int(o)
        d = _np.asarray(d).flatten()
        i0, j0 = max(0, -o), max(0, o)
        L = min(shape[0] - i0, shape[1] - j0)
        if len(d) == 1 and L != 1:
            d = _np.repeat(d, L)
        for t in range(L):
            A[i0 + t, j0 + t] = const(d[t])
            M[i0 + t, j0 + t] = True
    return SpSym._mk(wrap(A), M, format or "csc")


def _sp_spdiags(data, diags, m=None, n=None, format=None):
    data = _np.atleast_2d(_np.asarray(data))
    diags = _np.atleast_1d(diags)
    if n is None and isinstance(m, tuple):
        m, n = m
    if m is None:
        m = n = data.shape[1]
    A = _np.asarray(_filled((m, n), ZERO))
    M = _np.zeros((m, n), dtype=bool)
    for r, o in enumerate(diags):
        for j in range(n):
            i = j - int(o)
            if 0 <= i < m and j < data.shape[1]:
                A[i, j] = const(data[r, j])
                M[i, j] = True
    return SpSym._mk(wrap(A), M, format or "csc")


def _aslist(blocks):
    return [b if isinstance(b, SpSym) else (SpSym._mk(csc_array(b).A, csc_array(b).M)) for b in blocks]


def _sp_hstack(blocks, format=None, dtype=None):
    b = _aslist(blocks)
    return SpSym._mk(wrap(_np.concatenate([_np.asarray(x.A) for x in b], axis=1)),
                     _np.concatenate([x.M for x in b], axis=1), format or "csc")


def _sp_vstack(blocks, format=None, dtype=None):
    b = _aslist(blocks)
    return SpSym._mk(wrap(_np.concatenate([_np.asarray(x.A) for x in b], axis=0)),
                     _np.concatenate([x.M for x in b], axis=0), format or "csc")


def _sp_block(blocks, format=None, dtype=None):
    nr, nc = len(blocks), len(blocks[0])
    hs = [None] * nr
    ws = [None] * nc
    B = [[None if x is None else _aslist([x])[0] for x in r] for r in blocks]
    for i in range(nr):
        for j in range(nc):
            if B[i][j] is not None:
                hs[i], ws[j] = B[i][j].shape
    rows = []
    for i in range(nr):
        rows.append(_sp_hstack([B[i][j] if B[i][j] is not None else csc_array((hs[i], ws[j])) for j in range(nc)]))
    r = _sp_vstack(rows)
    return r.asformat(format or "csc")


def _sp_kron(a, b, format=None):
    a, b = _aslist([a, b])
    return SpSym._mk(wrap(_np.kron(_np.asarray(a.A), _np.asarray(b.A))), _np.kron(a.M, b.M), format or "csc")


def _issparse(x):
    return isinstance(x, SpSym) or _scp.sparse.issparse(x)


def _sp_norm(x, ord=None, axis=None):
    return _np_norm(x, ord if ord is not None else "fro", axis)


def _spsolve(A, b, *a, **k):
    b_sp = isinstance(b, SpSym)
    bb = b.toarray() if b_sp else _np.asarray(b)
    r = inv(A) @ bb
    return SpSym._mk(wrap(r)) if b_sp else wrap(r)


SPARSE = _NS(
    _scp.sparse,
    csc_array=csc_array, csr_array=csr_array, coo_array=coo_array, csc_matrix=csc_array,
    csr_matrix=csr_array, coo_matrix=coo_array, lil_array=lil_array, lil_matrix=lil_array,
    identity=lambda n, dtype=None, format=None: _sp_eye(n, format=format),
    eye=_sp_eye, eye_array=_sp_eye, diags=_sp_diags, diags_array=lambda d, offsets=0, shape=None, format=None, dtype=None: _sp_diags(d, offsets, shape, format),
    spdiags=_sp_spdiags, hstack=_sp_hstack, vstack=_sp_vstack, block_array=_sp_block, bmat=_sp_block,
    block_diag=lambda m, format=None, dtype=None: _sp_block([[x if i == j else None for j in range(len(m))] for i, x in enumerate(m)], format),
    kron=_sp_kron, issparse=_issparse,
    linalg=_NS(_scp.sparse.linalg, norm=_sp_norm, spsolve=_spsolve,
               svds=numeric(_scp.sparse.linalg.svds, "svds"), eigsh=numeric(_scp.sparse.linalg.eigsh, "eigsh")),
)


# --- scipy.special / stats --------------------------------------------------------------------
def _el(f):
    return lambda *a, **k: bcast(f, *a, **k)


def gammaln(x):
    if x.is_const and isinstance(x.val, int) and 0 < x.val < 170:
        return const(_math.factorial(x.val - 1)).log()
    return fn("gammaln", x)


def _softmax(x, axis=None):
    x = _np.asarray(x)
    e = _np.exp(x)
    return wrap(e / e.sum(axis=axis, keepdims=True))


def _logsumexp(a, axis=None, b=None, keepdims=False, **k):
    e = _np.exp(_np.asarray(a))
    if b is not None:
        e = e * b
    s = e.sum(axis=axis, keepdims=keepdims)
    return s.log() if isinstance(s, S) else wrap(_np.log(s))


def xlogy(x, y):
    if x.is_const and x.val == 0:
        return ZERO
    if not x.is_const and x == 0:
        return ZERO
    return x * y.log()


def ndtr(x):
    return fn("normcdf", x)


def digamma(x):
    return fn("polygamma", const(0), x)


SPECIAL = _NS(
    _scp.special,
    gammaln=_el(gammaln), loggamma=_el(gammaln), gamma=_el(lambda x: gammaln(x).exp()),
    digamma=_el(digamma), psi=_el(digamma), polygamma=_el(lambda n, x: fn("polygamma", n, x)),
    softmax=_softmax, logsumexp=_logsumexp, xlogy=_el(xlogy),
    expit=_el(lambda x: ONE / (ONE + (-x).exp())), logit=_el(lambda x: (x / (ONE - x)).log()),
    log1p=_el(lambda x: x.log1p()), expm1=_el(lambda x: x.expm1()),
    ndtr=_el(ndtr), ndtri=_el(lambda p: fn("normppf", p)), log_ndtr=_el(lambda x: ndtr(x).log()),
    betaln=_el(lambda a, b: gammaln(a) + gammaln(b) - gammaln(a + b)),
    factorial=_el(lambda x: gammaln(x + 1).exp()),
)


class _Dist:
    def __init__(self, logpdf=None, cdf=None, real=None, args=(), discrete=False, names=()):
        self._l, self._c, self._real, self._names = logpdf, cdf, real, names

    def _bind(self, x, args, kw):
        names = self._names + ("loc", "scale")
        vals = dict(zip(names, args))
        vals.update(kw)
        loc = vals.pop("loc", ZERO)
        scale = vals.pop("scale", ONE)
        return [x, loc, scale] + [vals[n] for n in self._names]

    def logpdf(self, x, *a, **k):
        return bcast(lambda x, loc, sc, *sh: self._l((x - loc) / sc, *sh) - sc.log(), *self._bind(x, a, k))

    def pdf(self, x, *a, **k):
        r = self.logpdf(x, *a, **k)
        return r.exp() if isinstance(r, S) else wrap(_np.exp(r))

    def logpmf(self, *a, **k):
        if "k" in k:
            x = k.pop("k")
        else:
            x, a = a[0], a[1:]
        return bcast(lambda x, loc, sc, *sh: self._l(x - loc, *sh), *self._bind(x, a, k))

    def pmf(self, *a, **k):
        r = self.logpmf(*a, **k)
        return r.exp() if isinstance(r, S) else wrap(_np.exp(r))

    def cdf(self, x, *a, **k):
        return bcast(lambda x, loc, sc, *sh: self._c((x - loc) / sc, *sh), *self._bind(x, a, k))

    def sf(self, x, *a, **k):
        return 1 - self.cdf(x, *a, **k)

    def logcdf(self, x, *a, **k):
        r = self.cdf(x, *a, **k)
        return r.log() if isinstance(r, S) else wrap(_np.log(r))

    def ppf(self, q, *a, **k):
        if self is NORM:
            return bcast(lambda p, loc, sc: loc + sc * fn("normppf", p), *self._bind(q, a, k))
        return numeric(self._real.ppf)(q, *a, **k)

    def __call__(self, *a, **k):
        return _Frozen(self, a, k)

    def __getattr__(self, n):
        return numeric(getattr(self._real, n), n)


class _Frozen:
    def __init__(self, d, a, k):
        self.d, self.a, self.k = d, a, k

    def __getattr__(self, n):
        m = getattr(self.d, n)
        return lambda x, *a, **k: m(x, *self.a, **self.k)


def _gammacdf(x, a):
    return fn("gammacdf", x, a, ONE)


NORM = _Dist(lambda z: -(z * z) / 2 - (2 * PI).log() / 2, lambda z: fn("normcdf", z), _scp.stats.norm)
GAMMA = _Dist(lambda x, a: (a - 1) * x.log() - x - gammaln(a), _gammacdf, _scp.stats.gamma, names=("a",))
EXPON = _Dist(lambda x: -x, lambda x: 1 - (-x).exp(), _scp.stats.expon)
INVG = _Dist(
    lambda x, mu: -(2 * PI).log() / 2 - (x.log() * 3) / 2 - ((x - mu) / mu) ** 2 / (2 * x),
    None, _scp.stats.invgauss, names=("mu",),
)
POIS = _Dist(lambda k, mu: xlogy(k, mu) - mu - gammaln(k + 1), None, _scp.stats.poisson, names=("mu",))
BINOM = _Dist(
    lambda k, n, p: gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + xlogy(k, p) + xlogy(n - k, 1 - p),
    None, _scp.stats.binom, names=("n", "p"),
)
BERN = _Dist(lambda k, p: xlogy(k, p) + xlogy(1 - k, 1 - p), None, _scp.stats.bernoulli, names=("p",))
TDIST = _Dist(
    lambda x, df: gammaln((df + 1) / 2) - gammaln(df / 2) - (df * PI).log() / 2 - (df + 1) / 2 * (1 + x * x / df).log(),
    None, _scp.stats.t, names=("df",),
)
UNIF = _Dist(lambda x: ZERO if (x >= 0) and (x <= 1) else const(-_np.inf),
             lambda x: ZERO if x < 0 else (ONE if x > 1 else x), _scp.stats.uniform)

def _unif_rvs(loc=0, scale=1, size=None, random_state=None):
    rng = random_state if hasattr(random_state, "uniform") else _np.random.RandomState(random_state)
    u = rng.uniform(0, 1, size)
    return wrap(tosym(_np.asarray(u)) * scale + loc)


UNIF.rvs = _unif_rvs
STATS = _NS(
    _scp.stats,
    norm=NORM, gamma=GAMMA, expon=EXPON, invgauss=INVG, poisson=POIS, binom=BINOM, bernoulli=BERN,
    t=TDIST, uniform=UNIF,
)


def _khatri_rao(a, b):
    a, b = _np.asarray(a), _np.asarray(b)
    return wrap((a[:, None, :] * b[None, :, :]).reshape(a.shape[0] * b.shape[0], a.shape[1]))


def _fftconvolve(a, b, mode="full", axes=None):
    a, b = _np.asarray(a, dtype=object), _np.asarray(b, dtype=object)
    if a.ndim == 2:
        cols = [_fftconvolve(a[:, j], b[:, j] if b.ndim == 2 else b, mode) for j in range(a.shape[1])]
        return wrap(_np.stack(cols, axis=1))
    n = len(a) + len(b) - 1
    out = [ZERO] * n
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[i + j] = out[i + j] + const(x) * const(y)
    out = _np.array(out, dtype=object)
    if mode == "same":
        s = (n - len(a)) // 2
        out = out[s:s + len(a)]
    return wrap(out)


def _lin_inv(a, **k):
    return inv(a)


_FRESH = [0]


def _deriv_at(f, x0):
    """exact derivative of f at x0 (the finite difference helpers of scipy, idealised)"""
    x0 = _np.asarray(x0, dtype=object).reshape(-1)
    vs = []
    for _ in x0:
        _FRESH[0] += 1
        vs.append(sym.var("fd!%d" % _FRESH[0]))
    xv = _np.empty(len(vs), dtype=object)
    xv[:] = vs
    y = f(xv.view(SymArray))
    y = _np.asarray(y, dtype=object).reshape(-1)
    mp = {v: const(x) for v, x in zip(vs, x0)}
    J = _np.empty((len(y), len(vs)), dtype=object)
    for i, e in enumerate(y):
        for j, v in enumerate(vs):
            J[i, j] = sym.substitute(sym.diff(const(e), v), mp)
    return J.view(SymArray)


def _approx_fprime(xk, f, epsilon=None, *args):
    J = _deriv_at(lambda x: f(x, *args), xk)
    return wrap(J[0]) if J.shape[0] == 1 else J


class _Res:
    def __init__(self, df):
        self.df = df


def _jacobian(f, x, **k):
    return _Res(_deriv_at(f, x))


ASSUMPTIONS.append("scipy.optimize.approx_fprime and scipy.differentiate.jacobian are read as exact derivatives")
SCP = _NS(
    _scp,
    optimize=_NS(_scp.optimize, approx_fprime=_approx_fprime),
    differentiate=_NS(_scp.differentiate, jacobian=_jacobian),
    sparse=SPARSE, stats=STATS, special=SPECIAL,
    linalg=_NS(
        _scp.linalg, inv=_lin_inv, solve=solve, solve_triangular=solve_triangular, cholesky=lambda a, lower=False, **k: cholesky(a, lower),
        det=det, norm=_np_norm, khatri_rao=_khatri_rao, block_diag=_wrapped(_scp.linalg.block_diag),
        eigh=diag_eigh(_scp.linalg.eigh), svd=diag_svd(_scp.linalg.svd), qr=_qr,
    ),
    signal=_NS(_scp.signal, fftconvolve=_fftconvolve, convolve=_fftconvolve),
)


# --- installation -----------------------------------------------------------------------------
def install(modules):
    """replace numpy / scipy / math names bound at module level in the given mssm modules"""
    rep = {id(_np): NP, id(_scp): SCP, id(_math): MATH, id(_scp.sparse): SPARSE, id(_scp.stats): STATS,
           id(_scp.special): SPECIAL, id(_np.linalg): NP.linalg, id(_scp.linalg): SCP.linalg}
    for m in modules:
        for k, v in list(vars(m).items()):
            r = rep.get(id(v))
            if r is not None:
                setattr(m, k, r)
            else:
                mod = getattr(v, "__module__", None)
                nm = getattr(v, "__name__", None)
                if callable(v) and isinstance(mod, str) and nm and not isinstance(v, type):
                    if mod.split(".")[0] == "numpy" and nm in NP._over:
                        setattr(m, k, NP._over[nm])
