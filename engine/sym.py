"""Symbolic scalars for executing the real mssm code (Python and C++) on symbolic inputs.

An ``S`` is a node of a hash-consed expression DAG with exact rational constants.  It behaves like
a number inside numpy object arrays and inside the C++ extensions compiled over ``Sym`` (see
engine/symcpp).  Comparisons give ``SymBool``; asking one for its truth value forks the current
path (see engine/explore.py).
"""
from fractions import Fraction
import math
import numbers
import operator

import numpy as np

INF = float("inf")


class SymError(Exception):
    """The symbolic engine met something it cannot represent (inconclusive, never a violation)."""


class _Ctx:
    def __init__(self):
        self.table = {}
        self.nodes = []
        self.n_ops = 0
        self.explorer = None


CTX = _Ctx()

_NICE = {}


def _special_consts():
    pi = PI
    two = const(2)
    cands = [
        (math.pi, pi),
        (2 * math.pi, two * pi),
        (math.log(2 * math.pi), (two * pi).log()),
        (0.5 * math.log(2 * math.pi), (two * pi).log() / 2),
        (math.sqrt(2 * math.pi), (two * pi).sqrt()),
        (1 / math.sqrt(2 * math.pi), 1 / (two * pi).sqrt()),
        (math.sqrt(math.pi), pi.sqrt()),
        (math.log(math.pi), pi.log()),
        (math.log(2.0), two.log()),
        (math.log(10.0), const(10).log()),
        (math.sqrt(2.0), two.sqrt()),
        (math.e, const(1).exp_sym()),
    ]
    out = []
    for v, s in cands:
        out.append((v, s))
        out.append((-v, -s))
    return out


def frac_of(c):
    """Exact or 'nice' rational of a float constant (0.1 -> 1/10, 1/3. -> 1/3)."""
    if isinstance(c, int):
        return c
    if isinstance(c, Fraction):
        return c.numerator if c.denominator == 1 else c
    c = float(c)
    if c == int(c) and abs(c) < 1e18:
        return int(c)
    f = Fraction(c)
    if f.denominator <= (1 << 12):
        return f
    g = f.limit_denominator(100000)
    if g != 0 and abs(g - f) <= abs(f) * Fraction(4, 10**16):
        return g
    return f


class S:
    __slots__ = ("op", "args", "id", "_fnf")
    __hash_id__ = True

    # --- construction -------------------------------------------------------------------------
    def __hash__(self):
        return self.id

    def __reduce__(self):
        raise SymError("symbolic value cannot be pickled")

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # --- python protocol ----------------------------------------------------------------------
    @property
    def is_const(self):
        return self.op == "c"

    @property
    def val(self):
        return self.args[0]

    def __repr__(self):
        return show(self)

    def __float__(self):
        if self.op == "c":
            return float(self.args[0])
        v = const_float(self)
        if v is not None:
            return v
        raise SymError("float() of a symbolic value")

    def __int__(self):
        if self.op == "c":
            return int(self.args[0])
        raise SymError("int() of a symbolic value")

    def __index__(self):
        if self.op == "c" and isinstance(self.args[0], int):
            return self.args[0]
        raise SymError("index of a symbolic value")

    def __bool__(self):
        return bool(self != 0)

    def __round__(self, n=None):
        if self.op == "c":
            return const(round(float(self.args[0]), n) if n is not None else round(self.args[0]))
        raise SymError("round of a symbolic value")

    def __floor__(self):
        if self.op == "c":
            return const(math.floor(self.args[0]))
        raise SymError("floor of a symbolic value")

    def __ceil__(self):
        if self.op == "c":
            return const(math.ceil(self.args[0]))
        raise SymError("ceil of a symbolic value")

    def rint(self):
        if self.op == "c":
            return const(round(self.args[0]))
        raise SymError("rint of a symbolic value")

    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def is_integer(self):
        if self.op == "c":
            return isinstance(self.args[0], int)
        raise SymError("is_integer of a symbolic value")

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return const(0)

    def copy(self):
        return self

    @property
    def T(self):
        return self

    # --- arithmetic ---------------------------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return add(self, o)

    def __radd__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return add(o, self)

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sub(self, o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return sub(o, self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(self, o)

    def __rmul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return mul(o, self)

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return div(self, o)

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return o
        return div(o, self)

    def __pow__(self, o, mod=None):
        o = lift(o)
        if o is NotImplemented:
            return o
        return power(self, o)

    def __rpow__(self, o, mod=None):
        o = lift(o)
        if o is NotImplemented:
            return o
        return power(o, self)

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return sabs(self)

    def __mod__(self, o):
        o = lift(o)
        if self.is_const and o.is_const:
            return const(self.val % o.val)
        raise SymError("mod of a symbolic value")

    def __floordiv__(self, o):
        o = lift(o)
        if self.is_const and o.is_const:
            return const(self.val // o.val)
        raise SymError("floordiv of a symbolic value")

    # --- comparisons --------------------------------------------------------------------------
    def __lt__(self, o):
        return compare("<", self, o)

    def __le__(self, o):
        return compare("<=", self, o)

    def __gt__(self, o):
        return compare(">", self, o)

    def __ge__(self, o):
        return compare(">=", self, o)

    def __eq__(self, o):
        return compare("==", self, o)

    def __ne__(self, o):
        return compare("!=", self, o)

    # --- functions numpy calls on object arrays -----------------------------------------------
    def exp(self):
        return sexp(self)

    def exp_sym(self):
        return mk("exp", (self,))

    def log(self):
        return slog(self)

    def log1p(self):
        return slog(add(self, ONE))

    def expm1(self):
        return sub(sexp(self), ONE)

    def log2(self):
        return div(slog(self), slog(const(2)))

    def log10(self):
        return div(slog(self), slog(const(10)))

    def exp2(self):
        return power(const(2), self)

    def sqrt(self):
        return power(self, HALF)

    def cbrt(self):
        return power(self, const(Fraction(1, 3)))

    def square(self):
        return mul(self, self)

    def reciprocal(self):
        return div(ONE, self)

    def tanh(self):
        e = sexp(mul(const(2), self))
        return div(sub(e, ONE), add(e, ONE))

    def sin(self):
        return mk("fn", ("sin", self))

    def cos(self):
        return mk("fn", ("cos", self))

    def isnan(self):
        return self.op == "c" and isinstance(self.val, float) and self.val != self.val

    def isinf(self):
        return self.op == "c" and isinstance(self.val, float) and self.val in (INF, -INF)

    def isfinite(self):
        return not (self.op == "c" and isinstance(self.val, float))


def mk(op, args):
    if op == "c":
        # 1 and 1.0 and True hash alike; floats are only inf/nan here
        v = args[0]
        key = ("c", "nan" if v != v else v)
    elif op in ("v",):
        key = (op,) + args
    elif op == "fn":
        key = (op, args[0]) + tuple(a.id for a in args[1:])
    elif op == "pow":
        key = (op, args[0].id, args[1])
    else:
        key = (op,) + tuple(a.id for a in args)
    n = CTX.table.get(key)
    if n is not None:
        return n
    n = S.__new__(S)
    n.op = op
    n.args = args
    n.id = len(CTX.nodes)
    n._fnf = None
    CTX.nodes.append(n)
    CTX.table[key] = n
    CTX.n_ops += 1
    return n


def const(c):
    if isinstance(c, S):
        return c
    if isinstance(c, bool) or isinstance(c, np.bool_):
        c = int(c)
    if isinstance(c, numbers.Integral):
        return mk("c", (int(c),))
    if isinstance(c, Fraction):
        return mk("c", (frac_of(c),))
    c = float(c)
    if c != c or c in (INF, -INF):
        return mk("c", (c,))
    n = _NICE.get(c)
    if n is None:
        f = frac_of(c)
        n = mk("c", (f,))
        if isinstance(f, Fraction) and f.denominator > 10**6 and SPECIAL is not None:
            for v, s in SPECIAL:
                if abs(c - v) <= 4e-16 * abs(v):
                    n = s
                    break
        _NICE[c] = n
    return n


SPECIAL = None
ZERO = const(0)
ONE = const(1)
HALF = const(Fraction(1, 2))


def var(name):
    return mk("v", (name,))


PI = var("pi")


def lift(o):
    if isinstance(o, S):
        return o
    if isinstance(o, (numbers.Real, np.bool_)):
        return const(o)
    if isinstance(o, SymBool):
        return const(bool(o))
    if isinstance(o, np.ndarray) and o.ndim == 0 and not isinstance(o, np.generic):
        return lift(o.item())
    return NotImplemented


def _sp(n):
    """non finite constant"""
    return n.op == "c" and isinstance(n.args[0], float)


def add(a, b):
    if a.op == "c":
        if b.op == "c":
            return const(a.args[0] + b.args[0]) if not (_sp(a) or _sp(b)) else mk(
                "c", (float(a.args[0]) + float(b.args[0]),)
            )
        if a.args[0] == 0:
            return b
        if _sp(a):
            return a
        a, b = b, a  # constant last
    elif b.op == "c":
        if b.args[0] == 0:
            return a
        if _sp(b):
            return b
    if b.op == "neg" and b.args[0] is a:
        return ZERO
    if a.op == "neg" and a.args[0] is b:
        return ZERO
    if b.op != "c" and a.id > b.id:
        a, b = b, a
    return mk("+", (a, b))


def neg(a):
    if a.op == "c":
        return mk("c", (-a.args[0],))
    if a.op == "neg":
        return a.args[0]
    return mk("neg", (a,))


def sub(a, b):
    if a is b and not _sp(a):
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == "c":
        if b.op == "c":
            if _sp(a) or _sp(b):
                return mk("c", (float(a.args[0]) * float(b.args[0]),))
            return const(a.args[0] * b.args[0])
        v = a.args[0]
        if v == 0:
            return ZERO
        if v == 1:
            return b
        if _sp(a):
            if v != v:
                return a
            s = CTX.explorer.sign(b) if CTX.explorer else None
            if s is None:
                raise SymError("inf times symbolic")
            return mk("c", (v * s if s else float("nan"),))
        if v == -1:
            return neg(b)
        if b.op == "neg":
            return mul(neg(a), b.args[0])
        return mk("*", (a, b))
    if b.op == "c":
        return mul(b, a)
    if a.op == "neg":
        return neg(mul(a.args[0], b))
    if b.op == "neg":
        return neg(mul(a, b.args[0]))
    if a.id > b.id:
        a, b = b, a
    return mk("*", (a, b))


def div(a, b):
    if b.op == "c":
        v = b.args[0]
        if _sp(b):
            if v != v:
                return b
            if _sp(a):
                return mk("c", (float("nan"),))
            return ZERO
        if v == 0:
            if a.op == "c":
                av = a.args[0]
                if av == 0 or av != av:
                    return mk("c", (float("nan"),))
                return mk("c", (INF if av > 0 else -INF,))
            s = CTX.explorer.sign(a) if CTX.explorer else None
            if s is None:
                raise SymError("symbolic divided by zero")
            return mk("c", (s * INF if s else float("nan"),))
        if a.op == "c" and _sp(a):
            return mk("c", (a.args[0] / float(v),))
        return mul(const(Fraction(1) / v), a)
    if a.op == "c":
        if a.args[0] == 0:
            return ZERO
        if _sp(a):
            raise SymError("inf over symbolic")
    if a is b:
        return ONE
    if b.op == "neg":
        return neg(div(a, b.args[0]))
    if a.op == "neg":
        return neg(div(a.args[0], b))
    return mk("/", (a, b))


def power(a, b):
    if b.op == "c":
        e = b.args[0]
        if _sp(b):
            if a.op == "c":
                return const(float(a.args[0]) ** e)
            raise SymError("pow inf")
        if e == 0:
            return ONE
        if e == 1:
            return a
        if a.op == "c":
            v = a.args[0]
            if _sp(a):
                return const(math.pow(v, float(e)))
            if isinstance(e, int):
                if v == 0:
                    return ZERO if e > 0 else mk("c", (INF,))
                return const(Fraction(v) ** e)
            if v == 0:
                return ZERO if e > 0 else mk("c", (INF,))
            if v < 0:
                return mk("c", (float("nan"),))
            # exact roots
            fr = Fraction(v)
            r = _exact_root(fr, e.denominator)
            if r is not None:
                return const(r ** e.numerator)
            if v == 1:
                return ONE
        if a.op == "pow" and isinstance(e, int):
            return power(a.args[0], const(a.args[1] * e))
        return mk("pow", (a, e if isinstance(e, int) else Fraction(e)))
    if a.op == "c" and a.args[0] == 1:
        return ONE
    return sexp(mul(b, slog(a)))


def _exact_root(f, k):
    def r(n):
        x = round(n ** (1.0 / k)) if n < 10**15 else None
        if x is None:
            x = math.isqrt(n) if k == 2 else None
            if x is None:
                return None
        return x if x**k == n else None

    p, q = r(f.numerator), r(f.denominator)
    if p is None or q is None:
        return None
    return Fraction(p, q)


def sexp(a):
    if a.op == "c":
        v = a.args[0]
        if v == 0:
            return ONE
        if _sp(a):
            return a if v != v else (mk("c", (INF,)) if v > 0 else ZERO)
    if a.op == "log":
        return a.args[0]
    return mk("exp", (a,))


def slog(a):
    if a.op == "c":
        v = a.args[0]
        if v == 1:
            return ZERO
        if v == 0:
            return mk("c", (-INF,))
        if _sp(a):
            return a if v > 0 else mk("c", (float("nan"),))
        if v < 0:
            return mk("c", (float("nan"),))
    if a.op == "exp":
        return a.args[0]
    return mk("log", (a,))


def sabs(a):
    if a.op == "c":
        return mk("c", (abs(a.args[0]),))
    ex = CTX.explorer
    if ex is None:
        raise SymError("abs outside an exploration")
    if ex.generic and const_float(a) is None:
        from . import fnf
        try:
            c, m = fnf.fnf(a)
            if fnf.nonneg(m):
                return a if c >= 0 else neg(a)
        except SymError:
            pass
        return mk("fn", ("abs", a))
    return a if (a >= 0) else neg(a)


def fn(name, *args):
    return mk("fn", (name,) + tuple(const(a) for a in args))


def ite(c, a, b):
    if isinstance(c, (bool, np.bool_)):
        return const(a) if c else const(b)
    return const(a) if bool(c) else const(b)


# --- comparisons ------------------------------------------------------------------------------
class SymBool:
    """A comparison lhs REL 0/rhs; truth value forks the path."""

    __slots__ = ("rel", "a", "b")

    def __init__(self, rel, a, b):
        self.rel, self.a, self.b = rel, a, b

    def __bool__(self):
        ex = CTX.explorer
        if ex is None:
            raise SymError("branch on a symbolic value outside an exploration: %r" % (self,))
        return ex.branch(self)

    def neg(self):
        r = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[self.rel]
        return SymBool(r, self.a, self.b)

    def __invert__(self):
        return self.neg()

    def __and__(self, o):
        return bool(self) and bool(o)

    __rand__ = __and__

    def __or__(self, o):
        return bool(self) or bool(o)

    __ror__ = __or__

    def __int__(self):
        return int(bool(self))

    def __float__(self):
        return float(bool(self))

    def _num(self):
        return const(int(bool(self)))

    def __add__(self, o):
        return self._num() + o

    __radd__ = __add__

    def __mul__(self, o):
        return self._num() * o

    __rmul__ = __mul__

    def __sub__(self, o):
        return self._num() - o

    def __rsub__(self, o):
        return o - self._num()

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __ne__(self, o):
        return bool(self) != bool(o)

    def __hash__(self):
        return hash((self.rel, self.a.id, self.b.id))

    def __repr__(self):
        return "(%s %s %s)" % (show(self.a), self.rel, show(self.b))


_OPS = {
    "<": operator.lt,
    "<=": operator.le,
    ">": operator.gt,
    ">=": operator.ge,
    "==": operator.eq,
    "!=": operator.ne,
}


def compare(rel, a, b):
    b = lift(b)
    if b is NotImplemented:
        if rel == "==":
            return False
        if rel == "!=":
            return True
        return NotImplemented
    if a.op == "c" and b.op == "c":
        return _OPS[rel](a.args[0], b.args[0])
    if a is b:
        return rel in ("<=", ">=", "==")
    for x, y, flip in ((a, b, False), (b, a, True)):
        if _sp(y):
            v = y.args[0]
            if v != v:
                return rel == "!="
            # finite symbolic x versus +-inf
            lo, hi = (0.0, v) if not flip else (v, 0.0)
            return _OPS[rel](lo, hi)
    fa, fb = const_float(a), const_float(b)
    if fa is not None and fb is not None and abs(fa - fb) > 1e-9 * max(1, abs(fa)):
        return _OPS[rel](fa, fb)
    return SymBool(rel, a, b)


_cf = {}


def const_float(n):
    """float value of a node without variables (other than pi), else None"""
    r = _cf.get(n.id, 0)
    if r != 0:
        return r
    stack = [n]
    while stack:
        m = stack[-1]
        if m.id in _cf:
            stack.pop()
            continue
        if m.op == "c":
            _cf[m.id] = float(m.args[0])
            stack.pop()
            continue
        if m.op == "v":
            _cf[m.id] = math.pi if m.args[0] == "pi" else None
            stack.pop()
            continue
        todo = [k for k in children(m) if k.id not in _cf]
        if todo:
            stack.extend(todo)
            continue
        vals = [_cf[k.id] for k in children(m)]
        _cf[m.id] = None if any(v is None for v in vals) else apply_op(m, vals)
        stack.pop()
    return _cf[n.id]


def children(m):
    op = m.op
    if op in ("c", "v"):
        return ()
    if op == "pow":
        return (m.args[0],)
    if op == "fn":
        return m.args[1:]
    return m.args


def _fn_float(name, vals):
    import scipy.special as sp
    import scipy.stats as st

    if name == "gammaln":
        return float(sp.gammaln(vals[0]))
    if name == "polygamma":
        return float(sp.polygamma(int(vals[0]), vals[1]))
    if name == "sin":
        return math.sin(vals[0])
    if name == "cos":
        return math.cos(vals[0])
    if name == "abs":
        return abs(vals[0])
    if name == "normcdf":
        return float(st.norm.cdf(vals[0]))
    if name == "normppf":
        return float(st.norm.ppf(vals[0]))
    if name == "gammacdf":
        return float(st.gamma.cdf(vals[0], vals[1], scale=vals[2]))
    raise SymError("no float for " + name)


def apply_op(m, vals):
    op = m.op
    try:
        if op == "+":
            return vals[0] + vals[1]
        if op == "*":
            return vals[0] * vals[1]
        if op == "/":
            return vals[0] / vals[1]
        if op == "neg":
            return -vals[0]
        if op == "pow":
            e = m.args[1]
            if not isinstance(e, int) and vals[0] < 0:
                return float("nan")
            return vals[0] ** (e if isinstance(e, int) else float(e))
        if op == "exp":
            return math.exp(vals[0])
        if op == "log":
            return math.log(vals[0]) if vals[0] > 0 else (-INF if vals[0] == 0 else float("nan"))
        if op == "fn":
            return _fn_float(m.args[0], vals)
    except ZeroDivisionError:
        return float("nan")
    except OverflowError:
        return INF
    raise SymError("apply " + op)


def evaluate(n, env, memo=None):
    """float value under env (name -> float)"""
    if not isinstance(n, S):
        return float(n)
    memo = {} if memo is None else memo
    stack = [n]
    while stack:
        m = stack[-1]
        if m.id in memo:
            stack.pop()
            continue
        if m.op == "c":
            memo[m.id] = float(m.args[0])
            stack.pop()
            continue
        if m.op == "v":
            memo[m.id] = math.pi if m.args[0] == "pi" else float(env[m.args[0]])
            stack.pop()
            continue
        ch = children(m)
        todo = [k for k in ch if k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        memo[m.id] = apply_op(m, [memo[k.id] for k in ch])
        stack.pop()
    return memo[n.id]


def diff(n, v, memo=None):
    """exact derivative of n with respect to variable node v"""
    memo = {} if memo is None else memo
    stack = [n]
    while stack:
        m = stack[-1]
        if m.id in memo:
            stack.pop()
            continue
        if m.op == "c":
            memo[m.id] = ZERO
            stack.pop()
            continue
        if m.op == "v":
            memo[m.id] = ONE if m is v else ZERO
            stack.pop()
            continue
        ch = children(m)
        todo = [k for k in ch if k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        d = [memo[k.id] for k in ch]
        op = m.op
        if all(x is ZERO for x in d):
            r = ZERO
        elif op == "+":
            r = add(d[0], d[1])
        elif op == "neg":
            r = neg(d[0])
        elif op == "*":
            r = add(mul(d[0], ch[1]), mul(ch[0], d[1]))
        elif op == "/":
            r = div(d[0], ch[1])
            if d[1] is not ZERO:
                r = sub(r, div(mul(m, d[1]), ch[1]))
        elif op == "pow":
            e = m.args[1]
            r = mul(mul(const(e), power(ch[0], const(e - 1))), d[0])
        elif op == "exp":
            r = mul(m, d[0])
        elif op == "log":
            r = div(d[0], ch[0])
        elif op == "fn":
            nm = m.args[0]
            if nm == "gammaln":
                r = mul(fn("polygamma", 0, ch[0]), d[0])
            elif nm == "polygamma":
                r = mul(fn("polygamma", const(ch[0].val + 1), ch[1]), d[1])
            elif nm == "sin":
                r = mul(ch[0].cos(), d[0])
            elif nm == "cos":
                r = neg(mul(ch[0].sin(), d[0]))
            elif nm == "normcdf":
                r = mul(div(sexp(neg(mul(HALF, mul(ch[0], ch[0])))), (2 * PI).sqrt()), d[0])
            else:
                raise SymError("diff of " + nm)
        else:
            raise SymError("diff of " + op)
        memo[m.id] = r
        stack.pop()
    return memo[n.id]


def substitute(n, mapping, memo=None):
    """replace variable nodes (dict node->node)"""
    memo = {} if memo is None else memo
    for k, w in mapping.items():
        memo[k.id] = const(w)
    stack = [n]
    while stack:
        m = stack[-1]
        if m.id in memo:
            stack.pop()
            continue
        ch = children(m)
        if not ch:
            memo[m.id] = m
            stack.pop()
            continue
        todo = [k for k in ch if k.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        d = [memo[k.id] for k in ch]
        op = m.op
        if op == "+":
            r = add(d[0], d[1])
        elif op == "neg":
            r = neg(d[0])
        elif op == "*":
            r = mul(d[0], d[1])
        elif op == "/":
            r = div(d[0], d[1])
        elif op == "pow":
            r = power(d[0], const(m.args[1]))
        elif op == "exp":
            r = sexp(d[0])
        elif op == "log":
            r = slog(d[0])
        elif op == "fn":
            r = fn(m.args[0], *d)
        else:
            raise SymError("subst " + op)
        memo[m.id] = r
        stack.pop()
    return memo[n.id]


def variables(nodes):
    seen, out = set(), {}
    stack = [n for n in nodes if isinstance(n, S)]
    while stack:
        m = stack.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        if m.op == "v" and m.args[0] != "pi":
            out[m.args[0]] = m
        stack.extend(children(m))
    return out


def size(nodes):
    seen = set()
    stack = [n for n in nodes if isinstance(n, S)]
    while stack:
        m = stack.pop()
        if m.id in seen:
            continue
        seen.add(m.id)
        stack.extend(children(m))
    return len(seen)


def show(n, depth=6):
    if not isinstance(n, S):
        return repr(n)
    if n.op == "c":
        return str(n.args[0])
    if n.op == "v":
        return n.args[0]
    if depth == 0:
        return "#%d" % n.id
    ch = [show(k, depth - 1) for k in children(n)]
    if n.op == "neg":
        return "-" + ch[0]
    if n.op == "pow":
        return "%s**%s" % (ch[0], n.args[1])
    if n.op in ("+", "*", "/"):
        return "(%s%s%s)" % (ch[0], n.op, ch[1])
    if n.op == "fn":
        return "%s(%s)" % (n.args[0], ",".join(ch))
    return "%s(%s)" % (n.op, ",".join(ch))


def symarray(name, shape, names=None):
    """object array of fresh variables name_i_j"""
    if isinstance(shape, int):
        shape = (shape,)
    out = np.empty(shape, dtype=object)
    for idx in np.ndindex(*shape):
        out[idx] = var(name + "".join("_%d" % i for i in idx))
    return out


SPECIAL = _special_consts()
