"""Functions the symbolically compiled C++ extensions call."""
from . import sym
from .sym import S, ZERO, add, sub, mul, div, neg, sexp, slog, power, sabs, const, lift, SymError

# how random draws are resolved; a check installs its own hooks
HOOKS = {"choose": None, "uniform": None, "exponential": None}


def lift_any(o):
    r = lift(o)
    if r is NotImplemented:
        raise TypeError("not a number: %r" % (type(o),))
    return r


def lt(a, b):
    return bool(sym.compare("<", a, b))


def le(a, b):
    return bool(sym.compare("<=", a, b))


def gt(a, b):
    return bool(sym.compare(">", a, b))


def ge(a, b):
    return bool(sym.compare(">=", a, b))


def eq(a, b):
    return bool(sym.compare("==", a, b))


def ne(a, b):
    return bool(sym.compare("!=", a, b))


def isnan(a):
    return a.isnan()


def isinf(a):
    return a.isinf()


def call(name, x):
    if name == "lgamma":
        return sym.fn("gammaln", x)
    if name in ("erf", "erfc"):
        # erf(x) = 2 Phi(x sqrt2) - 1
        p = sym.fn("normcdf", x * sym.const(2).sqrt())
        return 2 * p - 1 if name == "erf" else 2 - 2 * p
    if name == "round":
        return x.rint()
    return getattr(x, name)()


def choose(w):
    if HOOKS["choose"] is None:
        raise SymError("random choice without a hook")
    return HOOKS["choose"](w)


def uniform(a, b):
    if HOOKS["uniform"] is None:
        raise SymError("uniform draw without a hook")
    return HOOKS["uniform"](a, b)


def exponential(l):
    if HOOKS["exponential"] is None:
        raise SymError("exponential draw without a hook")
    return HOOKS["exponential"](l)
