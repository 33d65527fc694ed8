"""Factored normal form of symbolic expressions and their translation to z3 reals.

Every expression becomes  coef * prod(factor_i ** e_i)  with rational exponents, where a factor is a
variable, a transcendental atom (exp of a monomial, log of a factor, gammaln, ...) or a hash-consed
primitive sum of such monomials.  Products are never multiplied out here (z3 does that); what this
stage provides is the structural cancellation of denominators, exp/log/sqrt rules, and atoms.
"""
from fractions import Fraction
from math import gcd
import itertools

from . import sym
from .sym import S, SymError


class Factor:
    __slots__ = ("kind", "data", "id", "pos")
    # kinds: v(name) exp(mono) log(Term) fn(name, Terms) sum(tuple[(mono, coef)]) opq(Term) cnum(Fraction)


class FTable:
    def __init__(self):
        self.table = {}
        self.items = []


FT = FTable()
POS_VARS = set()  # variable names assumed > 0
NONNEG_VARS = set()


def reset():
    FT.table.clear()
    FT.items.clear()
    POS_VARS.clear()
    _memo.clear()


def factor(kind, data):
    key = (kind, data)
    f = FT.table.get(key)
    if f is None:
        f = Factor()
        f.kind, f.data, f.id = kind, data, len(FT.items)
        f.pos = None
        FT.items.append(f)
        FT.table[key] = f
    return f


def fget(i):
    return FT.items[i]


def is_pos(f):
    """structural strict positivity"""
    if f.pos is None:
        k = f.kind
        if k == "v":
            f.pos = f.data in POS_VARS or f.data == "pi"
        elif k in ("exp", "cnum"):
            f.pos = True
        elif k == "sum":
            f.pos = all(c > 0 and nonneg(m) for m, c in f.data) and any(all(is_pos(fget(i)) for i, _ in m) for m, c in f.data)
        elif k == "opq":
            c, m = f.data
            f.pos = c > 0 and all(is_pos(fget(i)) for i, _ in m)
        elif k == "fn" and f.data[0] in ("normcdf",):
            f.pos = True
        else:
            f.pos = False
    return f.pos


def nonneg(m):
    """structurally nonnegative monomial"""
    return all(is_pos(fget(i)) or (isinstance(e, int) and e % 2 == 0 and e > 0) for i, e in m)


# A Term is (coef, mono); mono is a tuple of (factor id, exponent), sorted by id; coef a Fraction/int.
ZERO_T = (0, ())
ONE_T = (1, ())


def nrm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for i, e in m2:
        n = d.get(i, 0) + e
        if n == 0:
            del d[i]
        else:
            d[i] = nrm(n)
    return tuple(sorted(d.items()))


def tmul(a, b):
    if a[0] == 0 or b[0] == 0:
        return ZERO_T
    return (nrm(a[0] * b[0]), mmul(a[1], b[1]))


def tneg(a):
    return (-a[0], a[1])


def tpow(t, e):
    c, m = t
    if c == 0:
        if e > 0:
            return ZERO_T
        raise SymError("0 ** negative")
    if isinstance(e, int):
        return (nrm(Fraction(c) ** e), tuple((i, nrm(x * e)) for i, x in m))
    # fractional power: split positive factors
    pos, rest = [], []
    for i, x in m:
        if is_pos(fget(i)):
            pos.append((i, nrm(x * e)))
        else:
            rest.append((i, x))
    if rest:
        if len(rest) == 1 and rest[0][1] == 1 and c > 0:
            # the whole base must be >= 0, so this factor is
            out = (1, ((rest[0][0], e),))
        elif len(rest) == 1 and c > 0 and not isinstance(rest[0][1], int):
            out = (1, ((rest[0][0], nrm(rest[0][1] * e)),))
        else:
            f = factor("opq", (1 if c > 0 else -1, tuple(rest)))
            out = (1, ((f.id, e),))
            c = abs(c)
    else:
        out = ONE_T
        if c < 0:
            raise SymError("fractional power of a negative constant")
    out = tmul(out, (1, tuple(sorted(pos))))
    return tmul(out, cpow(c, e))


def cpow(c, e):
    """constant c>0 to a rational power -> Term with prime-root factors"""
    c = Fraction(c)
    r = sym._exact_root(c, Fraction(e).denominator)
    if r is not None:
        return (nrm(r ** Fraction(e).numerator), ())
    t = ONE_T
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in primes(n):
            x = Fraction(e) * k * s
            ip = x.numerator // x.denominator
            fr = x - ip
            t = tmul(t, (nrm(Fraction(p) ** ip), ()))
            if fr:
                t = tmul(t, (1, ((factor("cnum", p).id, nrm(fr)),)))
    return t


def primes(n):
    out = []
    p = 2
    while p * p <= n and p < 2000:
        k = 0
        while n % p == 0:
            n //= p
            k += 1
        if k:
            out.append((p, k))
        p += 1
    if n > 1:
        out.append((n, 1))
    return out


def as_list(t):
    """flatten a Term into list of (mono, coef) if it is coef*sum"""
    c, m = t
    if c == 0:
        return []
    if len(m) == 1 and m[0][1] == 1:
        f = fget(m[0][0])
        if f.kind == "sum":
            return [(mm, nrm(cc * c)) for mm, cc in f.data]
    return [(m, c)]


def tsum(terms):
    d = {}
    for t in terms:
        for m, c in as_list(t):
            n = d.get(m, 0) + c
            if n == 0:
                d.pop(m, None)
            else:
                d[m] = nrm(n)
    return from_dict(d)


def from_dict(d):
    if not d:
        return ZERO_T
    if len(d) == 1:
        ((m, c),) = d.items()
        return (c, m)
    # content: common factors
    items = list(d.items())
    first = dict(items[0][0])
    common = None
    # factors with a negative exponent anywhere, or present everywhere
    allf = {}
    for m, _ in items:
        for i, e in m:
            allf.setdefault(i, []).append(e)
    cont = []
    n = len(items)
    for i, es in allf.items():
        lo = min(es)
        if len(es) < n:
            lo = min(lo, 0)
        if lo != 0:
            cont.append((i, lo))
    if cont:
        cont = tuple(sorted(cont))
        inv = tuple((i, -e) for i, e in cont)
        items = [(mmul(m, inv), c) for m, c in items]
        # after clearing the content a monomial may be a bare sum: merge it
        if any(len(m) == 1 and m[0][1] == 1 and fget(m[0][0]).kind == "sum" for m, c in items):
            c2, m2 = tsum([(c, m) for m, c in items])
            return (c2, mmul(m2, cont)) if c2 != 0 else ZERO_T
    else:
        cont = ()
    items.sort()
    lead = items[0][1]
    # primitive: leading coefficient 1
    if lead != 1:
        items = [(m, nrm(Fraction(c) / lead)) for m, c in items]
    f = factor("sum", tuple(items))
    return (lead, mmul(cont, ((f.id, 1),)))


def expand(t, limit=20000):
    """multiply out positive integer powers of sums; returns dict mono->coef"""
    c, m = t
    if c == 0:
        return {}
    acc = {(): c}
    for i, e in m:
        f = fget(i)
        if f.kind == "sum" and isinstance(e, int) and e > 0:
            sub = expand_sum(f, limit)
            for _ in range(e):
                new = {}
                for m1, c1 in acc.items():
                    for m2, c2 in sub.items():
                        mm = mmul(m1, m2)
                        v = new.get(mm, 0) + c1 * c2
                        if v == 0:
                            new.pop(mm, None)
                        else:
                            new[mm] = nrm(v)
                if len(new) > limit:
                    raise SymError("expansion too large")
                acc = new
        else:
            acc = {mmul(m1, ((i, e),)): c1 for m1, c1 in acc.items()}
    return acc


_exps = {}


def expand_sum(f, limit):
    r = {}
    for m, c in f.data:
        for mm, cc in expand((c, m), limit).items():
            v = r.get(mm, 0) + cc
            if v == 0:
                r.pop(mm, None)
            else:
                r[mm] = nrm(v)
    return r


def tlog(t):
    c, m = t
    if c == 0:
        raise SymError("log 0")
    pos, rest = [], []
    for i, e in m:
        f = fget(i)
        (pos if is_pos(f) else rest).append((i, e))
    terms = []
    if rest:
        if len(rest) == 1 and c > 0 and (rest[0][1] == 1 or not isinstance(rest[0][1], int)
                                         or rest[0][1] % 2):
            # single factor of odd / fractional power: positive because the argument is
            terms.append((rest[0][1], ((logf((1, ((rest[0][0], 1),))), 1),)))
        else:
            s = 1 if c > 0 else -1
            if len(rest) == 1 and s < 0 and rest[0][1] == 1:
                # log(-f): use the negated sum
                terms.append((1, ((logf((-1, tuple(rest))), 1),)))
            else:
                terms.append((1, ((logf((s, tuple(rest))), 1),)))
            c = abs(c)
    elif c < 0:
        raise SymError("log of a negative value")
    for i, e in pos:
        f = fget(i)
        if f.kind == "exp":
            terms.append((e, f.data))
        else:
            terms.append((e, ((logf((1, ((i, 1),))), 1),)))
    c = Fraction(c)
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p, k in primes(n):
            terms.append((k * s, ((logf((p, ())), 1),)))
    return tsum(terms)


def logf(t):
    return factor("log", t).id


def texp(t):
    out = ONE_T
    for m, c in expand(t).items():
        if len(m) == 1 and m[0][1] == 1 and fget(m[0][0]).kind == "log":
            out = tmul(out, tpow(fget(m[0][0]).data, c))
        else:
            out = tmul(out, (1, ((factor("exp", m).id, c),)))
    return out


_memo = {}


def fnf(n):
    """Term of an S node"""
    if not isinstance(n, S):
        n = sym.const(n)
    r = _memo.get(n.id)
    if r is not None:
        return r
    stack = [n]
    while stack:
        m = stack[-1]
        if m.id in _memo:
            stack.pop()
            continue
        op = m.op
        if op == "c":
            v = m.args[0]
            if isinstance(v, float):
                raise SymError("non-finite constant in a formula")
            _memo[m.id] = (v, ())
            stack.pop()
            continue
        if op == "v":
            _memo[m.id] = (1, ((factor("v", m.args[0]).id, 1),))
            stack.pop()
            continue
        if op == "+":
            # flatten long additions
            flat, todo = [], []
            st2 = list(m.args)
            while st2:
                k = st2.pop()
                if k.op == "+" and k.id not in _memo:
                    st2.extend(k.args)
                else:
                    flat.append(k)
            todo = [k for k in flat if k.id not in _memo]
            if todo:
                stack.extend(todo)
                continue
            _memo[m.id] = tsum([_memo[k.id] for k in flat])
            stack.pop()
            continue
        ch = sym.children(m)
        todo = [k for k in ch if k.id not in _memo]
        if todo:
            stack.extend(todo)
            continue
        a = _memo[ch[0].id]
        if op == "neg":
            r = tneg(a)
        elif op == "*":
            r = tmul(a, _memo[ch[1].id])
        elif op == "/":
            b = _memo[ch[1].id]
            if b[0] == 0:
                raise SymError("division by zero")
            r = tmul(a, tpow(b, -1))
        elif op == "pow":
            r = tpow(a, m.args[1])
        elif op == "exp":
            r = texp(a)
        elif op == "log":
            r = tlog(a)
        elif op == "fn":
            args = tuple(canon_term(_memo[k.id]) for k in ch)
            r = (1, ((factor("fn", (m.args[0], args)).id, 1),))
        else:
            raise SymError("fnf " + op)
        _memo[m.id] = r
        stack.pop()
    return _memo[n.id]


def canon_term(t):
    """expanded form as a canonical Term (for function arguments)"""
    try:
        d = expand(t, 200)
    except SymError:
        return t
    return from_dict(d)
