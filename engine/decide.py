"""z3 back end: translate normal forms to real arithmetic and discharge queries."""
import math
import os
import signal
import sys
import time
from fractions import Fraction

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3

from . import sym, fnf
from .fnf import fget, fnf as FNF, is_pos
from .sym import S, SymBool, SymError

STATS = {
    "queries": 0,
    "unsat": 0,
    "sat": 0,
    "unknown": 0,
    "solver_s": 0.0,
    "branch_queries": 0,
    "max_query_s": 0.0,
}


def q(c):
    c = Fraction(c)
    return z3.RealVal("%d/%d" % (c.numerator, c.denominator)) if c.denominator != 1 else z3.RealVal(
        c.numerator
    )


class Enc:
    """one query's encoding"""

    def __init__(self, axioms=True):
        self.den = {}  # factor id -> lcm of exponent denominators
        self.cache = {}
        self.side = []  # side constraints
        self.base = {}  # var name -> z3 var of the variable itself
        self.atoms = []
        self.seen = set()
        self.use_axioms = axioms

    # -- phase 1: collect ----------------------------------------------------------------------
    def collect(self, term):
        stack = [term]
        while stack:
            c, m = stack.pop()
            for i, e in m:
                d = Fraction(e).denominator
                if d > 1 or i not in self.den:
                    o = self.den.get(i, 1)
                    self.den[i] = o * d // math.gcd(o, d)
                if i in self.seen:
                    continue
                self.seen.add(i)
                f = fget(i)
                if f.kind == "sum":
                    for mm, cc in f.data:
                        stack.append((cc, mm))
                elif f.kind == "opq":
                    stack.append(f.data)
                elif f.kind in ("log",):
                    stack.append(f.data)
                    self.atoms.append(f)
                elif f.kind == "exp":
                    stack.append((1, f.data))
                    self.atoms.append(f)
                elif f.kind == "fn":
                    stack.extend(f.data[1])
                    self.atoms.append(f)

    # -- phase 2: build ------------------------------------------------------------------------
    def root(self, i):
        """z3 term for factor_i ** (1/K)"""
        r = self.cache.get(i)
        if r is not None:
            return r
        f = fget(i)
        K = self.den.get(i, 1)
        k = f.kind
        if k == "exp":
            v = z3.Real("exp%d_%d" % (i, K))
            self.side.append(v > 0)
        elif k == "cnum":
            v = z3.Real("cnum%d_%d" % (f.data, K))
            self.side.append(v > 0)
            self.side.append(self._p(v, K) == f.data)
        else:
            if k == "v":
                b = z3.Real(f.data)
                self.base[f.data] = b
                if f.data == "pi":
                    self.side.append(z3.And(b > q(Fraction("3.14159265358979")),
                                            b < q(Fraction("3.14159265358980"))))
                elif is_pos(f):
                    self.side.append(b > 0)
            elif k == "sum":
                parts = [self.mono(mm, cc) for mm, cc in f.data]
                b = z3.Sum(parts)
            elif k == "opq":
                num, den = self.numden(f.data)
                if den:
                    b = z3.Real("opq%d" % i)
                    D = self.mono(den)
                    self.side.append(z3.Implies(D != 0, b * D == self.mono(num, f.data[0])))
                else:
                    b = self.mono(num, f.data[0])
            elif k == "log":
                b = z3.Real("log%d" % i)
                c, m = f.data
                if not m:
                    x = Fraction(math.log(c))
                    self.side.append(z3.And(b > q(x - Fraction(1, 10**12)),
                                            b < q(x + Fraction(1, 10**12))))
            elif k == "fn":
                b = z3.Real("fn_%s_%d" % (f.data[0], i))
                if is_pos(f):
                    self.side.append(b > 0)
            else:
                raise SymError(k)
            if K == 1:
                v = b
            else:
                v = z3.Real("root%d_%d" % (i, K))
                self.side.append(v >= 0)
                self.side.append(self._p(v, K) == b)
        self.cache[i] = v
        return v

    @staticmethod
    def _p(v, n):
        if n == 1:
            return v
        return z3.Product([v] * n) if n <= 8 else v**n

    def mono(self, m, c=1):
        parts = []
        for i, e in m:
            if e < 0:
                raise SymError("negative exponent in mono")
            n = Fraction(e) * self.den.get(i, 1)
            assert n.denominator == 1
            parts.extend([self.root(i)] * n.numerator)
        if not parts:
            return q(c)
        p = parts[0] if len(parts) == 1 else z3.Product(parts)
        return p if c == 1 else q(c) * p

    def numden(self, t):
        c, m = t
        num = tuple((i, e) for i, e in m if e > 0)
        den = tuple((i, -e) for i, e in m if e < 0)
        return num, den

    def sign_formula(self, t, rel):
        """z3 formula for  t rel 0  (denominators assumed nonzero)"""
        c, m = t
        if c == 0:
            return z3.BoolVal(rel in ("<=", ">=", "=="))
        nz, parts, zero_able = [], [], []
        for i, e in m:
            f = fget(i)
            if e < 0:
                nz.append(self.root(i) != 0)
            if is_pos(f):
                continue
            if e > 0:
                zero_able.append(i)
            if isinstance(e, int) and e % 2:
                parts.append(self.root(i) if self.den.get(i, 1) == 1
                             else self._p(self.root(i), self.den[i]))
            elif e > 0:
                pass
        eqz = z3.Or([self.root(i) == 0 for i in zero_able]) if zero_able else z3.BoolVal(False)
        nzf = z3.And(nz) if nz else z3.BoolVal(True)
        if rel == "==":
            return z3.And(eqz, nzf)
        if rel == "!=":
            return z3.And(z3.Not(eqz), nzf)
        sg = z3.Product([q(1 if c > 0 else -1)] + parts) if parts else q(1 if c > 0 else -1)
        neg_ = z3.And(sg < 0, z3.Not(eqz))
        pos_ = z3.And(sg > 0, z3.Not(eqz))
        r = {"<": neg_, ">": pos_, "<=": z3.Or(neg_, eqz), ">=": z3.Or(pos_, eqz)}[rel]
        return z3.And(r, nzf)

    def eq_formula(self, a, b, rel):
        """a rel b for rel in ==, != with each side encoded on its own"""
        ca, ma = a
        cb, mb = b
        na, da = self.numden(a)
        nb, db = self.numden(b)
        # cancel common factors
        na, nb = cancel(na, nb)
        da, db = cancel(da, db)
        na, da = cancel(na, da)
        nb, db = cancel(nb, db)
        L = self.mono(fnf.mmul(na, db), ca) if ca != 0 else q(0)
        R = self.mono(fnf.mmul(nb, da), cb) if cb != 0 else q(0)
        nz = [self.root(i) != 0 for i, _ in da + db]
        f = (L == R) if rel == "==" else (L != R)
        return z3.And([f] + nz) if nz else f

    def axioms(self):
        """facts about the transcendental atoms present in the query"""
        out = []
        by = {}
        for f in list(self.atoms):
            key = f.kind if f.kind != "fn" else ("fn", f.data[0], len(f.data[1]))
            by.setdefault(key, []).append(f)
        done_vals = {i for i in self.cache}
        for key, fs in by.items():
            fs = [f for f in fs if f.id in done_vals]
            if len(fs) > 14:
                continue
            for x in range(len(fs)):
                for y in range(x):
                    a, b = fs[x], fs[y]
                    if a.kind == "log":
                        if not a.data[1] and not b.data[1]:
                            continue
                        pre = self.eq_formula(a.data, b.data, "==")
                    elif a.kind == "exp":
                        if self.den.get(a.id, 1) != self.den.get(b.id, 1):
                            continue
                        pre = self.eq_formula((1, a.data), (1, b.data), "==")
                    else:
                        pre = z3.And(
                            [self.eq_formula(s, t, "==") for s, t in zip(a.data[1], b.data[1])]
                        )
                    out.append(z3.Implies(pre, self.root(a.id) == self.root(b.id)))
        return out

    def trans_axioms(self):
        """order facts: log t <= t - 1, sign(log t) = sign(t - 1), exp t >= 1 + t ..."""
        out = []
        for f in list(self.atoms):
            if f.id not in self.cache:
                continue
            if f.kind == "log" and f.data[1]:
                L = self.root(f.id)
                c, m = f.data
                num, den = self.numden(f.data)
                N, D = self.mono(num, c), self.mono(den, 1)
                # argument positive: N*D > 0
                out.append(N * D > 0)
                out.append(z3.Implies(D > 0, z3.And(L * D <= N - D, L * N >= N - D)))
                out.append((L > 0) == (N * D > D * D))
                out.append((L == 0) == (N == D))
            elif f.kind == "exp":
                K = self.den.get(f.id, 1)
                E = self.root(f.id)
                num, den = self.numden((1, f.data))
                N, D = self.mono(num, 1), self.mono(den, 1)
                # E = exp(N/(K D))
                out.append((E > 1) == (N * D > 0))
                out.append((E == 1) == (N == 0))
                out.append(E * K * D * D >= K * D * D + N * D)
        return out


def cancel(a, b):
    if not a or not b:
        return a, b
    da, db = dict(a), dict(b)
    for i in list(da):
        if i in db:
            k = min(da[i], db[i])
            for d in (da, db):
                d[i] = fnf.nrm(d[i] - k)
                if d[i] == 0:
                    del d[i]
    return tuple(sorted(da.items())), tuple(sorted(db.items()))


def natoms(*terms):
    """number of log / uninterpreted atoms reachable"""
    e = Enc()
    for t in terms:
        e.collect(t)
    return sum(1 for f in e.atoms if f.kind in ("log", "fn"))


def encode(formulas, trans=False):
    """formulas: list of SymBool (conjunction). Returns (list of z3 formulas, Enc)"""
    e = Enc()
    prep = []
    for b in formulas:
        if isinstance(b, bool):
            prep.append((b, None, None))
            continue
        if b.rel in ("==", "!="):
            ta, tb = FNF(b.a), FNF(b.b)
            if natoms(ta, tb) > 8:
                td = FNF(sym.sub(b.a, b.b))
                if natoms(td) < natoms(ta, tb):
                    ta, tb = td, fnf.ZERO_T
            e.collect(ta)
            e.collect(tb)
            prep.append((b.rel, ta, tb))
        else:
            t = FNF(sym.sub(b.a, b.b))
            e.collect(t)
            prep.append((b.rel, t, None))
    out = []
    for rel, ta, tb in prep:
        if isinstance(rel, bool):
            out.append(z3.BoolVal(rel))
        elif rel in ("==", "!="):
            out.append(e.eq_formula(ta, tb, rel))
        else:
            out.append(e.sign_formula(ta, rel))
    ax = e.axioms()
    if trans:
        ax += e.trans_axioms()
    return out + ax + e.side, e


def check(formulas, timeout_ms=20000, trans=False, branch=False):
    """sat / unsat / unknown for a conjunction of SymBools"""
    fs, e = encode(formulas, trans)
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(fs)
    r = str(s.check())
    dt = time.time() - t0
    STATS["solver_s"] += dt
    STATS["max_query_s"] = max(STATS["max_query_s"], dt)
    STATS["branch_queries" if branch else "queries"] += 1
    if not branch:
        STATS[r] += 1
    model = None
    if r == "sat":
        model = {}
        mm = s.model()
        for name, v in e.base.items():
            if name == "pi":
                continue
            x = mm.eval(v, model_completion=True)
            model[name] = z3val(x)
    return r, model


def z3val(x):
    if z3.is_rational_value(x):
        return float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
    if z3.is_algebraic_value(x):
        a = x.approx(20)
        return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    try:
        return float(x.as_decimal(20).rstrip("?"))
    except Exception:
        return 0.0


def related(goal, assumptions):
    """assumptions connected to the goal through shared variables"""
    vs = set()
    for n in goal:
        vs |= set(sym.variables([n.a, n.b]))
    rest = []
    for a in assumptions:
        if isinstance(a, bool):
            continue
        rest.append((a, set(sym.variables([a.a, a.b]))))
    out = []
    changed = True
    while changed:
        changed = False
        keep = []
        for a, v in rest:
            if v & vs:
                out.append(a)
                vs |= v
                changed = True
            else:
                keep.append((a, v))
        rest = keep
    return out


class Slow(Exception):
    pass


class limit:
    """bound the time spent outside the solver (normal forms, encoding)"""

    def __init__(self, seconds):
        self.s = seconds

    def __enter__(self):
        def stop(*_):
            raise Slow()
        self.old = signal.signal(signal.SIGALRM, stop)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)


def bounded(formulas, timeout_ms, trans=False):
    try:
        with limit(timeout_ms / 1000 + 2):
            return check(formulas, timeout_ms, trans)
    except Slow:
        return "unknown", None


def nodes(n):
    seen, stack = {}, [n]
    while stack:
        m = stack.pop()
        if m.id not in seen:
            seen[m.id] = m
            stack.extend(sym.children(m))
    return seen


def sweep(a, b, points, timeout_ms, total_s, rel=()):
    """decide a == b through intermediate equalities.

    Nodes of the two expressions that agree numerically at the sampled points are conjectured to be
    equal; every conjecture is discharged by the solver, and each proven pair is then replaced by one
    fresh variable on both sides (sound: the remaining identity is shown for every value of it)."""
    if len(points) < 2:
        return "unknown"
    t0 = time.time()
    A, B = nodes(a), nodes(b)

    def key(n):
        ks = []
        for p in points[:3]:
            try:
                v = sym.evaluate(n, p["env"], p["memo"])
            except Exception:
                return None
            if not math.isfinite(v):
                return None
            ks.append(v)
        return ks

    def inner(m):
        return m.op not in ("c", "v")

    vals = []
    for i, n in A.items():
        if inner(n):
            k = key(n)
            if k is not None:
                vals.append((k, n))
    vals.sort(key=lambda t: (t[0][0], t[1].id))
    import bisect
    firsts = [v[0][0] for v in vals]
    cut, merge, ncut = {}, {}, 0
    for i in sorted(B):
        y = B[i]
        if not inner(y) or i in A:
            continue
        if time.time() - t0 > total_s:
            break
        k = key(y)
        if k is None:
            continue
        tol = 1e-9 * (1e-3 + abs(k[0]))
        cands = []
        for q_ in range(bisect.bisect_left(firsts, k[0] - tol), len(vals)):
            kk, x = vals[q_]
            if kk[0] > k[0] + tol:
                break
            if all(abs(u - v) <= 1e-9 * (1e-3 + abs(v)) for u, v in zip(kk, k)) and x is not y:
                cands.append(x)
        cands.sort(key=lambda n: n.id)
        for x in cands[:3]:
            if x.id in cut and i not in cut:
                X = cut[x.id]
            else:
                X = sym.substitute(x, {}, {j: v for j, v in cut.items() if j != x.id})
            Y = sym.substitute(y, {}, {j: v for j, v in cut.items() if j != i})
            ok = X is Y
            if not ok:
                r, _ = bounded([sym.SymBool("!=", X, Y)] + list(rel), timeout_ms)
                ok = r == "unsat"
            if ok:
                if x.id in cut:
                    cut[i] = cut[x.id]
                elif x.op in ("+", "neg"):
                    cut[i] = X  # sums stay transparent
                else:
                    c = sym.var("cut%d!" % (len(fnf.POS_VARS) * 100000 + ncut))
                    ncut += 1
                    try:
                        t = FNF(x)
                        if t[0] > 0 and all(is_pos(fget(f)) for f, _ in t[1]):
                            fnf.POS_VARS.add(c.args[0])
                    except Exception:
                        pass
                    cut[i] = cut[x.id] = c
                merge[i] = x
                break
    if os.environ.get("VERIF_SWEEP"):
        print("sweep", len(A), len(B), "merged", len(merge), "cuts", ncut, "%.1fs" % (time.time() - t0))
    STATS["merged"] = STATS.get("merged", 0) + len(merge)
    if b.id in merge and (merge[b.id] is a):
        return "unsat"
    if not merge:
        return "unknown"
    fa = sym.substitute(a, {}, dict(cut))
    fb = sym.substitute(b, {}, dict(cut))
    if fa is fb:
        return "unsat"
    r, _ = bounded([sym.SymBool("!=", fa, fb)] + list(rel), timeout_ms * 4)
    if r == "unsat":
        return r
    fb = sym.substitute(b, {}, dict(merge))
    if fb is a:
        return "unsat"
    r, _ = bounded([sym.SymBool("!=", a, fb)] + list(rel), timeout_ms * 4)
    return r if r == "unsat" else "unknown"


def prove(goal, assumptions=(), timeout_ms=60000, trans=False, points=()):
    """goal: SymBool or bool. returns (verdict, model): 'unsat' means the goal holds"""
    if isinstance(goal, bool):
        return ("unsat", None) if goal else ("sat", {})
    if goal.rel == "==":
        # equality: first without assumptions (identity), which is the usual case
        r, m = bounded([goal.neg()], min(timeout_ms, 1500 if len(points) > 1 else 4000))
        if r == "unsat":
            return r, m
        if len(points) > 1:
            rels = [()]
            if assumptions:
                rels.append(related([goal], assumptions))
            for rel in rels:
                if sweep(sym.const(goal.a), sym.const(goal.b), points, 3000, timeout_ms / 1000, rel) == "unsat":
                    return "unsat", None
        if r == "unknown" and timeout_ms > 1500:
            r, m = check([goal.neg()], timeout_ms)
            if r == "unsat":
                return r, m
        if not assumptions:
            return r, m
    rel = related([goal], assumptions)
    r, m = check([goal.neg()] + rel, timeout_ms, trans)
    return r, m
