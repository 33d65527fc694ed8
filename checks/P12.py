"""Spline bases: the B-spline basis of every smooth is the B-spline basis."""
import numpy as np
from engine.case import Case, Goal, eqs
from engine.sym import S

EXTS = []
ASSUMPTIONS = ["covariate values lie at or above the left end of the knot range for degree zero bases (half-open steps)"]


def deboor(x, t, k, p):
    """Cox-de Boor recursion on knots t"""
    if p == 0:
        return 1 if (x > t[k]) and (x <= t[k + 1]) else 0
    a = deboor(x, t, k, p - 1)
    b = deboor(x, t, k + 1, p - 1)
    r = 0
    if not (isinstance(a, int) and a == 0):
        r = r + (x - t[k]) / (t[k + p] - t[k]) * a
    if not (isinstance(b, int) and b == 0):
        r = r + (t[k + p + 1] - x) / (t[k + p + 1] - t[k + 1]) * b
    return r


def cases(tier, M):
    out = []
    SM = M.smooths
    deep = tier == "thorough"

    def basis(nk, deg, where):
        def run(I):
            lo, w = I.real("lo"), I.pos("w")
            u = I.real("u")
            if where == "in":
                I.assume(u >= 0) if deg > 0 else I.assume(u > 0)
                I.assume(u <= 1)
            x = I.arr("z", 1)
            x = x.copy()
            x[0] = lo + u * w
            hi = lo + w
            o = {"B": SM.B_spline_basis(x, None, nk, min_c=lo, max_c=hi, deg=deg), "lo": lo, "w": w, "u": u}
            return o

        def goals(I, o):
            B, lo, w, u = np.asarray(o["B"]), o["lo"], o["w"], o["u"]
            g = [Goal("columns", float(B.shape[1]), "==", float(nk))]
            if B.shape != (1, nk):
                return g
            ndx = nk - deg
            # knots in units of the range
            t = [((k - deg) * I.const(1.0)) / ndx for k in range(ndx + 1 + 2 * deg)]
            if I.sym:
                from fractions import Fraction
                t = [Fraction(k - deg, ndx) for k in range(ndx + 1 + 2 * deg)]
            else:
                t = [(k - deg) / ndx for k in range(ndx + 1 + 2 * deg)]
            s = 0
            for k in range(nk):
                spec = deboor(u, t, k, deg)
                g.append(Goal("B[%d] is the B-spline" % k, B[0, k], "==", spec))
                s = s + B[0, k]
                g.append(Goal("B[%d] >= 0" % k, B[0, k], ">=", 0))
            if where == "in":
                g.append(Goal("partition of unity", s, "==", 1))
            return g

        return Case("basis nk=%d deg=%d %s" % (nk, deg, where), run, goals,
                    "every location, range and covariate value %s the range; nk=%d, degree %d" % (
                        "in" if where == "in" else "in or outside", nk, deg), max_paths=64)

    for nk, deg in [(3, 1), (4, 2), (4, 3), (5, 3), (3, 0)] + ([(6, 3), (8, 3), (10, 3), (5, 1), (6, 2), (7, 4)] if deep else [(6, 3), (7, 4)]):
        out.append(basis(nk, deg, "in"))
        if (nk, deg) in ((4, 2), (5, 3), (8, 3)):
            out.append(basis(nk, deg, "any"))

    def defrange(nk, deg, n):
        """without limits the range is that of the data"""
        def run(I):
            x = I.arr("x", n)
            I.assume(x[0] < x[1])
            lo, hi = min(x), max(x)
            return {"A": SM.B_spline_basis(x, None, nk, deg=deg), "B": SM.B_spline_basis(x, None, nk, min_c=lo, max_c=hi, deg=deg)}

        def goals(I, o):
            return eqs("default range", o["A"], o["B"])

        return Case("default range nk=%d deg=%d n=%d" % (nk, deg, n), run, goals, "every %d values" % n, max_paths=400)

    out.append(defrange(3, 2, 3))
    out.append(defrange(3, 1, 2))

    def conv(nk, deg, n, onset):
        def run(I):
            w = I.pos("w")
            x = I.const(np.arange(n))
            I.assume(w > n - 1)
            return {"B": SM.B_spline_basis(x, onset, nk, min_c=0 * w, max_c=w, convolve=True, deg=deg), "w": w, "x": x}

        def goals(I, o):
            B, w, x = np.asarray(o["B"]), o["w"], o["x"]
            g = [Goal("shape", float(B.shape[0] * 1000 + B.shape[1]), "==", float(n * 1000 + nk))]
            if B.shape != (n, nk):
                return g
            K = nk + 1 + deg
            t = [w * k / (K - 1) for k in range(K)]
            for i in range(n):
                for k in range(nk):
                    spec = 0 if i < onset else deboor(x[i - onset], t, k, deg)
                    g.append(Goal("response[%d,%d]" % (i, k), B[i, k], "==", spec))
            return g

        return Case("impulse response nk=%d deg=%d n=%d onset=%d" % (nk, deg, n, onset), run, goals,
                    "every range of the response; %d samples, event at sample %d" % (n, onset), max_paths=200)

    for c in [(3, 1, 3, 0), (3, 2, 4, 1), (4, 3, 4, 2), (3, 2, 4, 3)]:
        out.append(conv(*c))

    def tp(n, ks):
        def run(I):
            Bs = [I.arr("B%d" % j, (n, k)) for j, k in enumerate(ks)]
            R = Bs[0]
            for b in Bs[1:]:
                R = SM.TP_basis_calc(R, b)
            return {"R": R, "Bs": Bs}

        def goals(I, o):
            R, Bs = np.asarray(o["R"]), o["Bs"]
            tot = int(np.prod(ks))
            g = [Goal("shape", float(R.shape[0] * 1000 + R.shape[1]), "==", float(n * 1000 + tot))]
            if R.shape != (n, tot):
                return g
            for i in range(n):
                for c, idx in enumerate(np.ndindex(*ks)):
                    e = 1
                    for j, k in enumerate(idx):
                        e = e * Bs[j][i, k]
                    g.append(Goal("tensor[%d,%d]" % (i, c), R[i, c], "==", e))
            return g

        return Case("tensor %s n=%d" % (ks, n), run, goals, "every marginal basis of these sizes")

    for c in [(2, (2, 3)), (2, (3, 2)), (1, (2, 2, 3))] + ([(3, (3, 3, 2)), (2, (2, 2, 2, 2))] if deep else []):
        out.append(tp(*c))
    return out
