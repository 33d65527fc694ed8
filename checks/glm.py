"""A user-defined family whose deviance is an arbitrary function: one unknown per evaluation."""
import numpy as np


def free_family(M, I, evals, scale=None, slope=2, var="one", bad=()):
    EF = M.exp_fam

    class Lin(EF.Link):
        """eta = slope * mu, an admissible link that keeps the algebra rational"""

        def f(self, mu):
            return mu * slope

        def fi(self, eta):
            return eta / slope

        def dy1(self, mu):
            return np.array([[I.const(float(slope))[()]] for _ in range(len(mu))]) if not I.sym else (mu * 0 + slope)

        def dy2(self, mu):
            return mu * 0

    class Free(EF.Family):
        def __init__(self):
            super().__init__(Lin(), True, scale)
            self.calls = 0

        def V(self, mu):
            v = mu * 0 + 1 if var == "one" else mu * 1
            for b in bad:
                v[b, 0] = float("nan")
            return v

        def dVy1(self, mu):
            return mu * 0 if var == "one" else mu * 0 + 1

        def llk(self, y, mu, scale=1):
            return I.real("llk")

        def lp(self, y, mu, scale=1):
            return mu

        def deviance(self, y, mu):
            k = self.calls
            self.calls += 1
            I.assume(k < evals)
            return I.real("dev_%d" % k)

        def D(self, y, mu):
            return mu

    return Free()
