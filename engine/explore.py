"""Path exploration by re-execution with z3-decided branch feasibility."""
from . import sym, decide
from .sym import CTX, SymBool, SymError


class PathLimit(SymError):
    pass


class Infeasible(BaseException):
    pass


class Explorer:
    generic = False  # values that are not identically zero are taken to be nonzero

    def __init__(self, assumptions=(), max_paths=64, branch_timeout_ms=3000, trans=True):
        self.assumptions = [a for a in assumptions if a is not True]
        self.max_paths = max_paths
        self.timeout = branch_timeout_ms
        self.trans = trans
        self.n_paths = 0
        self.n_branches = 0
        self.unknown_branches = 0
        self._cache = {}

    # -- per path ------------------------------------------------------------------------------
    def _reset(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.path = []
        self.known = {}

    def sign(self, n):
        """sign of a symbolic value on this path (forks)"""
        if n > 0:
            return 1
        if n < 0:
            return -1
        return 0

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.path.append(b)
        self.known[self._key(b)] = True

    def _key(self, b):
        return (b.rel, b.a.id, b.b.id)

    def branch(self, b):
        if b.a.op == "fn" and b.a.args[0] == "abs":
            e = b.a.args[1]
            if b.b.is_const and b.b.val == 0 and b.rel in (">", "!=", "<=", "=="):
                return self.branch(SymBool("!=" if b.rel in (">", "!=") else "==", e, b.b))
            return self.branch(SymBool(b.rel, e if e >= 0 else -e, b.b))
        if self.generic and b.rel in ("!=", "==") and b.b.is_const and b.b.val == 0:
            nz = SymBool("!=", b.a, b.b)
            k = self._key(nz)
            if k not in self.known:
                self.known[k] = self._feasible(nz)
                if self.known[k]:
                    self.path.append(nz)
            return self.known[k] == (b.rel == "!=")
        key = self._key(b)
        for k, v in ((key, True), (self._key(b.neg()), False)):
            if k in self.known:
                return self.known[k] is v if v else not self.known[k]
        # also a<b versus b>a
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}[b.rel]
        fb = SymBool(flip, b.b, b.a)
        if self._key(fb) in self.known:
            return self.known[self._key(fb)]
        if self._key(fb.neg()) in self.known:
            return not self.known[self._key(fb.neg())]
        self.n_branches += 1
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
        else:
            ft = self._feasible(b)
            ff = self._feasible(b.neg()) if ft else True
            if ft and ff:
                d = (True, True)
            else:
                d = (bool(ft), False)
            self.trace.append(d)
        val = d[0]
        self.known[key] = val
        if d[1] or True:
            self.path.append(b if val else b.neg())
        return val

    def pick(self, n):
        """nondeterministic choice of 0..n-1: every alternative is explored"""
        for i in range(n - 1):
            pos = len(self.trace)
            d = self.prefix[pos] if pos < len(self.prefix) else (True, True)
            self.trace.append(d)
            if d[0]:
                return i
        return n - 1

    def _feasible(self, b):
        k = (self._key(b), tuple(self._key(p) for p in self.path))
        r = self._cache.get(k)
        if r is None:
            rel = decide.related([b], list(self.assumptions) + self.path)
            r, _ = decide.check([b] + rel, self.timeout, self.trans, branch=True)
            if r == "unknown":
                self.unknown_branches += 1
            r = r != "unsat"
            self._cache[k] = r
        return r

    # -- driver --------------------------------------------------------------------------------
    def run(self, fn):
        """yields (result, path condition) for every feasible path of fn()"""
        work = [[]]
        while work:
            prefix = work.pop()
            self._reset(prefix)
            self.n_paths += 1
            if self.n_paths > self.max_paths:
                raise PathLimit("more than %d paths" % self.max_paths)
            old = CTX.explorer
            CTX.explorer = self
            cut = False
            try:
                try:
                    res = fn()
                except Infeasible:
                    cut = True
            finally:
                CTX.explorer = old
            for i in range(len(prefix), len(self.trace)):
                v, both = self.trace[i]
                if both:
                    work.append([t if j < i else (not v, False)
                                 for j, t in enumerate(self.trace[: i + 1])])
            if cut:
                continue
            # mark decisions taken in prefix as already explored
            yield res, list(self.path)
