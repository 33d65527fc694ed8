"""Import the mssm modules of /repo's working tree with freshly built extensions.

mode "sym":  extensions compiled over the symbolic scalar, numpy/scipy/math replaced in the modules
mode "real": extensions compiled from the same sources unchanged
"""
import importlib
import os
import sys
import types

from .build import REPO

ALL_EXT = ["eigen_solvers", "davies", "dChol", "mcmc", "hsmm", "hazard"]
MODS = ["custom_types", "file_loading", "matrix_solvers", "penalties", "smooths", "terms", "formula",
        "exp_fam", "compact_rep", "repara", "gamm_solvers", "hsmm", "utils", "compare", "mcmc"]


def _stub(name):
    m = types.ModuleType(name)

    def ga(attr):
        if attr.startswith("__"):
            raise AttributeError(attr)

        def f(*a, **k):
            from .sym import SymError
            raise SymError("extension %s.%s was not built for this check" % (name, attr))

        return f

    m.__getattr__ = ga
    return m


def _wrap(ext):
    """sparse arguments and results of an extension pass through scipy.sparse.csc_matrix: use the
    symbolic array type there while a function of the extension runs"""
    import functools
    import numpy as np
    import scipy.sparse as ss
    from . import shim

    def wrap(f):
        @functools.wraps(f)
        def g(*a, **k):
            old = ss.csc_matrix, ss.csr_matrix
            ss.csc_matrix, ss.csr_matrix = shim.csc_array, shim.csr_array
            try:
                a = [shim.csc_array(x) if ss.issparse(x) else shim.tosym(x) if isinstance(x, np.ndarray) and x.dtype.kind == "f" else x
                     for x in a]
                r = f(*a, **k)
            finally:
                ss.csc_matrix, ss.csr_matrix = old
            conv = lambda x: x.view(shim.SymArray) if isinstance(x, np.ndarray) and x.dtype == object else x
            return tuple(conv(x) for x in r) if isinstance(r, tuple) else conv(r)
        return g

    for n in dir(ext):
        f = getattr(ext, n)
        if not n.startswith("_") and callable(f):
            setattr(ext, n, wrap(f))


class Mssm:
    pass


_loaded = None


def load(mode, extdir, names):
    global _loaded
    if _loaded is not None:
        return _loaded
    sys.path.insert(0, os.path.join(REPO, "src"))
    for n in ALL_EXT:
        if n not in names or (mode == "sym" and n == "davies"):
            sys.modules[n] = _stub(n)
    sys.path.insert(0, extdir)
    for n in ALL_EXT:
        m = importlib.import_module(n)
        f = getattr(m, "__file__", None)
        if f is not None and not f.startswith(extdir):
            raise RuntimeError("wrong extension loaded: " + f)
    ns = Mssm()
    ns.mode = mode
    ns.models = importlib.import_module("mssm.models")
    src = os.path.join(REPO, "src")
    if not ns.models.__file__.startswith(src):
        raise RuntimeError("mssm loaded from " + ns.models.__file__)
    mods = [ns.models]
    for m in MODS:
        x = importlib.import_module("mssm.src.python." + m)
        setattr(ns, m, x)
        mods.append(x)
    ns.ext = types.SimpleNamespace(**{n: sys.modules[n] for n in ALL_EXT})
    if mode == "sym":
        from . import shim
        shim.install(mods)
        for n in ("eigen_solvers", "dChol", "mcmc"):
            if n in names:
                _wrap(sys.modules[n])
    _loaded = ns
    return ns
