"""HSMM log-likelihood = log of the sum over every state/duration history."""
import itertools
from engine.case import Case, Goal, F
from checks import hs

EXTS = ["hsmm"]


def cases(tier, M):
    out = []

    def add(name, **kw):
        def run(I):
            o = hs.free_model(I, M, **kw)
            return {"llk": o.fam.llk(o.coef, o.split, o.ys, o.Xs), "spec": hs.brute_llk(o)}

        def goals(I, out):
            return [Goal("llk", out["llk"], "==", out["spec"])]

        out.append(Case(name, run, goals, bounds=str(kw), samples=2))

    def hmp(name, jac=False, **kw):
        def run(I):
            o = hs.hmp_model(I, M, **kw)
            r = {"llk": o.fam.llk(o.coef, o.split, o.ys, o.Xs), "spec": hs.brute_llk(o) + o.logjac}
            if kw.get("shared") and o.M_sig > 1:
                o.raw = [o.raw[0]] * o.M_sig  # known finding: every signal reads the first one
                r["alt"] = hs.brute_llk(o) + o.logjac
            return r

        def goals(I, out):
            return [Goal("llk", out["llk"], "==", out["spec"], alt=out.get("alt"))]

        out.append(Case(name, run, goals, bounds=str(kw), samples=2))

    for sw, ew, ei in itertools.product([True, False], repeat=3):
        f = "%d%d%d" % (sw, ew, ei)
        fl = dict(starts=sw, ends_with=ew, ends_in=ei)
        add("fixT n2 D3 T4 flags" + f, n_S=2, D=3, lens=[4], **fl)
        add("fixT n3 D4 T3 flags" + f, n_S=3, D=4, lens=[3], **fl)
        add("estT n3 D3 T3 flags" + f, n_S=3, D=3, lens=[3], fixT=False, **fl)
        add("tvd n3 D3 T3 flags" + f, n_S=3, D=3, lens=[3], fixT=False, tvd=True, **fl)
    add("tvd fixT n2 D3 T3", n_S=2, D=3, lens=[3], tvd=True)
    add("estT n2 two series", n_S=2, D=3, lens=[3, 2], fixT=False, starts=False)
    add("fixT per series", n_S=2, D=3, lens=[2, 3], perseries=True)
    add("two signals", n_S=2, D=3, lens=[3], M_sig=2, starts=False)
    add("two signals two pars shared", n_S=2, D=2, lens=[2], M_sig=2, npar=2, shared=[0])
    add("two signals shared_m", n_S=2, D=2, lens=[2], M_sig=2, npar=2, shared=[0, 1], shared_m=True)
    for fam in ("Gaussian", "Exponential"):
        hmp("hmp %s n3" % fam, n_S=3, D=4, lens=[5], fam=fam)
        hmp("hmp %s n3 free end" % fam, n_S=3, D=4, lens=[4], fam=fam, ends_with=False, ends_in=False)
        hmp("hmp %s n2 two series" % fam, n_S=2, D=4, lens=[3, 4], fam=fam)
        hmp("hmp %s M2" % fam, n_S=3, D=3, lens=[4], fam=fam, M_sig=2)
        hmp("hmp %s width3" % fam, n_S=3, D=4, lens=[5], fam=fam, width=3)
    hmp("hmp shared", n_S=3, D=3, lens=[4], shared=[0])
    hmp("hmp shared M2", n_S=3, D=3, lens=[4], shared=[0], M_sig=2)
    hmp("hmp shared_m M2", n_S=3, D=3, lens=[4], shared=[0], shared_m=True, M_sig=2)
    hmp("hmp ar", n_S=3, D=3, lens=[4], ar=True)
    hmp("hmp ar negative", n_S=3, D=3, lens=[4], ar=True, negrho=True)
    hmp("hmp ar two series M2", n_S=2, D=3, lens=[3, 3], ar=True, M_sig=2)
    return out
