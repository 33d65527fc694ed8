"""HSMM gradient = derivative of the HSMM log-likelihood with respect to every coefficient."""
from engine.case import Case, Goal, scal
from checks import hs

EXTS = ["hsmm"]


def cases(tier, M):
    out = []

    def mk(name, build, kw):
        def run(I):
            o = build(I, M, **kw)
            return {"llk": o.fam.llk(o.coef, o.split, o.ys, o.Xs),
                    "g": o.fam.gradient(o.coef, o.split, o.ys, o.Xs), "names": list(o.names)}

        def goals(I, out):
            g = out["g"].reshape(-1)
            yield Goal("length", float(len(g)), "==", float(len(out["names"])))
            for k, n in enumerate(out["names"]):
                if k < len(g):
                    yield Goal("d/d" + n, g[k], "==", I.D(lambda o: o["llk"], n))

        out.append(Case(name, run, goals, bounds=str(kw), samples=2))

    def add(name, **kw):
        mk(name, hs.free_model, kw)

    def hmp(name, **kw):
        mk(name, hs.hmp_model, kw)

    for sw in (True, False):
        for ew, ei in ((False, False), (True, False), (False, True), (True, True)):
            f = "%d%d%d" % (sw, ew, ei)
            fl = dict(starts=sw, ends_with=ew, ends_in=ei)
            add("fixT n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], **fl)
            add("estT n3 D3 T2 flags" + f, n_S=3, D=3, lens=[2], fixT=False, small=True, **fl)
            if tier != "quick" or (sw and ei):
                add("estT n3 D3 T3 flags" + f, n_S=3, D=3, lens=[3], fixT=False, small=True, **fl)
            add("tvd n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], fixT=False, tvd=True, small=True, **fl)
    add("tvd n3 D3 T2", n_S=3, D=3, lens=[2], fixT=False, tvd=True, small=True)
    add("two series", n_S=2, D=3, lens=[3, 2], fixT=False, small=True)
    add("per series T", n_S=2, D=3, lens=[2, 2], perseries=True)
    add("two signals", n_S=2, D=2, lens=[2], M_sig=2, starts=False)
    add("two signals two pars shared", n_S=2, D=2, lens=[2], M_sig=2, npar=2, shared=[0])
    add("two signals shared_m", n_S=2, D=2, lens=[2], M_sig=2, npar=2, shared=[0, 1], shared_m=True)
    for fam in ("Gaussian", "Exponential"):
        hmp("hmp %s n3" % fam, n_S=3, D=3, lens=[4], fam=fam)
        hmp("hmp %s n3 free end" % fam, n_S=3, D=3, lens=[4], fam=fam, ends_with=False, ends_in=False)
        hmp("hmp %s n2 two series" % fam, n_S=2, D=3, lens=[3, 4], fam=fam)
        hmp("hmp %s M2" % fam, n_S=2, D=3, lens=[3], fam=fam, M_sig=2)
    hmp("hmp n5", n_S=5, D=3, lens=[7])
    hmp("hmp shared", n_S=3, D=3, lens=[4], shared=[0])
    hmp("hmp shared n5", n_S=5, D=3, lens=[7], shared=[0])
    hmp("hmp shared M2", n_S=3, D=3, lens=[4], shared=[0], M_sig=2)
    hmp("hmp shared_m M2", n_S=3, D=3, lens=[4], shared=[0], shared_m=True, M_sig=2)
    hmp("hmp ar", n_S=3, D=3, lens=[4], ar=True)
    hmp("hmp ar n5", n_S=5, D=3, lens=[7], ar=True)
    hmp("hmp ar negative", n_S=3, D=3, lens=[4], ar=True, negrho=True)
    hmp("hmp ar two series M2", n_S=2, D=3, lens=[3, 3], ar=True, M_sig=2)
    return out
