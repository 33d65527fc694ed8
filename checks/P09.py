"""Viterbi decoding returns a history of maximal joint probability."""
import numpy as np
from engine.case import Case, Goal, F
from checks import hs

EXTS = ["hsmm"]
ASSUMPTIONS = ["ties between histories may be broken either way"]


def cases(tier, M):
    out = []

    def mk(name, build, kw, **ck):
        def run(I):
            o = build(I, M, **kw)
            I.o = o
            r = o.fam.decode_viterbi(o.coef, o.split, o.ys, o.Xs)
            return {"ed": [float(int(e)) for e, _ in r], "states": [[float(int(x)) for x in np.asarray(s).ravel()] for _, s in r]}

        def goals(I, out):
            o = I.o
            yield Goal("series", float(len(out["ed"])), "==", float(len(o.lens)))
            for s in range(len(o.lens)):
                n, ob, d0, d, T, pi = o.series(s)
                H = hs.histories(n, o.D, o.n_S, ob, d0, d, T, pi, *o.flags)
                best = (tuple(int(x) for x in out["states"][s]), int(out["ed"][s]))
                score = {}
                memo = {}
                for st, ed, fac in H:
                    v = 0
                    for f in fac:
                        if id(f) not in memo:
                            memo[id(f)] = (f, F.log(f))
                        v = v + memo[id(f)][1]
                    score[st, ed] = v
                yield Goal("series %d: admissible history" % s, 1.0 if best in score else 0.0, "==", 1.0)
                if best in score:
                    for h in score:
                        if h != best:
                            yield Goal("series %d: %s at least as probable as %s" % (s, "returned", h), score[best], ">=", score[h])

        out.append(Case(name, run, goals, bounds=str(kw), max_paths=ck.pop("max_paths", 3000), samples=12, **ck))

    def add(name, **kw):
        mk(name, hs.free_model, kw)

    for sw in (True, False):
        for ew, ei in ((False, False), (True, False), (False, True), (True, True)):
            f = "%d%d%d" % (sw, ew, ei)
            fl = dict(starts=sw, ends_with=ew, ends_in=ei)
            add("fixT n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], **fl)
            if tier != "quick" or not (ew or ei):
                add("tvd estT n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], tvd=True, fixT=False, lin=True, **fl)
            add("tvd fixT n2 D2 T3 flags" + f, n_S=2, D=2, lens=[3], tvd=True, lin=True, **fl)
            if tier != "quick":
                add("tvd fixT n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], tvd=True, lin=True, **fl)
                add("fixT n3 D3 T2 flags" + f, n_S=3, D=3, lens=[2], **fl)
                add("fixT n2 D4 T3 flags" + f, n_S=2, D=4, lens=[3], **fl)
            add("estT n3 D2 T2 flags" + f, n_S=3, D=2, lens=[2], fixT=False, **fl)
    add("fixT n3 D2 T3", n_S=3, D=2, lens=[3], ends_in=True)
    add("two series", n_S=2, D=3, lens=[2, 2], ends_with=True)
    add("per series T", n_S=2, D=2, lens=[2, 3], perseries=True, ends_in=True)
    add("two signals", n_S=2, D=2, lens=[2], M_sig=2, starts=False)
    hmp = lambda name, **kw: mk(name, hs.hmp_model, kw, trans=False)
    hmp("hmp n3", n_S=3, D=3, lens=[5], symT=True)
    hmp("hmp n3 free end", n_S=3, D=3, lens=[4], ends_with=False, ends_in=False)
    hmp("hmp n3 D4", n_S=3, D=4, lens=[6])
    hmp("hmp exponential n3 D4 M2", n_S=3, D=4, lens=[5], fam="Exponential", M_sig=2)
    hmp("hmp ar n3", n_S=3, D=3, lens=[5], ar=True)
    hmp("hmp ar n3 D4 negative", n_S=3, D=4, lens=[6], ar=True, negrho=True)
    hmp("hmp ar n3 free end", n_S=3, D=3, lens=[4], ar=True, ends_with=False, ends_in=False)
    hmp("hmp n5", n_S=5, D=3, lens=[8])
    hmp("hmp ar n5", n_S=5, D=3, lens=[8], ar=True)
    return out
