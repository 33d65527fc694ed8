"""Sampled state sequences follow the exact posterior over histories."""
import numpy as np
from engine.case import Case, Goal, F
from checks import hs

EXTS = ["hsmm"]
ASSUMPTIONS = ["std::discrete_distribution draws index i with probability weight i / sum of weights; every outcome of every "
               "draw is explored, the probability of the returned sequence is the product of the draws'",
               "counterexamples are replayed by drawing 200000 sequences from the real build"]
N = 200000


def cases(tier, M):
    out = []

    def mk(name, build, kw, **ck):
        def run(I):
            o = build(I, M, **kw)
            I.o = o
            pr = []
            if I.sym:
                from engine import cppapi, sym

                def choose(w):
                    idx = [i for i, x in enumerate(w) if not (x.is_const and x == 0)]
                    k = idx[sym.CTX.explorer.pick(len(idx))]
                    tot = sym.const(0)
                    for i in idx:
                        tot = tot + w[i]
                    pr.append(w[k] / tot)
                    return k
                cppapi.HOOKS["choose"] = choose
            r = o.fam.sample_posterior_states(o.coef, o.split, o.ys, o.Xs, n_samples=1 if I.sym else N, seed=3)
            res = []
            for e, s in r:
                e, s = np.asarray(e).ravel(), np.asarray(s)
                res.append({"n": float(s.shape[0])})
                I.draws = getattr(I, "draws", {})
                I.draws[len(res) - 1] = [(tuple(int(x) for x in s[:, k]), int(e[k])) for k in range(len(e))]
            p = 1
            for x in pr:
                p = p * x
            I.p = p
            return res

        def goals(I, out):
            o = I.o
            p = 1
            for s in range(len(o.lens)):
                n, ob, d0, d, T, pi = o.series(s)
                H = hs.histories(n, o.D, o.n_S, ob, d0, d, T, pi, *o.flags)
                w, tot = {}, 0
                for st, ed, fac in H:
                    v = 1
                    for f in fac:
                        v = v * f
                    w[st, ed] = v
                    tot = tot + v
                if I.sym:
                    h = I.draws[s][0]
                    yield Goal("series %d: admissible" % s, 1.0 if h in w else 0.0, "==", 1.0)
                    p = p * (w[h] / tot) if h in w else 0
                    lab = h
                else:
                    cnt = {}
                    for h in I.draws[s]:
                        cnt[h] = cnt.get(h, 0) + 1
                    yield Goal("series %d: admissible" % s, 1.0 if all(h in w for h in cnt) else 0.0, "==", 1.0)
                    for h in w:
                        yield Goal("probability", cnt.get(h, 0) / N, "==", w[h] / tot, 0.006)
            if I.sym:
                yield Goal("probability", I.p, "==", p)

        out.append(Case(name, run, goals, bounds=str(kw), max_paths=3000, samples=1, validate=False, **ck))

    def add(name, **kw):
        mk(name, hs.free_model, kw)

    for sw in (True, False):
        for ew, ei in ((False, False), (True, False), (False, True), (True, True)):
            f = "%d%d%d" % (sw, ew, ei)
            fl = dict(starts=sw, ends_with=ew, ends_in=ei)
            add("fixT n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], **fl)
            add("tvd n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], tvd=True, **fl)
            add("estT n3 D3 T2 flags" + f, n_S=3, D=3, lens=[2], fixT=False, **fl)
            if tier != "quick":
                add("tvd estT n3 D3 T3 flags" + f, n_S=3, D=3, lens=[3], tvd=True, fixT=False, **fl)
                add("fixT n3 D4 T4 flags" + f, n_S=3, D=4, lens=[4], **fl)
    add("two series", n_S=2, D=3, lens=[2, 2], ends_with=True)
    add("per series T", n_S=2, D=2, lens=[2, 3], perseries=True, ends_in=True)
    add("two signals", n_S=2, D=2, lens=[2], M_sig=2, starts=False)
    hmp = lambda name, **kw: mk(name, hs.hmp_model, kw)
    hmp("hmp n3", n_S=3, D=3, lens=[5], symT=True)
    hmp("hmp n3 free end", n_S=3, D=3, lens=[4], ends_with=False, ends_in=False)
    hmp("hmp n3 D4", n_S=3, D=4, lens=[6])
    hmp("hmp exponential n3 D4 M2", n_S=3, D=4, lens=[5], fam="Exponential", M_sig=2)
    hmp("hmp ar n3", n_S=3, D=3, lens=[5], ar=True)
    hmp("hmp ar n3 D4 negative", n_S=3, D=4, lens=[6], ar=True, negrho=True)
    hmp("hmp ar n3 free end", n_S=3, D=3, lens=[4], ar=True, ends_with=False, ends_in=False)
    hmp("hmp n5", n_S=5, D=3, lens=[8])
    hmp("hmp ar n5", n_S=5, D=3, lens=[8], ar=True)
    return out
