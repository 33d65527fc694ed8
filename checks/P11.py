"""HSMM residuals: forward (quantile), predictive and duration residuals."""
import numpy as np
from engine.case import Case, Goal, F, scal
from checks import hs

EXTS = ["hsmm"]


def cases(tier, M):
    out = []

    def mk(name, build, kw, normal=False, **ck):
        def run(I):
            o = build(I, M, **kw)
            I.o = o
            f = o.fam.get_resid(o.coef, o.split, o.ys, o.Xs, resid_type="forward", transform_to_normal=normal)
            p = o.fam.get_resid(o.coef, o.split, o.ys, o.Xs, resid_type="predictive")
            return {"f": f, "p": p}

        def goals(I, out):
            o = I.o
            N = sum(o.lens)
            for nm in ("f", "p"):
                for ax, n in enumerate((N, o.M_sig)):
                    yield Goal("shape %s" % nm, float(out[nm].shape[ax]), "==", float(n))
            row = 0
            for s in range(len(o.lens)):
                a = o.series(s)
                n = a[0]
                den = [1] + [hs.partial_mass(n, o.D, o.n_S, *a[1:], *o.flags, t, a[1]) for t in range(n - 1)]
                for m in range(o.M_sig):
                    cs = ss = 0
                    for t in range(n):
                        u = hs.partial_mass(n, o.D, o.n_S, *a[1:], *o.flags, t, o.cdf(s, m)) / den[t]
                        if normal:
                            u = M.hsmm.scp.stats.norm.ppf(u)
                        yield Goal("forward s%d t%d m%d" % (s, t, m), out["f"][row + t, m], "==", u)
                        e = hs.partial_mass(n, o.D, o.n_S, *a[1:], *o.flags, t, o.mean(s, m)) / den[t]
                        r = o.y(s, m, t) - e
                        cs, ss = cs + r, ss + r * r
                        yield Goal("predictive s%d t%d m%d" % (s, t, m), out["p"][row + t, m], "==", cs / F.sqrt(ss) if t else r)
                row += n

        out.append(Case(name, run, goals, bounds=str(kw), samples=2, **ck))

    def add(name, normal=False, **kw):
        mk(name, hs.free_model, dict(kw, npar=3, res=True), normal)

    for sw in (True, False):
        for ew, ei in ((False, False), (True, False), (False, True), (True, True)):
            f = "%d%d%d" % (sw, ew, ei)
            fl = dict(starts=sw, ends_with=ew, ends_in=ei)
            add("fixT n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], **fl)
            add("tvd n2 D3 T3 flags" + f, n_S=2, D=3, lens=[3], tvd=True, **fl)
            add("estT n3 D3 T2 flags" + f, n_S=3, D=3, lens=[2], fixT=False, **fl)
            add("M2 n2 D3 T2 flags" + f, n_S=2, D=3, lens=[2], M_sig=2, **fl)
            if tier != "quick":
                add("M2 n3 D4 T3 flags" + f, n_S=3, D=4, lens=[3], M_sig=2, **fl)
    add("two series", n_S=2, D=3, lens=[2, 3], ends_with=True)
    add("normal scale", normal=True, n_S=2, D=3, lens=[2])
    add("per series T", n_S=2, D=2, lens=[2, 3], perseries=True)
    hmp = lambda name, **kw: mk(name, hs.hmp_model, kw)
    for fam in ("Gaussian", "Exponential"):
        hmp("hmp n3 " + fam, n_S=3, D=3, lens=[4], symT=True, fam=fam)
        hmp("hmp n3 M2 free end " + fam, n_S=3, D=3, lens=[3], ends_with=False, ends_in=False, M_sig=2, fam=fam)
        hmp("hmp ar n3 " + fam, n_S=3, D=3, lens=[4], ar=True, fam=fam)
        hmp("hmp ar n3 M2 " + fam, n_S=3, D=3, lens=[4], ar=True, fam=fam, M_sig=2)
        hmp("hmp ar n3 free end " + fam, n_S=3, D=3, lens=[4], ar=True, ends_with=False, ends_in=False, fam=fam)
        hmp("hmp two series " + fam, n_S=3, D=3, lens=[4, 4], fam=fam)
    # duration residuals: mean residual (here: the duration's own parameter) of the decoded runs per state
    def runs(states):
        r, t = [], 0
        while t < len(states):
            e = t
            while e < len(states) and states[e] == states[t]:
                e += 1
            r.append((t, states[t], e - t))
            t = e
        return r

    def expect(o, s, states, j, starts):
        v = []
        for k, (t, st, d) in enumerate(runs(states)):
            if st == j:
                v.append(o.durpar(s, j if k == 0 or starts else j + o.n_S, d, t))
        if not v or v[0] is None:
            return None
        tot = 0
        for x in v:
            tot = tot + x
        return tot / len(v)

    def dur(name, build, kw, post=False, **ck):
        starts = kw.get("starts", True)

        def run(I):
            o = build(I, M, **kw)
            I.o = o
            if post:
                from engine import sym
                if I.sym:
                    from engine import cppapi

                    def choose(w):
                        idx = [i for i, x in enumerate(w) if not (x.is_const and x == 0)]
                        return idx[sym.CTX.explorer.pick(len(idx))]
                    cppapi.HOOKS["choose"] = choose
                rec = []
                orig = o.fam.sample_posterior_states

                def wrap(*a, **k):
                    r = orig(*a, **k)
                    rec.extend(r)
                    return r
                o.fam.sample_posterior_states = wrap
                r = o.fam.get_resid(o.coef, o.split, o.ys, o.Xs, resid_type="posterior_dur", n_samples=2, seed=1)
                I.states = [[[int(x) for x in np.asarray(st)[:, q]] for _, st in rec] for q in range(2)]
                return {"r": r}
            v = o.fam.decode_viterbi(o.coef, o.split, o.ys, o.Xs)
            I.states = [[[int(x) for x in np.asarray(st).ravel()] for _, st in v]]
            return {"r": o.fam.get_resid(o.coef, o.split, o.ys, o.Xs, resid_type="viterbi_dur")}

        def goals(I, out):
            o, r = I.o, out["r"]
            want = (len(o.lens), o.n_S, 2) if post else (len(o.lens), o.n_S)
            yield Goal("shape", float(tuple(r.shape) == want), "==", 1.0)
            if not I.states[0]:
                return
            for q in range(len(I.states)):
                for s in range(len(o.lens)):
                    for j in range(o.n_S):
                        g = r[s, j, q] if post else r[s, j]
                        e = expect(o, s, I.states[q][s], j, starts)
                        if e is None:
                            yield Goal("no residual s%d state %d" % (s, j), float(not np.isfinite(float(g))), "==", 1.0)
                        else:
                            yield Goal("duration s%d state %d" % (s, j), g, "==", e)

        out.append(Case(name, run, goals, bounds=str(kw), samples=4 if not post else 1, max_paths=3000, validate=not post, **ck))

    for sw in (True, False):
        f = "%d" % sw
        dur("viterbi fixT n2 D3 T3 starts" + f, hs.free_model, dict(n_S=2, D=3, lens=[3], ends_with=True, starts=sw))
        dur("viterbi tvd n2 D3 T3 starts" + f, hs.free_model, dict(n_S=2, D=3, lens=[3], tvd=True, fixT=False, lin=True, starts=sw, ends_with=True))
        dur("viterbi n3 D2 T3 starts" + f, hs.free_model, dict(n_S=3, D=2, lens=[3], ends_in=True, starts=sw))
        dur("posterior tvd n2 D3 T3 starts" + f, hs.free_model, dict(n_S=2, D=3, lens=[3], tvd=True, starts=sw), post=True)
    dur("viterbi two series per series T", hs.free_model, dict(n_S=2, D=3, lens=[2, 2], perseries=True, ends_with=True))
    dur("posterior two series", hs.free_model, dict(n_S=2, D=3, lens=[2, 1], starts=False), post=True)
    dur("viterbi hmp n3 D4", hs.hmp_model, dict(n_S=3, D=4, lens=[6]))
    dur("viterbi hmp ar n3 D4", hs.hmp_model, dict(n_S=3, D=4, lens=[6], ar=True))
    dur("posterior hmp n3 D4", hs.hmp_model, dict(n_S=3, D=4, lens=[6]), post=True)
    return out
