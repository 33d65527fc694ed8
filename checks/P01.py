"""Link functions: inverse and derivatives."""
from engine.case import Case, Goal, eqs, F, scal

EXTS = []
ASSUMPTIONS = ["means restricted to the open domain of each link (0<mu<1 logit, mu>0 log, mu>-b shifted log)"]


def cases(tier, M):
    E = M.exp_fam
    shapes = [(2, 1), (3,)] if tier == "quick" else [(2, 1), (3,), (1, 1), (2, 3), (4, 1)]
    links = {
        "Logit": (lambda I: E.Logit(), "unit"),
        "Identity": (lambda I: E.Identity(), "real"),
        "LOG": (lambda I: E.LOG(), "pos"),
        "LOGb": (None, "posb"),
    }
    out = []
    for nm, (mk, kind) in links.items():
        for sh in shapes:
            out.append(make(E, nm, mk, kind, sh))
    return out


def make(E, nm, mk, kind, sh):
    def run(I):
        if kind == "posb":
            b = I.real("b")
            link = E.LOGb(b)
            w = I.arr("w", sh, "pos")
            mu = w - b
        else:
            link = mk(I)
            mu = I.arr("mu", sh, kind)
        eta = I.arr("eta", sh, "real")
        mu0 = mu.copy()
        eta0 = eta.copy()
        f = link.f(mu)
        fi = link.fi(eta)
        return {"mu": mu0, "eta": eta0, "f": f, "fi": fi, "fif": link.fi(f), "ffi": link.f(fi),
                "d1": link.dy1(mu), "d2": link.dy2(mu), "mu_after": mu, "eta_after": eta}

    def goals(I, o):
        g = eqs("fi(f(mu))", o["fif"], o["mu"]) + eqs("f(fi(eta))", o["ffi"], o["eta"])
        g += eqs("mu untouched", o["mu_after"], o["mu"]) + eqs("eta untouched", o["eta_after"], o["eta"])
        import numpy as np
        for i in np.ndindex(*sh):
            n = ("w" if kind == "posb" else "mu") + "".join("_%d" % j for j in i)
            g.append(Goal("dy1%s" % (i,), o["d1"][i], "==", I.D(lambda x: x["f"][i], n)))
            g.append(Goal("dy2%s" % (i,), o["d2"][i], "==", I.D(lambda x: x["d1"][i], n)))
            if kind == "unit":
                g.append(Goal("fi>0%s" % (i,), o["fi"][i], ">", 0))
                g.append(Goal("fi<1%s" % (i,), o["fi"][i], "<", 1))
            if kind == "pos":
                g.append(Goal("fi>0%s" % (i,), o["fi"][i], ">", 0))
        return g

    return Case("%s%s" % (nm, list(sh)), run, goals, bounds="arrays of shape %s, all real mean/predictor values of the link's domain%s" % (
        list(sh), ", all b" if kind == "posb" else ""))
