"""Replays BestFit cases on the SVD-based estimators."""
import numpy as np

from pydmd import CDMD, DMD, HankelDMD, OptDMD, RDMD, SpDMD
from vf import BAD, worker

PS = MS = 10000
WS = 3000


def sc(z, s):
    def one(x):
        return BAD if not np.isfinite(x) or abs(x) * s > 1e9 else int(round(x * s))
    z = complex(z)
    return [one(z.real), one(z.imag)]


def atoms(Phi, lam, T):
    """W_i(x,t) = phi_i(x) lam_i^t, flattened, one per column."""
    return np.array([np.outer(Phi[:, i], lam[i] ** np.arange(T)).ravel()
                     for i in range(len(lam))]).T


def residual(E, W, zero):
    """Fixed point image of the residual and of the normalised atoms."""
    nz = np.abs(W).max(axis=0)
    kept = [i for i in range(W.shape[1]) if not zero[i]]
    bad = (not np.isfinite(W).all() or not np.isfinite(E).all() or (nz < 1e-9).any()
           or nz.max() > 1e4
           or (kept and np.linalg.cond(W[:, kept] / nz[kept]) > 1e3))
    o = {"skip": bool(bad), "E": [], "W": [], "zero": [bool(z) for z in zero]}
    if not bad:
        # unit of E: the largest data entry, at most 5 per entry of the sum
        e = E.ravel()
        e = e / max(1.0, np.abs(e).max() / 3)
        o["E"] = [sc(z, WS) for z in e]
        o["W"] = [[sc(z, WS) for z in W[:, i] / nz[i]] for i in range(W.shape[1])]
    return o


def main(c):
    n, m = c["n"], c["m"]
    X = np.array([[complex(*z) for z in r] for r in c["X"]])
    Y = np.array([[complex(*z) for z in r] for r in c["Y"]])
    if not c["cx"]:
        X, Y = X.real.copy(), Y.real.copy()
    Z = np.hstack([X, Y[:, -1:]])
    opt = {"F": False, "T": True, "J": int(c["j"])}[c["opt"]]
    kap = None if c["kap"] == 0 else float(c["kap"])
    srt = False if c["sort"] == "no" else c["sort"]
    r = -1 if c["all"] else c["r"]
    out = []

    def rec(who, kind, f):
        o = {"kind": kind, "exc": "", "who": who}
        try:
            o.update(f())
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:120]
        out.append(o)
        return not o["exc"]

    def resc():
        if c["resc"] == "array":
            return np.array([1.0, 4.0, 0.5, 3.0, 2.0, 9.0, 0.25, 5.0])[:min(c["r"], len(c["s"]))]
        return "auto" if c["resc"] == "auto" else None

    def common(exact, **kw):
        return dict(svd_rank=r, tlsq_rank=c["tlsq"], opt=opt, sorted_eigs=srt,
                    tikhonov_regularization=kap, exact=exact,
                    rescale_mode=resc(), **kw)

    def look(who, d, exact, Xin, Yin):
        X0, Y0 = Xin.copy(), None if Yin is None else Yin.copy()

        def fit():
            res = d.fit(Xin) if Yin is None else d.fit(Xin, Yin)
            assert res is d
            return {"n": int(len(d.eigs))}

        if not rec(who, "count", fit):
            return
        Phi, lam = np.array(d.modes), np.array(d.eigs)
        nrm = np.abs(Phi).max(axis=0)
        ill = bool((not np.isfinite(Phi).all()) or (nrm < 1e-7).any() or np.linalg.cond(Phi / np.where(nrm > 0, nrm, 1)) > 1e3)
        rec(who, "trace", lambda: {"g": [sc(z, MS) for z in lam], "skip": False})
        if not exact:
            def opr():
                # what the one-step prediction does to any vector
                if hasattr(d, "predict"):
                    P = np.asarray(d.predict(np.eye(n)))
                else:
                    P = Phi @ np.diag(lam) @ np.linalg.pinv(Phi)
                return {"P": [[sc(z, PS) for z in row] for row in P], "skip": ill}
            rec(who, "operator", opr)
        else:
            for i in range(len(lam)):
                def mode(i=i):
                    bad = nrm[i] < 1e-7 or abs(lam[i]) > 20
                    return {"f": [sc(z, MS) for z in Phi[:, i] / (1 if bad else nrm[i])],
                            "g": sc(lam[i], MS), "skip": bool(bad or ill)}
                rec(who, "mode", mode)
        if not (c["opt"] == "T" and not exact and Yin is None):
            def ampl():
                b = np.array(d.amplitudes)
                if c["opt"] == "T":
                    W = atoms(Phi, lam, Xin.shape[1])
                    E = Xin.ravel() - W @ b
                else:
                    W = Phi
                    E = Xin[:, opt if c["opt"] == "J" else 0] - W @ b
                return residual(E, W, [False] * len(lam))
            rec(who, "ampl", ampl)
        rec(who, "intact", lambda: {"x": bool(np.array_equal(X0, Xin) and (Yin is None or np.array_equal(Y0, Yin)))})

    for exact in (True, False):
        tag = "exact" if exact else "proj"
        if c["one"]:
            look("DMD1-" + tag, DMD(**common(exact)), exact, Z.copy(), None)
            look("Hankel-" + tag, HankelDMD(d=1, **{k: v for k, v in common(exact).items() if k != "tikhonov_regularization"}), exact, Z.copy(), None) if kap is None else None
        else:
            look("DMD-" + tag, DMD(**common(exact)), exact, X.copy(), Y.copy())
    if c["one"]:
        kw = {k: v for k, v in common(True).items() if k != "exact"}
        # the default oversampling keeps the whole (small) space
        look("RDMD", RDMD(seed=1, **kw), True, Z.copy(), None)
        look("CDMD", CDMD(compression_matrix=np.eye(n), **kw), True, Z.copy(), None)
        if kap is None:
            for gam, what in ((0.0, "all"), (1e9, "none"), (0.3, "some"), (2.0, "some")):
                def sparse():
                    d = SpDMD(svd_rank=r, tlsq_rank=c["tlsq"], exact=True, opt=opt, sorted_eigs=srt, rescale_mode=resc(),
                              gamma=gam, rho=1.0 if what != "some" else 10.0, verbose=False,
                              max_iterations=300).fit(Z.copy())
                    b, lam, Phi = np.array(d.amplitudes), np.array(d.eigs), np.array(d.modes)
                    zero = b == 0
                    W = atoms(Phi, lam, m + 1)
                    o = residual(Z.ravel() - W @ b, W, zero)
                    dyn = np.array(d.dynamics)
                    o.update({"what": what, "nz": int(zero.sum()),
                              "pattern": bool((dyn[zero] == 0).all() and (np.abs(dyn[~zero]).max(axis=1) > 0).all() if zero.any() else True)})
                    return o
                rec("SpDMD", "sparse", sparse)
    for fac in ("svd", "evd"):
        for full in (True, False):
            def optdmd():
                d = OptDMD(factorization=fac, svd_rank=-1 if full else c["r"], tlsq_rank=c["tlsq"])
                res = d.fit(Z.copy()) if c["one"] else d.fit(X.copy(), Y.copy())
                assert res is d
                skip = False
                if fac == "evd":
                    # without a basis of eigenvectors there is no such form
                    Ar = d.operator.as_numpy_array
                    skip = bool(np.linalg.cond(np.linalg.eig(Ar)[1]) > 1e3 or np.linalg.cond(Ar) > 1e4
                                or np.abs(np.linalg.eigvals(Ar)).min() < 1e-6)
                P = np.asarray(d.predict(np.eye(n)))
                return {"P": [[sc(z, PS) for z in row] for row in P], "skip": skip, "full": full}
            rec("OptDMD-" + fac, "optdmd", optdmd)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
