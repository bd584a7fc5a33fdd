"""Replays Pi cases on PiDMD."""
import copy

import numpy as np

from pydmd import PiDMD
from vf import BAD, worker

AS = 100000


def sc(z):
    def one(x):
        return BAD if not np.isfinite(x) or abs(x) > 15000 else int(round(x * AS))
    z = complex(z)
    return [one(z.real), one(z.imag)]


def mat(A):
    return [[sc(z) for z in r] for r in np.asarray(A)]


def main(c):
    man, n = c["man"], c["n"]
    opt = None
    if man == "diagonal":
        b = c["bw"]
        if b == "int":
            opt = c["k1"]
        elif b == "pair":
            opt = (c["k1"], c["k2"])
        elif b == "array":
            opt = np.array([c["fits"][0]["lo"], c["fits"][0]["up"]]).T
    elif man.startswith("BC"):
        opt = (c["b0"], c["b1"])
    out = []

    def rec(kind, q, f):
        o = {"kind": kind, "exc": "", "fit": q}
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:120]
        out.append(o)
        return not o["exc"]

    def new(ca, m=man, mo=opt):
        return PiDMD(m, manifold_opt=mo, compute_A=ca,
                     svd_rank=-1 if c["rank"] == "all" else n)

    d = new(c["ca"])
    for q, f in enumerate(c["fits"], 1):
        X = np.array([[complex(*z) for z in r] for r in f["X"]])
        Y = np.array([[complex(*z) for z in r] for r in f["Y"]])
        if not f["cx"]:
            X, Y = X.real.copy(), Y.real.copy()
        Z = np.hstack([X, Y[:, -1:]])
        Xi, Yi, Zi = X.copy(), Y.copy(), Z.copy()

        def fit():
            r = d.fit(Zi) if f["one"] else d.fit(Xi, Yi)
            assert r is d
            return {"n": int(len(d.eigs))}

        if not rec("count", q, fit):
            break
        if c["ca"]:
            rec("A", q, lambda: {"A": mat(d.A), "skip": False})

        def pred():
            m = d.modes
            bad = (not np.isfinite(m).all()) or np.linalg.cond(m) > 1e4
            P = d.predict(np.eye(n))
            return {"A": mat(P), "skip": bool(bad)}

        rec("predict", q, pred)
        rec("intact", q, lambda: {"x": bool(
            np.array_equal(Xi, X) and np.array_equal(Yi, Y) and np.array_equal(Zi, Z)
            and (not isinstance(opt, np.ndarray)
                 or np.array_equal(opt, np.array([f["lo"], f["up"]]).T)))})

    X = np.array([[complex(*z) for z in r] for r in c["fits"][0]["X"]])
    if man in ("uppertriangular", "lowertriangular", "toeplitz", "hankel") or man.startswith("BC"):
        rec("rejected", 1, lambda: new(False).fit(X, X) and None)
    if man.startswith("BC"):
        rec("rejected", 1, lambda: new(True, mo=None).fit(X, X) and None)
        rec("rejected", 1, lambda: new(True, mo=(2, 2, 2)).fit(X, X) and None)
    if not c["ca"]:
        rec("rejected", 1, lambda: d.A and None)
    rec("rejected", 1, lambda: new(True, m="nonsense").fit(X, X) and None)
    if man == "diagonal":
        rec("rejected", 1, lambda: new(True, mo=0).fit(X, X) and None)
        rec("rejected", 1, lambda: new(True, mo=(1, 0)).fit(X, X) and None)
        rec("rejected", 1, lambda: new(True, mo=np.ones((n + 1, 2))).fit(X, X) and None)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
