"""Replays Control cases on DMDc."""
import copy

import numpy as np

from pydmd import DMDc
from vf import fxc, worker


def mat(A):
    return [[fxc(z) for z in row] for row in np.asarray(A)]


def main(c):
    out = []
    d = DMDc(svd_rank={"all": -1, "full": -1, "energy": 1 - 1e-12}[c["rank"]],
             opt=c["opt"] == "opt", lag=c["lag"],
             svd_rank_omega={"all": -1, "full": 50, "energy": -1}[c["rank"]],
             tlsq_rank={"all": 0, "full": 0, "energy": 0}[c["rank"]])
    cp = None
    for q, f in enumerate(c["fits"]):
        B = np.array(f["B"], dtype=float)
        U = np.array(f["u"], dtype=float).T
        V = np.array(f["v"], dtype=float).T
        cols = [np.array([g[0] / 2 ** g[2] for g in x]) for x in f["D"]]
        X = np.array(cols).T

        def give(M, one_d=False):
            if f["form"] == "list":
                return [list(r) for r in M]
            if f["form"] == "flat" and one_d and M.shape[0] == 1:
                return M[0].copy()
            return M.copy()

        def rec(kind, fn):
            o = {"kind": kind, "exc": "", "fit": q + 1}
            try:
                o.update(fn() or {})
            except Exception as e:  # noqa
                o["exc"] = type(e).__name__
                o["msg"] = str(e)[:120]
            out.append(o)
            return o["exc"] == ""

        data = [x.copy() for x in cols] if f["form"] == "list" else X.copy()
        Ui, Bi = give(U, True), give(B)

        def fit():
            r = d.fit(data, Ui, Bi) if f["known"] else d.fit(data, Ui)
            assert r is d
            return model(d)

        def model(d):
            n = X.shape[0]
            Aest = d.modes @ np.diag(d.eigs) @ np.linalg.pinv(d.modes)
            bs = d.basis
            return {"eigs": [fxc(z) for z in d.eigs], "B": mat(d.B),
                    "A": mat(Aest),
                    "basis": bool(bs.shape == (n, n) and
                                  np.allclose(bs.conj().T @ bs, np.eye(n))),
                    "x0": [fxc(z) for z in d.modes @ d.amplitudes]}

        if not rec("model", fit):
            break
        rec("rec", lambda: {"rec": mat(d.reconstructed_data())})
        rec("resp", lambda: {"rec": mat(d.reconstructed_data(give(V, True)))})
        rec("bad", lambda: {"rec": mat(d.reconstructed_data(V[:, :-1]))})
        rec("bad", lambda: {"rec": mat(d.reconstructed_data(
            np.hstack([V, V[:, :1]])))})
        rec("rec", lambda: {"rec": mat(d.reconstructed_data())})

        def toggle():
            m = d.modes_activation_bitmask
            k = m.copy()
            k[0] = False
            d.modes_activation_bitmask = k
            d.reconstructed_data()
            d.modes_activation_bitmask = m
            return model(d)

        rec("model", toggle)
        rec("model", lambda: model(copy.deepcopy(d)))
        rec("rec", lambda: {"rec": mat(copy.deepcopy(d).reconstructed_data())})
        rec("intact", lambda: {"x": bool(
            np.array_equal(np.array(data).T if f["form"] == "list" else data, X)
            and np.array_equal(np.atleast_2d(Ui), U)
            and np.array_equal(np.array(Bi), B))})
        if q == 0 and len(c["fits"]) > 1:
            cp = copy.deepcopy(d)
    if cp is not None and len(c["fits"]) > 1:
        o = {"kind": "rec", "exc": "", "fit": 1}
        try:
            o["rec"] = mat(cp.reconstructed_data())
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
        out.append(o)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
