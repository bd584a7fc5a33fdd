"""Replays Control cases on pre/post-processed DMDc: results that are functions
of an argument must be post-processed too, and extra fit arguments passed on."""
import copy

import numpy as np

from pydmd import DMDc
from pydmd.preprocessing import (
    PrePostProcessingDMD,
    randomized_preprocessing,
    svd_projection_preprocessing,
)
from control import mat
from vf import worker


def main(c):
    out = []
    for q, f in enumerate(c["fits"]):
        B = np.array(f["B"], dtype=float)
        U = np.array(f["u"], dtype=float).T
        V = np.array(f["v"], dtype=float).T
        X = np.array([[g[0] / 2 ** g[2] for g in x] for x in f["D"]]).T
        wraps = [PrePostProcessingDMD]
        if not f["known"]:
            wraps += [lambda d: svd_projection_preprocessing(d, -1),
                      lambda d: randomized_preprocessing(d, X.shape[0], seed=q),
                      lambda d: PrePostProcessingDMD(svd_projection_preprocessing(d, -1))]
        for w in wraps:
            def rec(kind, fn):
                o = {"kind": kind, "exc": "", "fit": q + 1}
                try:
                    o.update(fn() or {})
                except Exception as e:  # noqa
                    o["exc"] = type(e).__name__
                    o["msg"] = str(e)[:120]
                out.append(o)
            box = {}

            def first():
                d = w(DMDc(svd_rank=-1, lag=c["lag"], opt=c["opt"] == "opt"))
                box["d"] = d
                if f["known"]:
                    r = d.fit(X.copy(), U.copy(), B=B) if q else d.fit(X.copy(), U.copy(), B)
                else:
                    r = d.fit(X=X.copy(), I=U.copy()) if q else d.fit(X.copy(), U.copy())
                assert r is d
                return {"rec": mat(d.reconstructed_data())}
            rec("rec", first)
            d = box["d"]
            rec("resp", lambda: {"rec": mat(d.reconstructed_data(V))})
            rec("bad", lambda: {"rec": mat(d.reconstructed_data(V[:, :-1]))})
            rec("resp", lambda: {"rec": mat(d.reconstructed_data(control_input=V))})
            rec("rec", lambda: {"rec": mat(copy.deepcopy(d).reconstructed_data())})
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
