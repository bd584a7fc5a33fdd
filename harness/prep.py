"""Replays Prep behaviours on the pre/post-processing wrappers."""
import copy
import os
import pickle
import tempfile

import numpy as np

from pydmd import CDMD, DMD, HankelDMD
from pydmd.preprocessing.pre_post_processing import PrePostProcessing
from pydmd.preprocessing import (
    PrePostProcessingDMD,
    hankel_preprocessing,
    randomized_preprocessing,
    svd_projection_preprocessing,
    zero_mean_preprocessing,
)
from vf import fx, fxc, worker


class Norm(PrePostProcessing):
    """user-defined, with state: divides by the largest entry"""

    def pre_processing(self, X):
        m = np.abs(X).max()
        return m, X / m

    def post_processing(self, m, Y):
        return Y * m


def num(g):
    return complex(g[0], g[1]) / 2 ** g[2]


def mat(A):
    return [[fxc(z) for z in r] for r in np.atleast_2d(A)]


def wrap(d, s, T):
    rng = np.random.default_rng(T)
    k, how = s["k"], s["how"]
    if k == "mean":
        if how == "all":
            return zero_mean_preprocessing(d)
        if how == "row":
            return zero_mean_preprocessing(d, axis=1)
        w = np.zeros(T)
        w[: 1 if how == "first" else T // 2] = 1
        return zero_mean_preprocessing(d, 1, weights=w)
    if k == "svd":
        return svd_projection_preprocessing(
            d, {"all": -1, "int": 4, "np": np.int64(4)}[s["r"]])
    if k == "rand":
        if how == "":
            return randomized_preprocessing(d, 4)
        if how == "seed":
            return randomized_preprocessing(d, svd_rank=4, oversampling=1, power_iters=1, seed=3)
        return randomized_preprocessing(d, 4, power_iters=0, test_matrix=rng.standard_normal((T, 5)))
    if k == "hankel":
        q = {"first": "first", "mean": "mean",
             "list": [i + 1.0 for i in range(s["d"])],
             "array": np.arange(s["d"], 0, -1.0)}[how]
        return hankel_preprocessing(d, d=s["d"], reconstruction_method=q)
    if k == "norm":
        return PrePostProcessingDMD(d, Norm())
    return PrePostProcessingDMD(d)


def main(c):
    Xs = [np.array([[num(g) for g in r] for r in X]) for X in c.pop("X")]
    Xs = [X.real.copy() if np.abs(X.imag).max() < 1e-12 else X for X in Xs]
    lams = [[num(g) for g in l] for l in c["lams"]]
    out = []

    def rec(kind, k, f):
        o = {"kind": kind, "exc": "", "k": k}
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__ + ":" + str(e)[:120]
        out.append(o)
        return not o["exc"]

    box = {"i": 0}

    def mk():
        r = len(lams[0])
        return {"dmd": lambda: DMD(svd_rank=r, exact=True),
                "proj": lambda: DMD(svd_rank=r),
                "opt": lambda: DMD(svd_rank=r, exact=True, opt=True),
                "cdmd": lambda: CDMD(svd_rank=r, compression_matrix="normal"),
                "hank": lambda: HankelDMD(svd_rank=r, exact=True, d=2),
                "sorted": lambda: DMD(svd_rank=r, exact=True, sorted_eigs="abs")}[c["inner"]]()

    def build():
        d = mk()
        box["core"] = d
        T = c["ds"][0]["T"]
        ts = []
        for s in c["st"]:
            ts.append(T)
            if s["k"] == "hankel":
                T -= s["d"] - 1
        for s, t in list(zip(c["st"], ts))[::-1]:
            d = wrap(d, s, t)
        box["w"] = d

    def fit(i):
        X = Xs[i].copy()
        w = box["w"]
        r = w.fit(X=X) if c["call"] == "kw" else w.fit(X)
        box["i"] = i
        box["ok"] = box.get("ok", True) and np.array_equal(X, Xs[i])
        return {"self": r is w}

    def looks(k, w=None, tag=""):
        w = box["w"] if w is None else w
        rec("rec", k, lambda: {"v": mat(w.reconstructed_data)})

        def eigs():
            core = w
            while isinstance(core, PrePostProcessingDMD):
                core = core.pre_post_processed_dmd
            fwd = (np.array_equal(w.eigs, core.eigs) and np.array_equal(w.modes, core.modes)
                   and np.array_equal(w.frequency, core.frequency)
                   and np.array_equal(w.dynamics, core.dynamics)
                   and w.operator is core.operator and w.modes_activation_bitmask is not None
                   and np.array_equal(w.modes_activation_bitmask, core.modes_activation_bitmask)
                   and w.dmd_time["tend"] == core.dmd_time["tend"])
            return {"eigs": [fxc(z) for z in w.eigs], "nmod": w.modes.shape[1],
                    "namp": len(w.amplitudes), "ndyn": len(w.dynamics),
                    "fwd": "same" if fwd else "differ"}
        rec("eigs", k, eigs)
        rec("time", k, lambda: {"ts": [fx(t) for t in w.dmd_timesteps]})

    def setwin(w, op):
        a, b = op["w"]
        if op["how"] == "item":
            w.dmd_time["t0"] = a
            w.dmd_time["tend"] = b
        else:
            t = copy.copy(w.dmd_time)
            t["t0"], t["tend"] = a, b
            w.dmd_time = t

    def act(op):
        w = box["w"]
        k = op["op"]
        if k == "fit":
            return fit(op["i"] - 1)
        if k == "win":
            setwin(w, op)
        elif k == "mask":
            w.modes_activation_bitmask = np.ones(len(w.modes_activation_bitmask), dtype=bool)
            e = w.eigs
            m = np.ones(len(e), dtype=bool)
            for q in op["off"]:
                m[np.argmin(np.abs(e - lams[box["i"]][q - 1]))] = False
            w.modes_activation_bitmask = m
        elif k == "read":
            w.reconstructed_data, w.eigs, w.modes, w.snapshots
            w.reconstructed_data
        elif k in ("copy", "pickle", "save"):
            if k == "copy":
                v = copy.deepcopy(w)
            elif k == "pickle":
                v = pickle.loads(pickle.dumps(w))
            else:
                with tempfile.TemporaryDirectory() as t:
                    f = os.path.join(t, "x")
                    w.save(f)
                    with open(f, "rb") as h:
                        v = pickle.load(h)
            # what is done to the copy must not reach the original, and
            # the copy carries on from here
            old = box["w"]
            v2 = copy.deepcopy(old) if k == "copy" else v
            if k == "copy":
                v2.fit(Xs[0].copy()) if box["i"] else v2.fit(Xs[0][:, ::-1] + 3.0)
            box["w"] = v
        return {"self": True}

    if not rec("op", 0, lambda: (build(), fit(0))[1]):
        return {"c": c, "o": out}
    for k, op in enumerate(c["ops"], 1):
        old = box["w"]
        if not rec("op", k, lambda: act(op)):
            break
        looks(k)
        if op["op"] in ("copy", "pickle", "save"):
            looks(k, old)
    rec("intact", len(c["ops"]), lambda: {"x": bool(box["ok"])})
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
