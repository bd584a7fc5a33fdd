"""Replays behaviours of spec/DmdLife on the real estimators and records what
a user sees (public API only)."""
import copy
import json
import os
import pickle
import sys
import tempfile

import numpy as np

from vf import fx, fxc, worker

from pydmd import (
    BOPDMD, CDMD, DMD, EDMD, FbDMD, HankelDMD, HODMD, RDMD, SpDMD,
    SubspaceDMD, VarProDMD,
)
from pydmd.dmdbase import DMDBase
from pydmd.dmd_modes_tuner import (
    ModesSelectors, ModesTuner, select_modes, stabilize_modes,
)

CONT = ("BOPDMD", "VarProDMD")


def make(c):
    opt = {"F": False, "T": True, "I": c["j"]}[c["optk"]]
    resc = {"none": None, "auto": "auto"}[c["resc"]]
    srt = {"no": False}.get(c["sort"], c["sort"])
    tik = {"none": None, "zero": 0}[c["tik"]]
    k = dict(svd_rank=c["rk"], opt=opt)
    cls = c["cls"]
    tl = c["tlsq"]
    rm = c["rm"]
    if rm == "weights":
        rm = np.arange(1.0, c["d"] + 1)
    elif rm == "wlist":
        rm = [float(i + 1) for i in range(c["d"])]
    if cls == "DMD":
        return DMD(tlsq_rank=tl, exact=c["exact"], rescale_mode=resc,
                   forward_backward=c["fb"], sorted_eigs=srt,
                   tikhonov_regularization=tik, **k)
    if cls == "FbDMD":
        return FbDMD(tlsq_rank=tl, exact=c["exact"], rescale_mode=resc,
                     sorted_eigs=srt, **k)
    if cls == "CDMD":
        return CDMD(tlsq_rank=tl, rescale_mode=resc, forward_backward=c["fb"],
                    sorted_eigs=srt, tikhonov_regularization=tik,
                    compression_matrix="normal", **k)
    if cls == "RDMD":
        return RDMD(tlsq_rank=tl, rescale_mode=resc, forward_backward=c["fb"],
                    sorted_eigs=srt, tikhonov_regularization=tik, seed=3, **k)
    if cls == "SubspaceDMD":
        return SubspaceDMD(rescale_mode=resc, sorted_eigs=srt, **k)
    if cls == "SpDMD":
        return SpDMD(tlsq_rank=tl, exact=c["exact"], rescale_mode=resc,
                     forward_backward=c["fb"], sorted_eigs=srt, gamma=1e-6,
                     abs_tolerance=1e-9, rel_tolerance=1e-9,
                     max_iterations=5000, verbose=False, **k)
    if cls == "EDMD":
        return EDMD(**k)
    if cls == "HankelDMD":
        return HankelDMD(tlsq_rank=tl, exact=c["exact"], rescale_mode=resc,
                         forward_backward=c["fb"], sorted_eigs=srt,
                         tikhonov_regularization=tik, d=c["d"],
                         reconstruction_method=rm, **k)
    if cls == "HODMD":
        return HODMD(tlsq_rank=tl, exact=c["exact"], rescale_mode=resc,
                     forward_backward=c["fb"], sorted_eigs=srt, d=c["d"],
                     reconstruction_method=rm, svd_rank_extra=-1, **k)
    if cls == "BOPDMD":
        return BOPDMD(svd_rank=c["rk"], varpro_opts_dict={"tol": 1e-12, "maxiter": 60})
    if cls == "VarProDMD":
        return VarProDMD(svd_rank=c["rk"], exact=c["exact"])
    raise KeyError(cls)


def matrix(rows):
    A = np.array([[complex(g[0], g[1]) / 2.0 ** g[2] for g in r] for r in rows])
    return A.real.copy() if not A.imag.any() else A


def as_form(X, form):
    if form == "list":
        return [X[:, i].copy() for i in range(X.shape[1])]
    if form == "tuple":
        return tuple(X[:, i].copy() for i in range(X.shape[1]))
    if form == "lcube":
        return [X[:, i].reshape(-1, 2).copy() for i in range(X.shape[1])]
    if form == "cube":
        return X.reshape(X.shape[0] // 2, 2, X.shape[1]).copy()
    if form == "fcube":
        return np.asfortranarray(X.reshape(X.shape[0] // 2, 2, X.shape[1]))
    if form == "tcube":  # a view with time first, as stored on disk
        Z = np.ascontiguousarray(
            np.moveaxis(X.reshape(X.shape[0] // 2, 2, X.shape[1]), -1, 0))
        return np.moveaxis(Z, 0, -1)
    if form == "lfcube":
        return [np.asfortranarray(X[:, i].reshape(-1, 2))
                for i in range(X.shape[1])]
    if form == "fortran":
        return np.asfortranarray(X)
    if form == "strided":
        big = np.full((2 * X.shape[0] + 1, 3 * X.shape[1]), 77.0, dtype=X.dtype)
        big[1::2, ::3] = X
        return big[1::2, ::3]
    if form == "readonly":
        Z = X.copy()
        Z.setflags(write=False)
        return Z
    if form == "int":
        return np.rint(X).astype(int)
    return X.copy()


def snap(v):
    return np.array(v, copy=True)


def plot(d, w):
    """Draw, without rendering.  What the plot shows, and whether it can be
    drawn at all, is not judged here; only that drawing changes nothing."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    from pydmd import plotter

    Figure.tight_layout = Figure.savefig = lambda *a, **k: None
    plt.show = lambda *a, **k: None
    n = len(d.snapshots)
    shape = (2, n // 2) if n % 2 == 0 else (1, n)
    try:
        if w == "plot_eigs":
            plotter.plot_eigs(d)
        elif w == "plot_summary":
            plotter.plot_summary(d, d=getattr(d, "_d", 1))
        elif w == "plot_modes":
            plotter.plot_modes_2D(d, snapshots_shape=shape, index_mode=[0])
        elif w == "plot_snapshots":
            plotter.plot_snapshots_2D(d, snapshots_shape=shape, index_snap=[0])
    except Exception:
        pass
    plt.close("all")


class Run:
    def __init__(self, case, data):
        self.cfg, self.data = case["cfg"], data
        self.o = {1: make(self.cfg)}
        self.ds = {}

    def put(self, a, n):
        self.o[a["d"]] = n
        if a["o"] in self.ds:
            self.ds[a["d"]] = self.ds[a["o"]]

    # ------------------------------------------------ observation
    def observe(self, h, peek):
        c = self.cfg
        r = {"h": h, "f": False, "exc": "", "mask": [], "eigs": [], "con": [],
             "ts": [], "td": [], "ots": [], "frq": [], "rec": []}
        try:
            d = copy.deepcopy(self.o[h]) if peek else self.o[h]
            r["f"] = bool(d.fitted)
            if not r["f"]:
                return r
            r["mask"] = [bool(x) for x in d.modes_activation_bitmask]
            eig = np.asarray(d.eigs)
            if c["cls"] in CONT:
                eig = np.exp(eig)
            r["eigs"] = [fxc(z) for z in eig]
            if c["cls"] != "HODMD":
                con = np.asarray(d.modes) * np.asarray(d.amplitudes)[None]
                r["con"] = [[fxc(z) for z in con[:, k]] for k in range(con.shape[1])]
            r["ts"] = [fx(x) for x in np.asarray(d.dmd_timesteps)]
            r["ots"] = [fx(x) for x in np.asarray(d.original_timesteps)]
            r["frq"] = [fx(x) for x in np.asarray(d.frequency)]
            r["rec"] = [[fxc(z) for z in row] for row in np.asarray(d.reconstructed_data)]
            r["td"] = [fx(d.dmd_time[q]) for q in ("t0", "tend", "dt")]
        except Exception as e:  # noqa
            r["exc"] = type(e).__name__ + ":" + str(e)[:80]
        return r

    # ------------------------------------------------ actions
    def crit(self, a):
        lo = 0.0 if a["lo"] == -99 else 2.0 ** (a["lo"] / 2)
        hi = np.inf if a["hi"] == 99 else 2.0 ** (a["hi"] / 2)
        w = (a["lo"] + a["hi"] + a["d"]) % 3
        if w == 0:
            return lo, hi, ModesSelectors.threshold(lo, hi), (
                "module_threshold", dict(low_threshold=lo, up_threshold=hi))
        if w == 1:
            kw = dict(
                max_distance_from_unity_inside=None if lo == 0 else 1 - lo,
                max_distance_from_unity_outside=None if hi == np.inf else hi - 1)
            return lo, hi, ModesSelectors.stable_modes(**kw), ("stable_modes", kw)

        def f(d):
            m = np.abs(d.eigs)
            return np.logical_and(m > lo, m < hi)
        return lo, hi, f, (f, {})

    def sub(self, d, ret, f):
        t = ModesTuner([copy.deepcopy(d), d])
        f(t.subset([0]))
        n, other = t.get()
        ret["oth"] = [bool(x) for x in other.modes_activation_bitmask]
        return n

    def act(self, a, ret):
        k, h = a["k"], a["o"]
        c = self.cfg
        if k == "new":
            self.o[h] = make(c)
            return
        d = self.o.get(h)
        if k == "fit":
            np.random.seed(7)
            X = matrix(self.data[str(a["ds"])])
            Z = as_form(X, c["form"])
            if c["cls"] in CONT:
                t = np.arange(X.shape[1], dtype=float)
                t0 = t.copy()
                out = d.fit(Z, t)
                ret["mut"] = not np.array_equal(t, t0)
            elif a["y"]:
                A = as_form(X[:, :-1], c["form"])
                B = as_form(X[:, 1:], c["form"])
                A0, B0 = copy.deepcopy(A), copy.deepcopy(B)
                out = d.fit(A, B)
                ret["mut"] = not (np.array_equal(A, A0) and np.array_equal(B, B0))
            else:
                Z0 = copy.deepcopy(Z)
                out = d.fit(Z)
                ret["mut"] = not np.array_equal(np.asarray(Z), np.asarray(Z0))
            self.ds[h] = a["ds"]
            ret["self"] = out is d
            ret["shape"] = [int(x) for x in d.snapshots_shape]
            ret["sn"] = [[fxc(z) for z in row] for row in np.asarray(d.snapshots)]
            sy = d.snapshots_y
            ret["sny"] = [] if sy is None else [
                [fxc(z) for z in row] for row in np.asarray(sy)]
            eig = np.asarray(copy.deepcopy(d).eigs)
            if c["cls"] in CONT:
                eig = np.exp(eig)
            ret["ord"] = [fxc(z) for z in eig]
        elif k == "mask":
            m = np.array(a["m"], dtype=bool)
            d.modes_activation_bitmask = m
            m[:] = ~m  # the caller's array is not retained
        elif k == "item":
            key, kf = [i - 1 for i in a["key"]], a["kf"]
            r = len(d.modes_activation_bitmask)
            if kf == "int":
                kk = key[0]
            elif kf == "neg":
                kk = key[0] - r
            elif kf == "slice":
                kk = slice(key[0], key[-1] + 1)
            elif kf == "array":
                kk = np.array(key)
            else:
                kk = key
            self.put(a, d[kk])
        elif k == "copy":
            if a["how"] == "deepcopy":
                n = copy.deepcopy(d)
            elif a["how"] == "pickle":
                n = pickle.loads(pickle.dumps(d))
            else:
                with tempfile.TemporaryDirectory() as td:
                    fn = os.path.join(td, "x.dmd")
                    d.save(fn)
                    n = type(d).load(fn)
            self.put(a, n)
        elif k in ("time", "clock"):
            ot = d.original_time
            if k == "clock":
                t0, dt = a["t0"][0] / a["t0"][1], a["dt"][0] / a["dt"][1]
                if a["t0"][1] == 1 and a["dt"][1] == 1:
                    t0, dt = a["t0"][0], a["dt"][0]
                T = d.snapshots.shape[-1]
                tend = t0 + dt * (T - 1)
                for tt in (d.original_time, d.dmd_time):
                    tt["t0"], tt["dt"], tt["tend"] = t0, dt, tend
            else:
                ints = all(float(ot[q]).is_integer() for q in ("t0", "dt")) and not (
                    a["h0"] % 2 or a["h1"] % 2 or a["hs"] % 2)
                if ints:
                    f = lambda x: int(ot["t0"]) + int(ot["dt"]) * (x // 2)
                    g = int(ot["dt"]) * (a["hs"] // 2)
                else:
                    f = lambda x: ot["t0"] + ot["dt"] * x / 2
                    g = ot["dt"] * a["hs"] / 2
                new = {"t0": f(a["h0"]), "tend": f(a["h1"]), "dt": g}
                if a["how"] == "other":
                    d.dmd_time = self.o[a["src"]].dmd_time
                elif a["how"] == "assign":
                    d.dmd_time = new
                else:
                    for q in ("tend", "dt", "t0"):
                        d.dmd_time[q] = new[q]
        elif k == "stab":
            lo, hi, _, _ = self.crit(a)
            how = a["how"]
            if how in ("inplace", "copy"):
                n, cut = stabilize_modes(d, lo, hi, in_place=how == "inplace",
                                         return_indexes=True)
                ret["cut"] = [int(x) for x in cut]
            elif how == "tunersub":
                n = self.sub(d, ret, lambda t: t.stabilize(lo, hi))
            else:
                t = ModesTuner(d, in_place=how == "tunerin").stabilize(lo, hi)
                n = t.copy() if how == "tunercopy" else t.get()
            self.put(a, n)
        elif k == "sel":
            lo, hi, f, (nm, kw) = self.crit(a)
            how = a["how"]
            if how in ("inplace", "copy"):
                n, cut = select_modes(d, f, in_place=how == "inplace",
                                      return_indexes=True,
                                      nullify_amplitudes=a["nul"])
                ret["cut"] = [int(x) for x in cut]
            elif how == "tunersub":
                n = self.sub(d, ret, lambda t: t.select(
                    nm, nullify_amplitudes=a["nul"], **kw))
            else:
                t = ModesTuner(d, in_place=how == "tunerin").select(
                    nm, nullify_amplitudes=a["nul"], **kw)
                n = t.copy() if how == "tunercopy" else t.get()
            self.put(a, n)
        elif k == "isel":
            how, kw = a["how"], dict(n=a["n"])
            e = copy.deepcopy(d)
            M, b = np.asarray(e.modes), np.asarray(e.amplitudes)
            ret["nb"] = [[fx(np.linalg.norm(M[:, q]) ** 2, 1000), fx(abs(b[q]), 1000)]
                         for q in range(len(b))]
            before = np.array(e.modes_activation_bitmask)
            if how in ("inplace", "copy"):
                n, cut = select_modes(
                    d, ModesSelectors.integral_contribution(a["n"]),
                    in_place=how == "inplace", return_indexes=True,
                    nullify_amplitudes=a["nul"])
                a["cut"] = [int(x) for x in cut]
            else:
                f = lambda t: t.select("integral_contribution",
                                       nullify_amplitudes=a["nul"], **kw)
                if how == "tunersub":
                    n = self.sub(d, ret, f)
                else:
                    t = f(ModesTuner(d, in_place=how == "tunerin"))
                    n = t.copy() if how == "tunercopy" else t.get()
                if a["nul"]:
                    gone = np.abs(np.asarray(copy.deepcopy(n).amplitudes)) < 1e-12
                else:
                    gone = ~np.array(n.modes_activation_bitmask)[before]
                a["cut"] = [int(x) for x in np.where(gone)[0]]
            self.put(a, n)
        elif k == "pred":
            X = matrix(self.data[str(self.ds[h])])
            if a["mx"]:
                ret["pred"] = [fxc(z) for z in d.predict(X)[:, a["t"]]]
            else:
                ret["pred"] = [fxc(z) for z in d.predict(X[:, a["t"]].copy())]
        elif k == "read":
            for w in a["what"]:
                if w.startswith("plot"):
                    plot(d, w)
                else:
                    getattr(d, w)
        elif k == "bad":
            self.bad(d, a["what"])

    def bad(self, d, w):
        if w == "unfit_mask":
            d.modes_activation_bitmask = np.array([True])
        elif w == "unfit_time":
            d.dmd_time
        elif w == "time_key":
            d.dmd_time["foo"] = 3
        elif w == "mask_len":
            r = len(d.modes_activation_bitmask)
            d.modes_activation_bitmask = np.ones(r + 1, dtype=bool)
        elif w == "mask_dtype":
            r = len(d.modes_activation_bitmask)
            d.modes_activation_bitmask = np.ones(r, dtype=int)
        elif w == "mask_inplace":
            d.modes_activation_bitmask[0] = False
        elif w == "item_repeat":
            d[[0, 0]]
        elif w == "item_type":
            d["a"]
        elif w == "item_range":
            d[len(d.modes_activation_bitmask) + 3]
        else:
            n = copy.deepcopy(d)
            X = np.arange(5.0) if w == "fit_1d" else np.arange(4.0).reshape(4, 1)
            if self.cfg["cls"] in CONT:
                n.fit(X, np.arange(float(X.shape[-1])))
            else:
                n.fit(X)

    def step(self, i, a):
        ret = {"exc": "", "ord": [], "self": True, "cut": [], "mut": False,
               "pred": [], "sn": [], "sny": [], "shape": [], "oth": [], "nb": []}
        try:
            self.act(a, ret)
        except Exception as e:  # noqa
            ret["exc"] = type(e).__name__
            ret["msg"] = str(e)[:120]
        obs = []
        look = a["look"]
        if look != "none" and not (ret["exc"] and a["k"] != "bad"):
            hs = sorted(self.o) if look != "last" else [a.get("d", a["o"])]
            obs = [self.observe(h, look == "peek") for h in hs]
        return {"a": a, "ret": ret, "obs": obs}


def main(case):
    r = Run(case, case["data"])
    acts = case["acts"]
    steps = []
    for i, a in enumerate(acts):
        a = dict(a)
        if i == len(acts) - 1:
            a = dict(a, look="all")
        s = r.step(i, a)
        steps.append(s)
        if s["ret"]["exc"] and a["k"] != "bad":
            break
    return {"cfg": case["cfg"], "steps": steps}


if __name__ == "__main__":
    worker(main)
