"""Replays MrCosts cases on pydmd.mrcosts.mrCOSTS."""
import contextlib
import copy
import glob
import io
import os
import shutil
import tempfile

import numpy as np

from pydmd.costs import COSTS
from pydmd.mrcosts import mrCOSTS
from costs import data, m2, m3
from vf import fx, worker


def name(x):
    return None if x == "none" else x


def kwargs(c):
    kw = {"varpro_opts_dict": {"maxiter": 4, "tol": 1e-6}}
    if c["con"] != "none":
        kw["eig_constraints"] = {c["con"]}
    return kw


def sane(A, top=300):
    A = np.asarray(A)
    return bool(np.isfinite(A).all() and np.abs(A).max(initial=0) < top)


def main(c):
    out = []
    np.random.seed(c["ds"][0]["T"])
    L = len(c["w"])

    def rec(kind, f, **kw):
        o = dict({"kind": kind, "exc": "", "skip": False}, **kw)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:120]
        out.append(o)
        return not o["exc"]

    def flag(what, f):
        rec("flag", lambda: {"x": bool(f())}, what=what)

    def rej(what, f):
        rec("rejected", lambda: f() and None, what=what)

    ds = [(d,) + data(d) for d in c["ds"]]
    user = kwargs(c)
    keep = copy.deepcopy(user)
    nuser = list(c["nc"])

    def mk(kw=None, nc=None):
        nc = nc or (None if c["sweep"] else list(c["nc"]))
        return mrCOSTS(window_length_array=list(c["w"]), step_size_array=list(c["s"]), svd_rank_array=list(c["r"]),
                       global_svd_array=list(c["gl"]), pydmd_kwargs=kwargs(c) if kw is None else kw,
                       n_components_array=nc, cluster_sweep=c["sweep"] and nc is None, transform_method=name(c["tm"]))

    def chain(i, nc=None, eps=0.0):
        """every level on its own; None when the record does not admit it"""
        d, D, t = ds[i]
        if eps:
            D = D * (1 + eps * np.random.standard_normal(D.shape))
        res = []
        x = D
        try:
            for q in range(L):
                m = COSTS(svd_rank=c["r"][q], global_svd=c["gl"][q], pydmd_kwargs=kwargs(c))
                with contextlib.redirect_stdout(io.StringIO()):
                    m.fit(x, t, c["w"][q], c["s"][q])
                im = np.abs(m.omega_array.imag)
                if not sane(im, 40) or im.max() < 1e-3 or len(np.unique(np.round(im, 4))) <= (2 if c["sweep"] and not nc else (nc or c["nc"])[q]):
                    return None
                k = nc[q] if nc else (m.cluster_hyperparameter_sweep(transform_method=name(c["tm"])) if c["sweep"] else c["nc"][q])
                m.cluster_omega(n_components=k, transform_method=name(c["tm"]))
                if not sane(m.scale_reconstruction()):
                    return None
                res.append(m)
                x = m.scale_separation()[0]
        except Exception:  # noqa
            return None
        return res

    def total(m):
        """order-free contents of the windows of a level"""
        rows = []
        for k in range(m.n_slides):
            e = m.omega_array[k]
            M = m.modes_array[k] * m.amplitudes_array[k]
            s = M @ np.exp(np.outer(e, m.time_array[k] - m.time_array[k, 0]))
            rows.append(np.concatenate([np.sort(np.abs(e.imag)), s.real.ravel()]))
        return np.array(rows)

    def levels(m, i):
        d, D, t = ds[i]

        def f():
            lv, lo = [], []
            for q, k in enumerate(m.costs_array):
                st = [k.get_window_indices(x).indices(d["T"])[0] for x in range(k.n_slides)]
                lv.append({"w": int(k.window_length), "s": int(k.step_size), "ns": int(k.n_slides), "st": st,
                           "t0": [fx(z, 1000) for z in k.time_array[:, 0]], "means": m2(k.window_means_array, 100)})
                lo.append(m2(k.scale_reconstruction()[0], 100))
            return {"lv": lv, "lo": lo}
        rec("levels", f, i=i + 1)
        flag("ragged", lambda: m.n_decompositions == L
             and all(np.array_equal(a, b.omega_array) for a, b in zip(m.ragged_omega_array, m.costs_array))
             and all(np.array_equal(a, b.modes_array) for a, b in zip(m.ragged_modes_array, m.costs_array))
             and all(np.array_equal(a, b.amplitudes_array) for a, b in zip(m.ragged_amplitudes_array, m.costs_array)))
        rej("bands-before-clustering", lambda: m.ragged_omega_classes)
        rej("centroids-before-clustering", lambda: m.cluster_centroids)

    def same(m, ref, per):
        def f():
            if per is None:
                return {"skip": True, "a": [], "b": []}
            A = [total(x) for x in ref]
            B = [total(x) for x in per]
            if not all(a.shape == b.shape and np.abs(a - b).max() < 1e-6 and sane(a, 1e4) for a, b in zip(A, B)) or \
                    any((x.omega_classes != y.omega_classes).any() for x, y in zip(ref, per)):
                return {"skip": True, "a": [], "b": []}
            return {"a": [[fx(z) for z in r] for a in A for r in a],
                    "b": [[fx(z) for z in r] for x in m.costs_array for r in total(x)]}
        rec("same", f, what="level-fit")

    def can(m):
        """every coarser level has high frequencies in at least two windows,
        and some window of the first level lies between their centres"""
        tm = [k.time_array.mean(axis=1) for k in m.costs_array]
        for x, k in list(zip(tm, m.costs_array))[1:]:
            h = x[(k.omega_classes > 0).any(axis=1)]
            if len(h) < 2 or not ((tm[0] > h[0] + 1e-9) & (tm[0] < h[-1] - 1e-9)).any():
                return False
        x = np.concatenate([np.abs(k.omega_array.imag[k.omega_classes > 0]) for k in m.costs_array])
        return len(np.unique(np.round(x, 3))) >= 4 and sane(x, 40)

    def bands(m, i, ng, tg):
        d, D, t = ds[i]
        eff = c["tm"] if tg == "none" else tg

        def cl():
            x, im, loc, cls = [], [], [], []
            rc = m.ragged_omega_classes
            for k, cc in zip(m.costs_array, rc):
                if cc.shape != k.omega_array.shape:
                    return {"nc": ng, "tm": eff, "cen": [], "x": [1], "im": [], "loc": [], "cls": []}
                hi = k.omega_classes > 0
                v = np.abs(k.omega_array.imag)
                z = np.asarray(m.transform_omega(k.omega_array, transform_method=name(eff)))
                x += [fx(a, 1000) for a in z.ravel()]
                im += [fx(a, 1000) for a in k.omega_array.imag.ravel()]
                loc += [int(a) for a in k.omega_classes.ravel()]
                cls += [int(a) for a in cc.ravel()]
            return {"nc": ng, "tm": eff, "x": x, "im": im, "loc": loc, "cls": cls, "cen": [fx(a, 1000) for a in m.cluster_centroids]}
        rec("classes", cl)

        def cons():
            X = m.global_scale_reconstruction()
            H = [k.scale_reconstruction()[1:].sum(axis=0) for k in m.costs_array]
            lo = [k.scale_reconstruction()[0] for k in m.costs_array]
            if not all(sane(h, 5e3) for h in H) or not all(sane(h, 5e3) for h in lo):
                return {"skip": True}
            return {"H": m3(H, 100), "S": m3(X.sum(axis=1), 100), "lo": m3(lo, 100), "bg": m2(m.get_background(), 100),
                    "G": m2(m.global_reconstruction(), 100)}
        rec("conserve", cons)

        for q in range(L):
            def f(q=q):
                k = m.costs_array[q]
                cc = m.ragged_omega_classes[q]
                w, T = c["w"][q], d["T"]
                st = list(range(0, T - w + 1, c["s"][q]))
                if st[-1] != T - w:
                    st.append(T - w)
                tt = 0.5 * d["dt"] * np.arange(w)
                V = np.empty((len(st), ng, d["n"], w))
                for a in range(len(st)):
                    for j in range(ng):
                        z = cc[a] == j
                        V[a, j] = ((k.modes_array[a][:, z] * k.amplitudes_array[a][z]) @ np.exp(np.outer(k.omega_array[a][z], tt))).real
                if not sane(V):
                    return {"skip": True, "R": [], "V": [], "g": [], "nc": ng}
                ker = k.build_kern(w)
                g = []
                for x in range(T):
                    v = np.array([ker[x - b] for b in st if b <= x < b + w])
                    g.append([int(round(z)) for z in 1000 * v / v.max()])
                return {"R": m3(m.global_scale_reconstruction()[q], 100), "V": [m3(B, 100) for B in V], "g": g, "nc": ng}
            rec("band", f, i=i + 1, l=q + 1)

    def cluster(m, i, ng, tg):
        if not can(m):
            return False
        if not rec("call", lambda: m.global_cluster_omega(ng, transform_method=name(tg)) and None):
            return False
        flag("global-number", lambda: m.n_components_global == ng)
        bands(m, i, ng, tg)
        return True

    rej("lengths", lambda: mrCOSTS(window_length_array=c["w"], step_size_array=c["s"], svd_rank_array=c["r"],
                                   n_components_array=c["nc"] + [2]))
    rej("sweep-and-number", lambda: mrCOSTS(window_length_array=list(c["w"]), step_size_array=list(c["s"]), svd_rank_array=list(c["r"]),
                                            n_components_array=list(c["nc"]), cluster_sweep=True).fit(ds[0][1], ds[0][2], verbose=False))
    rej("file", lambda: mrCOSTS().from_netcdf(["/nonexistent/a.nc"]))
    m = mk(user, nuser if not c["sweep"] else None)
    rej("unfitted", lambda: m.ragged_omega_array)
    rej("no-number", lambda: m.global_cluster_omega())
    d, D, t = ds[0]
    ref = chain(0)
    if ref is None:
        return {"c": c, "o": out}
    per = chain(0, eps=1e-9)
    D0 = D.copy()
    if not rec("fit", lambda: m.fit(D, t if c["rev"] else t[0], verbose=c["rev"])):
        return {"c": c, "o": out}
    flag("inputs", lambda: np.array_equal(D, D0) and set(user) == set(keep) and all(user[k] == keep[k] for k in keep) and nuser == c["nc"])
    levels(m, 0)
    same(m, ref, per)
    flag("components", lambda: [int(x) for x in m.n_components_array] == [k.n_components for k in m.costs_array]
         and (c["sweep"] or [k.n_components for k in m.costs_array] == c["nc"]))
    if cluster(m, 0, c["ng"], c["tg"]):
        cen = m.cluster_centroids.copy()
        tmp = tempfile.mkdtemp(prefix="mrcosts_")
        try:
            got = {}

            def load():
                m.to_netcdf("fit", tmp)
                fs = sorted(glob.glob(os.path.join(tmp, "*.nc")), reverse=c["rev"])
                got["n"] = len(fs)
                l = mrCOSTS()
                l.from_netcdf(fs)
                got["m"] = l
            if rec("call", load):
                l = got["m"]
                flag("files", lambda: got["n"] == L)
                flag("loaded", lambda: all(np.array_equal(a, b) for a, b in zip(l.ragged_omega_array, m.ragged_omega_array))
                     and all(np.array_equal(a, b) for a, b in zip(l.ragged_modes_array, m.ragged_modes_array))
                     and all(np.array_equal(a.omega_classes, b.omega_classes) for a, b in zip(l.costs_array, m.costs_array))
                     and list(l.window_length_array) == c["w"] and list(l.step_size_array) == c["s"]
                     and [int(x) for x in l.n_components_array] == [int(x) for x in m.n_components_array])
                levels(l, 0)
                if cluster(l, 0, c["ng"], c["tg"]):
                    rec("same", lambda: {"a": [[fx(z) for z in l.cluster_centroids]], "b": [[fx(z) for z in cen]]}, what="loaded-bands")
                    # a loaded fit can be fitted again
                    if rec("call", lambda: l.fit(D, t, verbose=False)) and not c["sweep"]:
                        levels(l, 0)
                        same(l, ref, per)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
        cluster(m, 0, c["ng2"], "none")
        rg = np.array([2, 3])
        if can(m):
            got = {}

            def sweep():
                got["s"] = m.global_cluster_hyperparameter_sweep(rg, verbose=False, transform_method=name(c["tg"]))
            if rec("call", sweep):
                flag("sweep", lambda: got["s"][1] in rg and len(got["s"][0]) == 2 and m.n_components_global == got["s"][1]
                     and got["s"][1] == rg[np.argmax(got["s"][0])])
                if rec("call", lambda: m.global_cluster_omega(transform_method=name(c["tg"])) and None):
                    bands(m, 0, int(got["s"][1]), c["tg"])
    # fitted again
    ref = chain(1)
    if ref is not None:
        per = chain(1, eps=1e-9)
        if rec("fit", lambda: m.fit(ds[1][1], ds[1][2], verbose=False)):
            levels(m, 1)
            same(m, ref, per)
            cluster(m, 1, c["ng2"], c["tg"])
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
