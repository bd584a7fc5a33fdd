"""Replays Costs cases on pydmd.costs.COSTS."""
import copy

import numpy as np
from sklearn.cluster import KMeans, MiniBatchKMeans

from pydmd import BOPDMD
from pydmd.costs import COSTS
from pydmd.utils import compute_rank, compute_svd
from vf import fx, worker

WAVES = [[2, 0, -2, 0], [2, 1, -1, -2, -1, 1], [0, 1, 2, 3, 2, 1, 0, -1, -2, -3, -2, -1], [2, -1, -1]]


def m2(A, s=10000):
    return [[fx(np.real(z), s) for z in r] for r in np.atleast_2d(np.asarray(A))]


def m3(A, s):
    return [m2(B, s) for B in A]


def data(d):
    D = np.empty((d["n"], d["T"]))
    for i in range(d["n"]):
        for t in range(1, d["T"] + 1):
            x = d["c"][i]
            for q, v in enumerate(d["v"]):
                W = WAVES[v - 1]
                x += d["a"][q][i] * W[t % len(W)] + d["b"][q][i] * W[(t + (len(W) + 1) // 4) % len(W)]
            D[i, t - 1] = x
    return D, (d["t0"] + 0.5 * d["dt"] * np.arange(d["T"]))[None]


def windows(d):
    T, w, s = d["T"], d["w"], d["s"]
    st = list(range(0, T - w + 1, s))
    if st[-1] != T - w:
        st.append(T - w)
    return st


def kern(w, cs):
    a = cs * np.linspace(0, 1, w, endpoint=False)
    b = cs * (np.arange(0, w) - w - 1) / w
    return np.tanh(a) - np.tanh(b) - 1


def kwargs(c):
    kw = {"varpro_opts_dict": {"maxiter": 5, "tol": 1e-6}}
    if c["con"] != "none":
        kw["eig_constraints"] = {c["con"]}
    if c["proj"]:
        kw["use_proj"] = True
    return kw


def oracle(c, d, D, t, gl):
    """every window on its own"""
    kw = dict({"use_proj": False}, eig_sort="imag", **kwargs(c))
    res = []
    alpha = None
    r = None
    if gl:
        r = compute_rank(D, svd_rank=c["r"])
        kw["proj_basis"] = compute_svd(D, svd_rank=c["r"])[0]
    for st in windows(d):
        X = D[:, st:st + d["w"]]
        X = (X - X.mean(axis=1, keepdims=True)) * kern(d["w"], c["cs"])
        rk = r
        if not gl:
            rk = compute_rank(X, svd_rank=c["r"])
            if c["even"] and rk % 2:
                rk += 1
        b = BOPDMD(svd_rank=rk, init_alpha=alpha, **kw)
        b.fit(X, t[:, st:st + d["w"]] - t[0, st])
        if gl and alpha is None:
            alpha = b.init_alpha
        res.append((b.eigs, b.modes * b.amplitudes))
    return res


def flat(res):
    """order-free content of the windows: spectrum and total signal"""
    out = []
    for e, M in res:
        o = np.lexsort((np.round(e.real, 3), np.round(e.imag, 3)))
        out.append(np.concatenate([e[o].real, e[o].imag, M[:, o].real.ravel(), M[:, o].imag.ravel()]))
    return out


def main(c):
    out = []
    np.random.seed(c["ds"][0]["T"])

    def rec(kind, f, **kw):
        o = dict({"kind": kind, "exc": "", "skip": False}, **kw)
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:120]
        out.append(o)
        return not o["exc"]

    def flag(what, f):
        rec("flag", lambda: {"x": bool(f())}, what=what)

    def rej(what, f):
        rec("rejected", lambda: f() and None, what=what)

    ds = [(d,) + data(d) for d in c["ds"]]
    meth = {"mini": MiniBatchKMeans, "kmeans": KMeans}[c["meth"]]
    user = kwargs(c)
    keep = copy.deepcopy(user)

    def mk(kw=None, gl=None):
        return COSTS(svd_rank=c["r"], global_svd=c["gl"] if gl is None else gl,
                     pydmd_kwargs=kwargs(c) if kw is None else kw, force_even_eigs=c["even"])

    def fit(m, i):
        d, D, t = ds[i]
        return rec("fit", lambda: m.fit(D, t, d["w"], d["s"], corner_sharpness=None if c["cs"] == 16 else c["cs"]))

    def look(m, i):
        d, D, t = ds[i]

        def win():
            return {"ns": int(m.n_slides), "st": [list(m.get_window_indices(k).indices(d["T"]))[:2] for k in range(m.n_slides)],
                    "times": m2(m.time_array, 1000), "means": m2(m.window_means_array, 1000)}
        rec("windows", win, i=i + 1)
        flag("sizes", lambda: m.window_length == d["w"] and m.step_size == d["s"]
             and m.modes_array.shape[:2] == (m.n_slides, d["n"]) and m.omega_array.shape == m.amplitudes_array.shape
             and m.modes_array.shape[2] == m.omega_array.shape[1])

    def windows_same(m, i, gl):
        d, D, t = ds[i]

        def same():
            try:
                a = oracle(c, d, D, t, gl)
                b = oracle(c, d, D * (1 + 1e-9 * np.random.standard_normal(D.shape)), t, gl)
            except Exception:  # noqa
                return {"skip": True, "a": [], "b": []}
            A, B = flat(a), flat(b)
            ok = all(x.shape == y.shape and np.isfinite(x).all() and np.abs(x - y).max() < 1e-6 and np.abs(x).max() < 1e4
                     for x, y in zip(A, B))
            if not ok:
                return {"skip": True, "a": [], "b": []}
            mine = []
            for k, (e, M) in enumerate(a):
                q = len(e)
                if np.abs(m.omega_array[k, q:]).max(initial=0) or np.abs(m.modes_array[k][:, q:]).max(initial=0):
                    return {"a": [[0]], "b": [[99999]]}
                mine.append((m.omega_array[k, :q], m.modes_array[k][:, :q] * m.amplitudes_array[k, :q]))
            return {"a": [[fx(z) for z in x] for x in A], "b": [[fx(z) for z in x] for x in flat(mine)]}
        rec("same", same, what="window-fit")

    def tname(x):
        return None if x == "none" else x

    def usable(m, tm):
        im = np.abs(np.asarray(m.omega_array).imag)
        return np.isfinite(im).all() and im.max() < 40 and (im.min() > 1e-2 or tm in ("none", "absolute", "square_frequencies")) and im.max() > 0

    def cluster(m, nc, tm):
        if not usable(m, tm):
            return None
        kw = {} if c["meth"] == "mini" else {"method": meth, "kmeans_kwargs": {"random_state": 0, "n_init": 3}}
        rec("call", lambda: m.cluster_omega(nc, transform_method=tname(tm), **kw))

        def cl():
            x = np.asarray(m.transform_omega(m.omega_array, transform_method=tname(tm)))
            return {"nc": nc, "tm": tm, "x": [fx(z, 1000) for z in x.ravel()],
                    "im": [fx(z, 1000) for z in m.omega_array.imag.ravel()],
                    "cls": [int(z) for z in m.omega_classes.ravel()], "cen": [fx(z, 1000) for z in m.cluster_centroids]}
        rec("cluster", cl)
        flag("components", lambda: m.n_components == nc and m.omega_classes.shape == m.omega_array.shape)
        return nc

    def bands(m, i, nc, mean):
        d, D, t = ds[i]

        def f():
            st = windows(d)
            V = np.empty((len(st), nc, d["n"], d["w"]))
            tt = 0.5 * d["dt"] * np.arange(d["w"])
            for k in range(len(st)):
                for j in range(nc):
                    q = m.omega_classes[k] == j
                    V[k, j] = ((m.modes_array[k][:, q] * m.amplitudes_array[k][q]) @ np.exp(np.outer(m.omega_array[k][q], tt))).real
            if not np.isfinite(V).all() or np.abs(V).max() > 300:
                return {"skip": True, "R": [], "V": [], "g": [], "nc": nc}
            ker = m.build_kern(d["w"])
            g = []
            for x in range(d["T"]):
                ks = [k for k in range(len(st)) if st[k] <= x < st[k] + d["w"]]
                v = np.array([ker[x - st[k]] for k in ks])
                g.append([int(round(z)) for z in 1000 * v / v.max()])
            R = m.scale_reconstruction(**({} if mean is None else {"include_means": mean}))
            return {"R": m3(R, 100), "V": [m3(B, 100) for B in V], "g": g, "nc": nc}
        rec("rec", f, i=i + 1, mean=True if mean is None else mean)

        def s():
            R = m.scale_reconstruction()
            if not np.isfinite(R).all() or np.abs(R).max() > 1e5:
                return {"skip": True}
            lo, hi = m.scale_separation()
            return {"R": m3(R, 100), "G": m2(m.global_reconstruction(), 100), "lo": m2(lo, 100), "hi": m2(hi, 100)}
        rec("sum", s)

    def per(m, tm):
        im = np.abs(m.omega_array[m.omega_classes > 0].imag)
        rec("same", lambda: {"a": [[fx(z) for z in np.sort(im * m.periods() / (2 * np.pi))]], "b": [[10000] * im.size]},
            what="periods", skip=bool(im.size == 0 or im.min() < 1e-6))

    # the kernel of the reassembly prefers the middle of the window
    def kernel():
        w = c["ds"][0]["w"]
        k = np.asarray(COSTS.build_kern(w))
        h = k[:(w + 1) // 2]
        return k.shape == (w,) and np.allclose(k, k[::-1]) and (k > 0).all() and (np.diff(h) > 0).all()
    flag("kernel", kernel)

    m = mk(user)
    flag("unfitted", lambda: m.omega_array is None and m.n_slides is None)
    rej("periods-before-fit", lambda: m.periods())
    d, D, t = ds[0]
    D0 = D.copy()
    if not fit(m, 0):
        # some records admit no such fit (reported by BOPDMD itself)
        o = out[-1]
        try:
            oracle(c, d, D, t, c["gl"])
        except Exception:  # noqa
            o["exc"], o["skip"] = "", True
        return {"c": c, "o": out}
    flag("inputs", lambda: np.array_equal(D, D0))
    flag("kwargs", lambda: set(user) == set(keep) and all(user[k] == keep[k] for k in keep))
    look(m, 0)
    windows_same(m, 0, c["gl"])
    flag("not-clustered", lambda: m.omega_classes is None)
    nc = cluster(m, c["nc"], c["tm"])
    if nc:
        bands(m, 0, nc, None)
        bands(m, 0, nc, False)
        per(m, c["tm"])
        # stored and loaded
        got = {}

        def load():
            got["m"] = COSTS().from_xarray(m.to_xarray())
        if rec("call", load):
            l = got["m"]
            look(l, 0)
            bands(l, 0, nc, None)
            flag("loaded", lambda: np.array_equal(l.omega_array, m.omega_array) and np.array_equal(l.modes_array, m.modes_array)
                 and np.array_equal(l.omega_classes, m.omega_classes) and l.svd_rank == m.svd_rank and l.global_svd == m.global_svd
                 and l.n_components == nc and np.array_equal(l.cluster_centroids, m.cluster_centroids))
            nl = cluster(l, c["nc2"], c["tm2"])
            if nl:
                bands(l, 0, nl, None)
            bands(m, 0, nc, None)          # the original is untouched
        nc = cluster(m, c["nc2"], c["tm2"]) or nc
        bands(m, 0, nc, None)
        # a hyperparameter sweep proposes a number of bands and touches nothing
        before = (m.omega_classes.copy(), m.cluster_centroids.copy(), m.n_components)
        rg = np.arange(2, min(4, len(np.unique(np.round(np.abs(m.omega_array.imag), 6))) - 1) + 1)
        if len(rg):
            flag("sweep", lambda: m.cluster_hyperparameter_sweep(n_components_range=rg, transform_method="absolute") in rg)
            flag("sweep-touches", lambda: np.array_equal(m.omega_classes, before[0]) and np.array_equal(m.cluster_centroids, before[1])
                 and m.n_components == before[2])
    rej("window-too-long", lambda: mk().fit(D, t, d["T"] + 1, 1))
    rej("time-mismatch", lambda: mk().fit(D, t[:, :-1], d["w"], d["s"]))
    rej("transform", lambda: copy.deepcopy(m).cluster_omega(2, transform_method="cube"))
    # another object with the same options, the other basis
    if c["r"] in (0, 2):
        n = mk(user, not c["gl"])
        try:
            oracle(c, d, D, t, not c["gl"])
            ok = True
        except Exception:  # noqa
            ok = False
        if ok and fit(n, 0):
            look(n, 0)
            windows_same(n, 0, not c["gl"])
    # refit
    d2, D2, t2 = ds[1]
    try:
        oracle(c, d2, D2, t2, c["gl"])
    except Exception:  # noqa
        return {"c": c, "o": out}
    if fit(m, 1):
        look(m, 1)
        windows_same(m, 1, c["gl"])
        flag("stale-bands", lambda: m.omega_classes is None)
        nc = cluster(m, c["nc"], c["tm"])
        if nc:
            bands(m, 1, nc, None)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
