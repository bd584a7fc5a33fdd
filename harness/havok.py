"""Replays Havok cases on pydmd.HAVOK."""
import numpy as np

from pydmd import DMD, HAVOK
from vf import fx, worker

VS = 3000


def m2(A, s=10000):
    return [[fx(np.real(z), s) for z in r] for r in np.atleast_2d(np.asarray(A))]


def ints(A):
    return [[int(round(float(z))) if float(z) == round(float(z)) else 10**9
             for z in r] for r in np.atleast_2d(np.asarray(A))]


def main(c):
    n, m, d, lag, k, r = (c[x] for x in ("n", "m", "d", "lag", "k", "r"))
    X = np.array(c["X"], dtype=float)
    dt = c["dt8"] / 8
    if c["tf"] == "num":
        t = dt
    else:
        t = (np.arange(m) + c["t0"]) * dt
        if c["tf"] == "list":
            t = list(t)
    Xin = X[0].copy() if c["nd"] == "1d" else [list(x) for x in X] if c["nd"] == "list" else X.copy()
    out = []

    def rec(kind, f):
        o = {"kind": kind, "exc": ""}
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:120]
        out.append(o)
        return not o["exc"]

    def new(**kw):
        a = dict(svd_rank=r, delays=d, lag=lag, num_chaos=k, structured=c["st"],
                 lstsq=c["ls"] != "pinv",
                 dmd=DMD(svd_rank=-1) if c["ls"] == "dmd" else None)
        a.update(kw)
        return HAVOK(**a)

    h = new()
    rec("hankel", lambda: {"H": ints(h.hankel(Xin if isinstance(Xin, np.ndarray) else X))})

    def deh():
        Hm = m - (d - 1) * lag
        H = (np.arange(n * d * Hm).reshape(n * d, Hm) * 7 % 1000).astype(float)
        return {"H": ints(H), "X": [[0 if not np.isfinite(z) or abs(z) > 1e6 else int(round(z)) for z in row]
                                    for row in np.atleast_2d(h.dehankel(H))]}

    rec("dehankel", deh)
    rec("rejected", lambda: h.reconstructed_data and None)
    rec("rejected", lambda: h.hankel(X[:, :lag * (d - 1)]) and None)

    def fit():
        res = h.fit(Xin, t)
        return {"self": res is h, "r": int(h.r), "sn": ints(h.snapshots),
                "ho": ints(h.ho_snapshots)}

    if rec("fit", fit):
        rec("time", lambda: {"t": [fx(z) for z in h.time]})
        U, s, V = map(np.asarray, (h.modes, h.singular_vals, h.delay_embeddings))
        rec("svd", lambda: {"U": m2(U, VS), "V": m2(V, VS), "s": [fx(z, VS) for z in s]})
        if not c["st"]:
            def oper():
                bad = False
                if c["ls"] == "dmd":
                    P = np.asarray(h.operator)
                    bad = np.linalg.cond(np.linalg.eig(P)[1]) > 1e3
                return {"V": m2(V, VS), "P": m2(2 * dt * np.asarray(h.operator)), "skip": bool(bad)}
            rec("operator", oper)
        rec("split", lambda: {"P": m2(h.operator), "A": m2(h.A), "B": m2(h.B), "V": m2(V),
                              "v": m2(h.linear_dynamics), "u": m2(h.forcing),
                              "e": [fx(np.real(z)) for z in h.eigs]})
        big = np.abs(np.asarray(h.operator)).max() * dt > 8

        def resp():
            q = dt / 64
            y = np.atleast_2d(h.predict(np.array([c["u0"], c["u1"]], dtype=float),
                                        np.array([0.0, q]), np.array(c["v0"], dtype=float)))
            C = (U[-n:] * s)[:, :r - k]
            return {"skip": bool(big), "Ah": m2(q * np.asarray(h.A), 1000000), "Bh": m2(q * np.asarray(h.B), 1000000),
                    "C": m2(C, 100), "v0": c["v0"], "u0": c["u0"], "u1": c["u1"],
                    "y0": [fx(z, 100) for z in y[:, -2]],
                    "dy": [fx(z, 1000000) for z in y[:, -1] - y[:, -2]]}

        rec("response", resp)
        nv = len(V)
        tv = np.asarray(h.time)[:nv]

        def cov(z):
            """the part of an unravelled record that the embedding defines"""
            z = np.atleast_2d(z)
            w = z.shape[1] - (d - 1) * lag
            ok = [any(0 <= q - i * lag < w for i in range(d)) for q in range(z.shape[1])]
            return z[:, ok]

        def same(what, f):
            def g():
                a, b = f()
                skip = big or np.abs(a).max() > 1e4 or np.abs(b).max() > 1e4
                return {"what": what, "skip": bool(skip), "a": [] if skip else m2(a), "b": [] if skip else m2(b)}
            rec("same", g)

        fo = np.asarray(h.forcing)
        same("reconstruction", lambda: (cov(h.reconstructed_data), cov(h.predict(fo, tv, 0))))
        kk = nv // 2
        same("start-index", lambda: (cov(h.predict(fo, tv, kk)), cov(h.predict(fo, tv, np.array(h.linear_dynamics[kk])))))
        same("embeddings", lambda: (
            np.atleast_2d(h.reconstructed_embeddings)[0], np.asarray(h.linear_dynamics)[0]))
        w0 = np.array(c["v0"], dtype=float)

        def superp():
            a = cov(h.predict(fo, tv, 0)) + cov(h.predict(0 * fo, tv, w0))
            return a, cov(h.predict(fo, tv, np.asarray(h.linear_dynamics)[0] + w0))
        same("superposition", superp)

        def embed():
            """reconstructed data = unravelled reconstructed embeddings"""
            E = np.atleast_2d(h.reconstructed_embeddings)
            H = (U[:, :r - k] * s[:r - k]) @ E.T
            return cov(h.reconstructed_data), cov(h.dehankel(H))
        same("unravelled", embed)
        rec("intact", lambda: {"x": bool(np.array_equal(np.atleast_2d(np.asarray(Xin)), X))})
        if not c["st"] and c["ls"] == "lstsq":
            # the same object fitted again answers like a new one
            def again():
                h2 = new()
                h2.fit(X[:, ::-1].copy() + 1, 0.5)
                h2.reconstructed_data
                h2.fit(Xin, t)
                return np.asarray(h2.operator), np.asarray(h.operator)
            same("refit", again)
    rec("threshold", lambda: {"t": fx(new().compute_threshold(np.array(c["f"], dtype=float), p=c["p"] / 1000, bins=c["nb"]))})
    rec("candidate", lambda: {"t": fx(new().compute_threshold(np.array(c["f"], dtype=float), p=0, bins=c["nb"]))})
    rec("rejected", lambda: new(num_chaos=r).fit(X, t) and None)
    rec("rejected", lambda: new(delays=0).fit(X, t) and None)
    rec("rejected", lambda: new(num_chaos=1.5).fit(X, t) and None)
    rec("rejected", lambda: new().fit(X, np.arange(m + 1) * dt) and None)
    rec("rejected", lambda: new().fit(np.zeros((2, 2, m)), t) and None)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
