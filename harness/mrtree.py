"""Replays MrTree cases on MrDMD."""
import numpy as np

from pydmd import DMD, HankelDMD, MrDMD
from vf import fx, fxc, worker

ENERGY = 1 - 1e-10


def inner(kind):
    if kind == "dmd":
        return DMD(svd_rank=ENERGY, exact=True)
    if kind == "proj":
        return DMD(svd_rank=ENERGY, exact=False)
    if kind == "opt":
        return DMD(svd_rank=ENERGY, exact=True, opt=True)
    return HankelDMD(svd_rank=ENERGY, exact=True, d=2)


def num(g):
    return complex(g[0], g[1]) / 2 ** g[2]


def mat(A):
    return [[fxc(z) for z in row] for row in np.atleast_2d(A)]


def main(c):
    ms = c["ms"]
    t = np.arange(c["T"])
    X = sum(np.outer([num(g) for g in m["c"]], num(m["lam"]) ** t) for m in ms)
    if np.abs(X.imag).max() < 1e-9:
        X = X.real
    if c["form"] == "int":
        X = np.round(X).astype(int)

    def shape(A):
        if c["form"] == "list":
            return [np.array(A[:, i]) for i in range(A.shape[1])]
        if c["form"] == "cube":
            return A.reshape(5, 1, -1).copy()
        return A.copy()

    calls = []

    def fun(level, leaf):
        calls.append([int(level), int(leaf)])
        return inner(c["inner"])

    out = []

    def rec(kind, f, **kw):
        o = {"kind": kind, "exc": "", **kw}
        try:
            o.update(f())
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__ + ":" + str(e)[:90]
        out.append(o)
        return not o["exc"]

    box = {}

    def fit():
        b = {"one": lambda: inner(c["inner"]),
             "list": lambda: [inner(c["inner"]) for _ in range(c["lev"] + 1)],
             "tuple": lambda: tuple(inner(c["inner"]) for _ in range(c["lev"] + 1)),
             "fun": lambda: fun}[c["build"]]()
        m = MrDMD(b, max_level=c["lev"], max_cycles=c["cyc"])
        if c["T0"]:
            m.fit(shape(X[:, :c["T0"]]))
        data = shape(X)
        box["m"], box["data"] = m, data
        r = m.fit(data)
        assert r is m
        return {"lev": int(m.max_level), "nodes": len(list(iter(m)))}

    if not rec("level", fit):
        return {"c": c, "o": out}
    m = box["m"]
    if c["build"] == "fun":
        n = 2 ** (m.max_level + 1) - 1
        rec("built", lambda: {"calls": calls[-n:]})
    for l, j, d in m.enumerate():
        def node():
            ti = m.partial_time_interval(l, j)
            own = d.reconstructed_data
            return {"eigs": [fxc(z) for z in m.partial_eigs(l, j)],
                    "rec": mat(m.partial_reconstructed_data(l, j))
                    if c["inner"] != "hankel" else mat(own),
                    "own": mat(own), "t0": fx(ti["t0"]), "tend": fx(ti["tend"]),
                    "delta": fx(ti["delta"])}
        rec("node", node, l=l, j=j)
    for l in range(m.max_level + 1):
        def lev():
            own = np.hstack([m.dmd_tree[l, j].reconstructed_data for j in range(2 ** l)])
            return {"eigs": [fxc(z) for z in m.partial_eigs(l)],
                    "rec": mat(m.partial_reconstructed_data(l))
                    if c["inner"] != "hankel" else mat(own),
                    "namp": len(m.partial_amplitudes(l)),
                    "nmod": m.partial_modes(l).shape[1]}
        rec("lev", lev, l=l)

    def tot():
        r = m.reconstructed_data
        if c["inner"] == "hankel":
            md = r
        else:
            D, dyn = m.modes, m.dynamics
            # rows of `dynamics` of one level are laid out over the record
            md = D @ dyn
        x = box["data"]
        same = (all(np.array_equal(a, b) for a, b in zip(x, shape(X)))
                if isinstance(x, list) else np.array_equal(x, shape(X)))
        return {"eigs": [fxc(z) for z in m.eigs], "rec": mat(r), "md": mat(md),
                "x": "same" if same else "changed"}

    rec("all", tot)

    def win():
        a, b = c["w0"], c["w1"]
        bins = m.time_window_bins(a, b)
        e = m.time_window_eigs(a, b)
        f = m.time_window_frequency(a, b)
        g = m.time_window_growth_rate(a, b)
        ok = np.allclose(f, np.log(e.astype(complex)).imag / (2 * np.pi))
        return {"bins": [[int(q) for q in x] for x in bins],
                "eigs": [fxc(z) for z in e], "namp": len(m.time_window_amplitudes(a, b)),
                "nfreq": len(f), "ngr": len(g), "freq": "same" if ok else "differs"}

    rec("window", win)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
