"""Replays Cont cases on BOPDMD and VarProDMD."""
import copy
import os
import tempfile
import warnings

import numpy as np

from pydmd import BOPDMD, VarProDMD
from pydmd.dmdbase import DMDBase
from vf import fx, fxc, worker

OPTS = dict(tol=1e-9, maxiter=100)


def num(g):
    return complex(g[0], g[1]) / 2 ** g[2]


def mat(A):
    return [[fxc(z) for z in row] for row in np.atleast_2d(A)]


def identity(x):
    return x


CON = {"none": None, "stable": {"stable"}, "imag": {"imag"},
       "pairs": {"conjugate_pairs"}, "stable+pairs": {"stable", "conjugate_pairs"},
       "imag+pairs": {"imag", "conjugate_pairs"},
       "fun": identity}


def build_data(f, ms):
    tau = np.array(f["tau"])
    X = sum(np.outer([num(g) for g in m["c"]], num(m["lam"]) ** tau) for m in ms)
    assert np.abs(X.imag).max() < 1e-9
    u = f["u"] / 8
    om = np.log(np.array([num(m["lam"]) for m in ms])) / u
    return X.real, tau * u, om, np.array(f["q"]) * u


def main(c):
    warnings.simplefilter("ignore")
    np.random.seed(3)
    mss = c.pop("ms")
    out = []

    def rec(kind, q, f):
        o = {"kind": kind, "exc": "", "fit": q}
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:150]
        out.append(o)
        return not o["exc"]

    f0, ms0 = c["fits"][0], mss[0]
    X0, t0, om0, _ = build_data(f0, ms0)
    r = len(ms0)
    U, s, Vh = np.linalg.svd(X0, full_matrices=False)
    rank = r if c["rank"] == "int" else 1 - 1e-12
    init = om0 * 1.005 + 0.002 * 8 / f0["u"] if c["init"] == "given" else None
    init_copy = None if init is None else init.copy()
    basis = U[:, :r].copy() if (c["basis"] or c["econ"]) else None
    nT = min(len(f["tau"]) for f in c["fits"])
    if c["cls"] == "bop":
        d = BOPDMD(svd_rank=rank, compute_A=c["A"], use_proj=c["proj"],
                   init_alpha=init, proj_basis=basis, num_trials=c["trials"],
                   trial_size=(nT - 2 if c["tsize"] == "int" else 0.85),
                   eig_sort=c["sort"] if c["sort"] != "none" else "auto",
                   eig_constraints=CON[c["con"]], varpro_opts_dict=dict(OPTS))
    else:
        d = VarProDMD(svd_rank=rank, exact=not c["proj"],
                      sorted_eigs=False if c["sort"] == "none" else c["sort"],
                      compression=c["comp"] / 100)

    def fore(d, t):
        v = d.forecast(t)
        return v[0] if isinstance(v, tuple) else v

    def give(X):
        if c["form"] == "list":
            return [X[:, i].copy() for i in range(X.shape[1])]
        if c["form"] == "cube":
            return X.reshape(5, 1, -1).copy()
        return X.copy()

    for q, (f, ms) in enumerate(zip(c["fits"], mss), 1):
        X, t, om, tq = build_data(f, ms)
        data, tin = give(X), t.copy()

        def spectrum(d=d):
            con = (d.modes * d.amplitudes).T
            tm = d.time if c["cls"] == "bop" else getattr(d, "_original_time", tin)
            return {"eigs": [fxc(z) for z in d.eigs], "con": mat(con),
                    "time": [fx(x) for x in tm]}

        def fit():
            if c["econ"]:
                x = d.fit_econ(s[:r].copy(), Vh[:r].copy(), tin)
            elif c["cls"] == "bop" and c["form"] == "list":
                x = d.fit(data, list(tin))
            else:
                x = d.fit(data, tin)
            assert x is d
            return spectrum()

        if not rec("spectrum", q, fit):
            break
        rec("rec", q, lambda: {"v": mat(d.reconstructed_data.reshape(5, -1))})
        rec("forecast", q, lambda: {"v": mat(fore(d, tq.copy()).reshape(5, -1))})
        if c["cls"] == "bop":
            rec("forecast", q, lambda: {"v": mat(fore(d, list(tq)).reshape(5, -1))})
        rec("forecast", q, lambda: {"v": mat(
            d.modes @ (d.amplitudes[:, None] * np.exp(np.outer(d.eigs, tq))))})

        def single():
            m = d.modes_activation_bitmask
            k = np.zeros(len(m), dtype=bool)
            k[q % len(m)] = True
            d.modes_activation_bitmask = k
            o = {"eig": fxc(d.eigs[0]), "v": mat(fore(d, tq.copy())),
                 "w": mat(d.reconstructed_data)}
            assert len(d.eigs) == 1
            d.modes_activation_bitmask = m
            return o

        if not c["econ"]:
            rec("one", q, single)
        rec("spectrum", q, spectrum)
        if c["A"]:
            rec("A", q, lambda: {"ac": [
                [fxc(z) for z in d.A @ np.array([num(g) for g in m["c"]])] for m in ms]})
        if c["trials"]:
            rec("std", q, lambda: {"v": [fx(x) for x in np.concatenate([
                np.ravel(d.eigenvalues_std), np.ravel(d.amplitudes_std),
                np.ravel(d.modes_std)]).real]})
        if "pairs" in c["con"]:
            rec("pairs", q, lambda: {"unpaired": int(sum(
                np.min(np.abs(d.eigs - np.conj(e))) > 1e-9 for e in d.eigs))})
        if c["cls"] == "vp":
            rec("freq", q, lambda: {"x": bool(
                np.allclose(d.frequency, d.eigs.imag / 2 / np.pi)
                and np.allclose(d.growth_rate, d.eigs.real))})

        def dup():
            x = copy.deepcopy(d)
            o = spectrum(x)
            d.modes_activation_bitmask = np.ones(len(d.eigs), dtype=bool)
            return o

        rec("spectrum", q, dup)
        if c["con"] != "fun":
            def saved():
                with tempfile.TemporaryDirectory() as td:
                    fn = os.path.join(td, "x.dmd")
                    d.save(fn)
                    return spectrum(DMDBase.load(fn))
            rec("spectrum", q, saved)
        rec("intact", q, lambda: {"x": bool(
            np.array_equal(tin, t) and (init is None or np.array_equal(init, init_copy))
            and (np.array_equal(np.array(data).T, X) if c["form"] == "list"
                 else np.array_equal(data.reshape(5, -1), X)))})
        if c["cls"] == "bop":
            rec("rejected", q, lambda: BOPDMD(svd_rank=2).fit(X, t[:-1]) and None)
            rec("rejected", q, lambda: BOPDMD(svd_rank=2, init_alpha=np.ones(3)).fit(X, t) and None)
            rec("rejected", q, lambda: BOPDMD(svd_rank=2, proj_basis=np.ones((5, 3))).fit(X, t) and None)
            rec("rejected", q, lambda: BOPDMD(eig_constraints={"stable", "imag"}) and None)
            rec("rejected", q, lambda: BOPDMD(eig_constraints={"x"}) and None)
            rec("rejected", q, lambda: d.forecast(np.zeros((2, 2))) is None and None)
    # constraints hold on any data
    if c["cls"] == "bop" and c["con"] not in ("none", "fun"):
        rng = np.random.default_rng(len(f0["tau"]) * 100 + f0["u"])
        Y = rng.standard_normal((5, 14)) + np.exp(0.2 * np.arange(14))
        tt = np.arange(14) * 0.5
        Z = (np.outer(np.array([1, 2, -1, 0, 1]), np.cos(1.5 * tt))
             + np.outer(np.array([0, 1, 1, 1, 2]), np.sin(1.5 * tt))
             + np.outer(np.array([1, -1, 0, 1, 0]), np.exp(0.1 * tt)))
        Z = Z + 0.02 * (rng.standard_normal(Z.shape) + 1j * rng.standard_normal(Z.shape))
        guess = np.array([0.1 + 1.4j, 0.05 - 1.5j, 0.1 + 0.04j])

        def con(Y, rank, trials, guess=None):
            def f():
                e = BOPDMD(svd_rank=rank, use_proj=c["proj"], init_alpha=guess,
                           eig_constraints=set(CON[c["con"]]), num_trials=trials,
                           trial_size=0.8, varpro_opts_dict=dict(maxiter=8)).fit(Y, tt).eigs
                return {"maxre": int((e.real > 0).sum()),
                        "maxabsre": int((e.real != 0).sum()),
                        "unpaired": int(sum(np.min(np.abs(e - np.conj(x))) > 1e-9 for x in e))}
            return f
        kinds = [k for k in ("stable", "imag", "pairs") if k in c["con"]]
        for k in kinds:
            if "pairs" not in c["con"]:
                rec(k, 1, con(Y, 2, c["trials"]))
            # averages over bags keep the constraints except the pairing
            rec(k, 1, con(Z, 3, 0, guess))
            if k != "pairs":
                rec(k, 1, con(Z, 3, c["trials"], guess))
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
