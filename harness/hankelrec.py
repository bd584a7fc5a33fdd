"""Replays HankelRec cases: inexact delay embedded fits."""
import numpy as np

from pydmd import HankelDMD
from vf import fxc, worker


def main(c):
    rng = np.random.default_rng(c["seed"])
    X = rng.integers(-3, 4, size=(c["n"], c["T"])).astype(float)
    X += 0.01 * rng.standard_normal(X.shape)
    rm = c["rm"]
    if rm == "weights":
        rm = [float(x) for x in c["w"]]
        if c["seed"] % 2:
            rm = np.array(rm)
    o = {"exc": "", "er": 0, "E": [], "rec": []}
    try:
        d = HankelDMD(svd_rank=c["rk"], d=c["d"], reconstruction_method=rm).fit(X)
        t0, dt = [(0, 1), (3, 1), (0.5, 0.1), (-2, 0.25)][c["clk"]]
        for t in (d.original_time, d.dmd_time):
            t["t0"], t["dt"], t["tend"] = t0, dt, t0 + dt * (c["T"] - 1)
        d.dmd_time["t0"] = t0 + dt * c["a"]
        d.dmd_time["tend"] = t0 + dt * c["b"]
        d.dmd_time["dt"] = dt * c["s"]
        M, b, lam = d.modes, d.amplitudes, d.eigs
        o["er"] = int(M.shape[0])
        f = lambda t: max(0, t - (c["d"] - 1))
        for j in range(f(c["a"]), f(c["b"]) + 1):
            o["E"].append([fxc(z) for z in M @ (b * lam ** j)])
        o["rec"] = [[fxc(z) for z in row] for row in d.reconstructed_data]
    except Exception as e:  # noqa
        o["exc"] = type(e).__name__ + ":" + str(e)[:80]
    return {"c": c, "o": [o]}


if __name__ == "__main__":
    worker(main)
