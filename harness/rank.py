"""Replays Rank cases on everything that truncates by `svd_rank`."""
import numpy as np

from pydmd import DMD, EDMD, FbDMD, HankelDMD, PiDMD, SpDMD
from pydmd.utils import compute_rank, compute_svd
from pydmd.preprocessing import svd_projection_preprocessing
from vf import fx, worker


def orth(rng, n, k, cx):
    A = rng.standard_normal((n, k))
    if cx:
        A = A + 1j * rng.standard_normal((n, k))
    return np.linalg.qr(A)[0]


def main(c):
    rng = np.random.default_rng(c["seed"])
    s = np.array(c["s"], dtype=float)
    k = len(s)
    U, V = orth(rng, c["rows"], k, c["cx"]), orth(rng, c["cols"], k, c["cx"])
    X = (U * s) @ V.conj().T
    A = rng.standard_normal((c["rows"], c["rows"]))
    Y = A @ X
    r = {"int": int(c["k"]), "npint": np.int64(c["k"]), "all": -1, "opt": 0,
         "energy": c["p"] / c["q"]}[c["kind"]]
    out = []

    def rec(who, f):
        o = {"who": who, "exc": "", "r": -1, "s": [], "ok": True}
        try:
            f(o)
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__ + ":" + str(e)[:80]
        out.append(o)

    def f_rank(o):
        o["r"] = int(compute_rank(X, r))

    def f_svd(o):
        u, sv, v = compute_svd(X, r)
        q = len(sv)
        o["r"] = q
        o["s"] = [fx(x) for x in sv]
        best = (U[:, :q] * s[:q]) @ V[:, :q].conj().T
        uniq = q == k or s[q - 1] > s[q]
        o["ok"] = bool(
            u.shape == (c["rows"], q) and v.shape == (c["cols"], q)
            and np.allclose(u.conj().T @ u, np.eye(q))
            and np.allclose(v.conj().T @ v, np.eye(q))
            and (not uniq or np.allclose((u * sv) @ v.conj().T, best)))

    def fit(mk):
        def f(o):
            d = mk()
            d.fit(X, Y)
            o["r"] = int(len(d.eigs))
        return f

    rec("compute_rank", f_rank)
    rec("compute_svd", f_svd)
    rec("dmd", fit(lambda: DMD(svd_rank=r)))
    if not c["cx"]:
        rec("pidmd", fit(lambda: PiDMD("unitary", svd_rank=r)))
        if c["kind"] != "opt" and (c["cols"] <= c["rows"] or c["kind"] == "energy"):
            rec("edmd", fit(lambda: EDMD(svd_rank=r)))
    # one trajectory: the singular values of all but the last snapshot
    Z = np.hstack([X, X[:, :1]])

    def f_hank(o):
        o["r"] = int(len(HankelDMD(svd_rank=r, d=1).fit(Z).eigs))

    def f_one(o):
        o["r"] = int(len(DMD(svd_rank=r).fit(Z).eigs))

    def f_sp(o):
        d = SpDMD(svd_rank=r, gamma=0.0, verbose=False, max_iterations=2)
        o["r"] = int(len(d.fit(Z).eigs))

    rec("dmd1", f_one)
    rec("spdmd", f_sp)
    rec("hankel", f_hank)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
