"""Replays Param behaviours on ParametricDMD."""
import copy
import os
import tempfile

import numpy as np

from pydmd import DMD, HankelDMD, ParametricDMD
from vf import fx, fxc, worker

E = 1 - 1e-11


class OwnPOD:
    def fit(self, X):
        u, s, _ = np.linalg.svd(X, full_matrices=False)
        self.u = u[:, s > 1e-9 * s[0]]
        return self

    def reduce(self, X):
        return self.u.conj().T @ X

    def expand(self, X):
        return self.u @ X


def vec(x):
    """two-component parameter of abscissa x (components ordered differently)"""
    y = float((int(np.floor(x)) * 5) % 7)
    return [x - 3 * y, y]


def absc(p):
    p = np.asarray(p, dtype=float)
    return p[:, 0] if p.shape[1] == 1 else p[:, 0] + 3 * p[:, 1]


class Linear:
    """piecewise linear in a scalar parameter"""

    def fit(self, p, v):
        i = np.argsort(absc(p))
        self.p, self.v = absc(p)[i], np.asarray(v)[i]

    def predict(self, q):
        q = absc(q)
        v = self.v
        return np.array([
            np.interp(q, self.p, v[:, j].real)
            + 1j * np.interp(q, self.p, v[:, j].imag)
            for j in range(v.shape[1])]).T


class Nearest:
    def fit(self, p, v):
        self.p, self.v = absc(p), np.asarray(v)

    def predict(self, q):
        k = [int(np.argmin(np.abs(self.p - x))) for x in absc(q)]
        return self.v[k]


class ArgDMD(DMD):
    """wants an extra positional and keyword argument at fit time"""

    def fit(self, X, extra, key=None):
        assert extra == "extra" and key == "key"
        return super().fit(X)


def cube(A):
    return [[[fxc(z) for z in r] for r in m] for m in np.asarray(A)]


def main(c):
    Xs = [np.array([[[complex(g[0], g[1]) / 2 ** g[2] for g in r] for r in m]
                    for m in X]) for X in c.pop("X")]
    Xs = [X.real if np.abs(X.imag).max() < 1e-12 else X for X in Xs]
    c.pop("r"), c.pop("ra")

    def mk(i):
        k = c["inner"]
        if k == "dmd" or (k == "mix" and i % 2 == 0):
            return DMD(svd_rank=E, exact=True)
        if k == "proj":
            return DMD(svd_rank=E, exact=False)
        if k == "args":
            return ArgDMD(svd_rank=E)
        return HankelDMD(svd_rank=E, exact=True, d=2)

    def tparams(d, extra=0):
        m = list(d["mu"]) + [50 + i for i in range(extra)]
        if c["dim"] == 2:
            return np.array([vec(x) for x in m])
        return [float(x) for x in m] if m[0] % 2 else np.array(m, dtype=float)

    out = []
    box = {"p": None}

    def rec(kind, k, f):
        o = {"kind": kind, "exc": "", "k": k}
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:150]
        out.append(o)
        return not o["exc"]

    def build():
        dm = [mk(i) for i in range(c["ntr"])] if c["part"] else mk(0)
        if c["pod"] == "ezyrb":
            from ezyrb import POD
            pod = POD("svd", rank=-1)
        else:
            pod = OwnPOD()
        kw = {}
        if c["inner"] == "args":
            kw = dict(dmd_fit_args=("extra",), dmd_fit_kwargs={"key": "key"})
        p = ParametricDMD(dm, pod, Linear() if c["approx"] == "linear" else Nearest(),
                          light=c["light"], **kw)
        p.fit(Xs[0].copy(), tparams(c["ds"][0]))
        box["p"] = p

    if not rec("op", 0, build):
        return {"c": c, "o": out}

    def expand(A):
        pod = next(v for v in vars(box["p"]).values() if hasattr(v, "expand"))
        return np.array([pod.expand(m) for m in A])

    havep = False

    def look(k):
        p = box["p"]
        rec("time", k, lambda: {"ts": [fx(x) for x in p.dmd_timesteps],
                                "ots": [fx(x) for x in p.original_timesteps]})
        if havep:
            rec("rec", k, lambda: {"v": cube(p.reconstructed_data)})
            rec("interp", k, lambda: {"v": cube(expand(p.interpolated_modal_coefficients))})
        else:
            rec("nopar", k, lambda: {"v": cube(p.reconstructed_data)})
        rec("fc", k, lambda: {"v": cube(expand(p.forecasted_modal_coefficients))})
        if c["light"]:
            rec("light", k, lambda: {"v": p.training_modal_coefficients.shape})
        else:
            rec("tr", k, lambda: {"v": cube(expand(p.training_modal_coefficients))})

        def pars():
            def ints(a, s):
                if a is None:
                    return []
                if c["dim"] == 2:
                    a = absc(a)[:, None]
                assert a.ndim == 2 and a.shape[1] == 1
                return [int(round(float(x) * s)) for x in a[:, 0]]
            return {"tp": ints(p.training_parameters, 1), "p": ints(p.parameters, 4)}
        rec("par", k, pars)

    look(0)
    for k, op in enumerate(c["ops"], 1):
        p = box["p"]
        kind, a = op["op"], None
        if kind == "fit":
            X = Xs[op["i"] - 1]
            data = X.copy()
            ok = rec("op", k, lambda: p.fit(data, tparams(c["ds"][op["i"] - 1])))
            rec("intact", k, lambda: {"x": bool(np.array_equal(data, X))})
            if not ok:
                break
        elif kind == "badfit":
            X = Xs[0]
            if op["how"] == "count":
                rec("bad", k, lambda: p.fit(X.copy(), tparams(c["ds"][0])[:-1]))
            else:
                rec("bad", k, lambda: p.fit(np.concatenate([X, X[:1]]),
                                            tparams(c["ds"][0], 1)))
        elif kind == "win":
            t0, te, dt = op["w"]

            def setw():
                if op["how"] == "item":
                    p.dmd_time["t0"] = t0
                    p.dmd_time["tend"] = te
                    p.dmd_time["dt"] = dt
                else:
                    from pydmd.dmdbase import DMDTimeDict
                    p.dmd_time = DMDTimeDict({"t0": t0, "tend": te, "dt": dt})
            rec("op", k, setw)
        elif kind == "par":
            v = np.array(op["p"], dtype=float) / 4
            if c["dim"] == 2:
                v = np.array([vec(x) for x in v])
                v = [list(x) for x in v] if op["how"] == "list" else v
            elif op["how"] == "list":
                v = list(v)
            elif op["how"] == "col":
                v = v[:, None]

            def setp():
                p.parameters = v
            rec("op", k, setp)
            havep = True
        elif kind == "badpar":
            def setp():
                p.parameters = np.zeros((2, 1, 1))
            rec("bad", k, setp)
        elif kind == "copy":
            q = copy.deepcopy(p)
            # whatever happens to the original must not reach the copy
            p.dmd_time["tend"] = 77
            p.parameters = np.array([[0.0] * c["dim"]])
            box["p"] = q
        elif kind == "save":
            with tempfile.TemporaryDirectory() as td:
                fn = os.path.join(td, "p.pdmd")
                rec("op", k, lambda: p.save(fn))
                box["p"] = ParametricDMD.load(fn)
        look(k)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
