"""Replays Lando cases on pydmd.LANDO."""
import copy

import numpy as np

from pydmd import LANDO
from vf import fx, worker


def m2(A, s=10000):
    return [[fx(np.real(z), s) for z in r] for r in np.atleast_2d(np.asarray(A))]


def main(c):
    n, kern = c["n"], c["kern"]
    np.random.seed(len(c["ds"][0]["X"]) * 1000 + c["gam"] * 100 + c["k"])
    gam = 1.0 / n if c["deflt"] else c["gam"] / 2
    if kern == "custom":
        gam = 1.0
    shape = {"flat": (n,), "list": (n,), "col": (n, 1), "row": (1, n), "square": (2, 2)}[c["sh"]]
    resc = {"one": 1.0, "two": 2, "half": 0.5,
            "array": np.array([1.0, 2.0, 0.5, 1.5][:n]).reshape(shape)}[c["resc"]]
    rv = np.asarray(resc).ravel() * np.ones(n)
    out = []

    def mk():
        kw = dict(svd_rank=-1 if c["r"] == "all" else n, x_rescale=copy.deepcopy(resc),
                  online=c["on"], permute=c["perm"], lstsq=c["ls"])
        if kern == "custom":
            kw["kernel_function"] = kfun
            kw["kernel_gradient"] = kgrad
        elif kern != "linear":
            kw["kernel_metric"] = kern
            if not c["deflt"]:
                kw["kernel_params"] = {"gamma": gam}
                if kern == "poly":
                    kw["kernel_params"].update(degree=c["deg"], coef0=c["co"])
        return LANDO(**kw)

    def kfun(X, Y):
        return (X.T @ Y + c["co"]) ** c["deg"]

    def kgrad(X, y):
        return (c["deg"] * (X.T @ y + c["co"]) ** (c["deg"] - 1))[:, None] * X.T

    def K(A, B):
        A, B = A * rv[:, None], B * rv[:, None]
        if kern == "rbf":
            return np.exp(-gam * ((A[:, :, None] - B[:, None]) ** 2).sum(axis=0))
        if kern == "linear":
            return A.T @ B
        return (gam * A.T @ B + c["co"]) ** c["deg"]

    def cols(Z):
        return np.array(Z, dtype=float).T

    def give(A):
        """samples (columns) in the form the user passes them"""
        if c["sh"] == "list":
            return [np.array(x) for x in A.T]
        return A.reshape(shape + (A.shape[1],)).copy()

    def give_f(A):
        return A.reshape(shape + (A.shape[1],)).copy()

    def rec(kind, f, **kw):
        o = dict({"kind": kind, "exc": "", "skip": False}, **kw)
        try:
            o.update(f() or {})
        except Exception as e:  # noqa
            o["exc"] = type(e).__name__
            o["msg"] = str(e)[:120]
        out.append(o)
        return not o["exc"]

    def flag(what, f):
        rec("flag", lambda: {"x": bool(f())}, what=what)

    def rej(what, f):
        rec("rejected", lambda: f() and None, what=what)

    D = [(cols(d["X"]), cols(d["Y"])) for d in c["ds"]]
    P = cols(c["P"])
    b = {1: np.array(c["b1"], dtype=float), 2: np.array(c["b2"], dtype=float)}
    poly = kern != "rbf"

    def nf(i):
        """numerical rank data of the samples: (usable, number of features)"""
        s = np.linalg.svd(K(D[i][0], D[i][0]), compute_uv=False)
        if not poly:
            return s[-1] > 1e-3 and s[0] / s[-1] < 1e5
        r = int((s > 1e-9 * s[0]).sum())
        return s[r - 1] > 1e-2 and s[0] / s[r - 1] < 1e7

    def ok(h, i):
        if not nf(i):
            return False
        d = np.asarray(h.sparse_dictionary).reshape(n, -1)
        return bool(np.linalg.cond(K(d, d)) < 1e6)

    def look(h, i, q=None, A=True):
        """everything the fitted model says, for data set i, base point q"""
        skip = not ok(h, i)
        rec("dict", lambda: {"d": m2(np.asarray(h.sparse_dictionary).reshape(n, -1).T)},
            i=i + 1, skip=not nf(i))
        if poly:
            rec("f", lambda: {"y": m2(h.f(give_f(P)))}, i=i + 1, skip=skip)
        rec("interp", lambda: {"y": m2(h.f(give_f(D[i][0])))}, i=i + 1, skip=skip)
        if q is None:
            return
        flag("fixed-point", lambda: np.array_equal(np.asarray(h.fixed_point).ravel(), b[q])
             and np.shape(h.fixed_point) == shape)
        if poly:
            rec("bias", lambda: {"y": m2(h.bias)}, i=i + 1, q=q, skip=skip)
            rec("nonlinear", lambda: {"y": m2(h.nonlinear(give_f(P)))}, i=i + 1, q=q, skip=skip)
            if A:
                rec("linear", lambda: {"y": m2(h.linear)}, i=i + 1, q=q, skip=skip)
            rec("eigs", lambda: {"e": [[fx(z.real, 1000), fx(z.imag, 1000)] for z in np.asarray(h.eigs, dtype=complex)]},
                i=i + 1, q=q, skip=skip)

            def modes():
                e = np.asarray(h.operator.eigenvalues, dtype=complex)
                ph = np.asarray(h.operator.modes, dtype=complex)
                ks = [k for k in range(len(e)) if abs(e[k]) > 1e-2 and np.isfinite(ph[:, k]).all()]
                v = [ph[:, k] / np.linalg.norm(ph[:, k]) for k in ks]
                return {"e": [[fx(e[k].real, 1000), fx(e[k].imag, 1000)] for k in ks],
                        "v": [[[fx(z.real, 1000), fx(z.imag, 1000)] for z in w] for w in v]}
            rec("modes", modes, i=i + 1, q=q, skip=skip)
        elif A:
            def der():
                e = 1e-4
                J = np.empty((n, n))
                for j in range(n):
                    s = np.zeros(n)
                    s[j] = e
                    J[:, j] = (h.f(give_f((b[q] + s)[:, None])) - h.f(give_f((b[q] - s)[:, None]))).ravel() / (2 * e)
                return {"a": m2(J), "b": m2(h.linear)}
            rec("same", der, what="derivative", skip=skip)

        def split():
            lhs = h.f(give_f(P + b[q][:, None]))
            lin = (h.linear if A else h.f(give_f(P + b[q][:, None])) * 0)
            if not A:
                return {"a": [[0]], "b": [[0]]}
            return {"a": m2(lhs), "b": m2(np.asarray(h.bias) + np.asarray(lin) @ P + h.nonlinear(give_f(P)))}
        rec("same", split, what="split", skip=skip)

    # ------------------------------------------------------------- history
    h = mk()
    flag("unfitted", lambda: not h.fitted and not h.partially_fitted)
    rej("f-before-fit", lambda: h.f(give_f(P)))
    rej("analysis-before-fit", lambda: h.analyze_fixed_point(b[1].reshape(shape)))
    rej("update-before-fit", lambda: h.update(give(D[0][0]), give(D[0][1])))
    rej("predict-before-fit", lambda: h.predict(b[1].reshape(shape), 3))
    X, Y = D[0]
    m1 = c["m1"]
    ins = [give(X), give(Y)]
    keep = copy.deepcopy(ins)
    good = True
    if c["on"] and m1 < X.shape[1] - 1:
        good = rec("fit", lambda: None if h.fit(give(X[:, :m1]), give(Y[:, :m1])) is h else {"exc": "not-self"})
        rec("analyze", lambda: h.analyze_fixed_point(b[1].reshape(shape), compute_A=True))
        good &= rec("update", lambda: None if h.update(give(X[:, m1:]), give(Y[:, m1:])) is h else {"exc": "not-self"})
        look(h, 0, 1)
    else:
        good = rec("fit", lambda: None if h.fit(*ins) is h else {"exc": "not-self"})
        flag("partially-fitted", lambda: h.partially_fitted and not h.fitted)
        rej("bias-before-analysis", lambda: h.bias)
        rej("fixed-point-before-analysis", lambda: h.fixed_point)
        rej("linear-before-analysis", lambda: h.linear)
        rej("nonlinear-before-analysis", lambda: h.nonlinear(give_f(P)))
        look(h, 0)
        rec("analyze", lambda: h.analyze_fixed_point(b[1].reshape(shape), compute_A=True))
        look(h, 0, 1)
        if not c["on"]:
            rej("update-offline", lambda: h.update(give(X), give(Y)))
            look(h, 0, 1)
    rej("point-shape", lambda: h.analyze_fixed_point(np.zeros(n + 1)))
    rej("f-shape", lambda: h.f(np.zeros((n + 1, 3))))
    rej("x0-shape", lambda: h.predict(np.zeros(n + 1), 3))
    look(h, 0, 1)
    if poly:
        rec("predict", lambda: {"y": m2(h.predict(np.array(c["x0"], dtype=float).reshape(shape), c["k"], continuous=False))},
            i=1, skip=not ok(h, 0))
    g = copy.deepcopy(h)
    rec("analyze", lambda: h.analyze_fixed_point(b[2].reshape(shape), compute_A=bool(c["a2"])))
    look(h, 0, 2, bool(c["a2"]))
    if not c["a2"]:
        flag("stale-linear", lambda: h.linear is None)
    look(g, 0, 1)                      # the copy keeps its own analysis
    flag("inputs", lambda: all(np.array_equal(x, y) for x, y in zip(ins, keep)))
    # refit: nothing of the previous data is left
    rec("fit", lambda: None if h.fit(give(D[1][0]), give(D[1][1])) is h else {"exc": "not-self"})
    flag("stale-analysis", lambda: not h.fitted)
    look(h, 1)
    rec("analyze", lambda: h.analyze_fixed_point(b[1].reshape(shape), compute_A=True))
    look(h, 1, 1)
    # one record = pairs of consecutive snapshots
    Z = D[1][0]
    if Z.shape[1] > 2 and not c["perm"]:
        def record():
            u, v = mk().fit(give(Z)), mk().fit(give(Z[:, :-1]), give(Z[:, 1:]))
            return {"a": m2(u.f(give_f(P))), "b": m2(v.f(give_f(P)))}
        rec("same", record, what="record", skip=not nf(1))
    # continuous prediction of a flow that is known exactly
    if kern == "poly" and c["co"] > 0 and n <= 2:
        a = c["nil"]
        Yn = np.array([[a[0] + a[1] * x[1], a[2]] if n == 2 else [a[0]] for x in D[1][0].T], dtype=float).T

        def flow():
            q = mk().fit(give(D[1][0]), give(Yn))
            kw = {} if c["k"] % 4 else {"solve_ivp_opts": {"rtol": 1e-8, "atol": 1e-8}}
            return {"y": m2(q.predict(np.array(c["x0"], dtype=float).reshape(shape), c["k"], dt=c["dt"] / 10, **kw)),
                    "skip": not ok(q, 1)}
        rec("flow", flow)
    return {"c": c, "o": out}


if __name__ == "__main__":
    worker(main)
