"""S04: marginal-likelihood kernel scores."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.optimize import minimize_scalar

from harness import tables
from harness.core import Reject, Suite

SUITE = Suite("S04", "random continuous tables of 8-70 (some of 120-240) rows and 2-5 columns (smooth, linear or no dependence, heavy tails, badly scaled), 0-4 parents, for the multi-dimensional score also "
              "variables of one to three columns in any grouping; random likelihood hyperparameters, random matrices for the helpers; oracle: own kernels, the eigenvalue form of the "
              "Gaussian-process likelihood minimised over the noise on a grid and by bisection, central differences, NumPy's solvers; parent order, row order, shifts and rescaling as "
              "metamorphic relations; non-trivial: at least one parent, respectively at least two rows",
              ["tables whose feature spectrum has a near-tie at the cut or two values that agree to six digits of the spread, and likelihoods with several local optima in the noise, are rejected"])


@st.composite
def cases(draw, multi=False):
    d = draw(st.sampled_from([3, 4, 2, 5]))
    c = {"d": d, "seed": draw(st.integers(0, 10 ** 6)), "rows": draw(st.sampled_from([20, 8, 13, 31, 48, 70])), "frame": draw(st.booleans()),
         "dep": draw(st.sampled_from([0.0, .5, 2.0])), "kind": draw(st.sampled_from(["sin", "linear", "heavy", "scaled", "ranks"]))}
    groups = [[i] for i in range(d)]
    if multi and draw(st.sampled_from([True, True, False])):
        perm, groups, pos = list(draw(st.permutations(range(d)))), [], 0
        while pos < d:
            w = draw(st.sampled_from([1, 2, 3]))
            groups.append(perm[pos:pos + w])
            pos += w
        c["groups"] = groups
    perm = list(draw(st.permutations(range(len(groups)))))
    c["i"], c["parents"] = perm[0], perm[1:1 + draw(st.sampled_from([1, 2, 0, 3, 4]))]
    return c


def table(case):
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(case["rows"], case["d"]) if case["kind"] != "heavy" else rng.standard_t(2.5, size=(case["rows"], case["d"]))
    for k in range(1, case["d"]):
        X[:, k] += case["dep"] * (X[:, k - 1] if case["kind"] == "linear" else np.sin(2 * X[:, k - 1]))
    if case.get("spread"):
        X *= np.linspace(2.5, .4, len(X))[:, None]  # the first rows are not like the last
    if case["kind"] == "scaled":
        X = X * np.array([1000.0, .01, 1.0, 30.0, .1])[:case["d"]]
    if case["kind"] == "ranks":
        X = 2 * X.argsort(0).argsort(0) - len(X)
        X = (X + X.argsort(0).argsort(0) ** 2 // len(X)) // 2 if len(X) > 60 else X
    return X


def sq(a, b=None):
    b = a if b is None else b
    return ((a[:, None, :] - b[None, :, :]) ** 2).sum(-1)


def width(a):
    u = sq(a)[np.triu_indices(len(a), 1)]
    if u.min() < 1e-11 * ((a - a.mean(0)) ** 2).sum(1).max():    # the rounding of x² + y² - 2xy decides whether such a pair counts
        raise Reject
    return 2.5 * math.sqrt(.5 * np.median(u[u > 0]))


def features(X):
    T = len(X)
    H = np.eye(T) - 1 / T
    w, V = np.linalg.eigh(H @ np.exp(-sq(X) / 2 / width(X) ** 2) @ H)
    w, V = w[::-1], V[:, ::-1]
    n = min(400, T // 4)
    if (w[n - 1] - w[n]) < 1e-7 * w[0] and w[n - 1] > .9e-5 * w[0] or np.any(np.abs(w[:n] / w[0] / 1e-5 - 1) < 1e-3):
        raise Reject
    keep = w[:n] > w[0] * 1e-5
    return 2 * math.sqrt(T) * V[:, :n][:, keep] * np.sqrt(w[:n][keep] / w[0])


def best(X, parents):
    """log marginal likelihood maximised over the noise; parents: list of column groups."""
    Y = features(X)
    T, m = Y.shape
    S = sum((sq(p) / width(p) ** 2 for p in parents), np.zeros((T, T)))
    e, U = np.linalg.eigh(np.exp(-S / 2))
    Z = ((U.T @ Y) ** 2).sum(1)

    def nlml(t):
        v = np.maximum(e, 0) + math.exp(2 * t)
        return .5 * (Z / v).sum() + .5 * m * np.log(v).sum() + .5 * m * T * math.log(2 * math.pi)

    ts = np.linspace(-8, 6, 600)
    f = np.array([nlml(t) for t in ts])
    low = [k for k in range(1, 599) if f[k] < f[k - 1] and f[k] < f[k + 1]]
    if len(low) != 1 or f[0] <= f[low[0]] or f[-1] <= f[low[0]]:
        raise Reject
    k = low[0]
    return -minimize_scalar(nlml, bounds=(ts[k - 1], ts[k + 1]), method="bounded", options={"xatol": 1e-9}).fun


def judge(case, ctx, cls, groups):
    X = table(case)
    keep = X.copy()
    i, p = case["i"], case["parents"]
    want = best(X[:, groups[i]], [X[:, groups[j]] for j in p])
    kw = {"d_label": {k: g for k, g in enumerate(groups)}} if "groups" in case else {}
    make = lambda A: cls(tables.frame(A, ["v%d" % (17 * k % 23) for k in range(A.shape[1])]) if case["frame"] else tables.array(A), **kw)
    tol = dict(rtol=1e-6, atol=1e-5)
    s = make(X)
    ctx.close(float(s(i, p)), want, "marginal score of %d given %r" % (i, p), **tol)
    ctx.close(float(make(X)(i, tuple(p[::-1]))), want, "marginal score with the parents reversed", **tol)
    ctx.close(float(s(i, iter(p))), want, "marginal score with the parents as an iterator", **tol)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    order = np.random.RandomState(case["seed"] + 1).permutation(len(X))
    ctx.close(float(make(X[order])(i, p)), want, "marginal score of reordered rows", **tol)
    Y = X * (2.5 if case["seed"] % 2 else -.2) + 3.0 * X.std(0)
    if "groups" not in case:
        Y = (X + np.arange(case["d"]) * X.std(0)) * np.array([2.5, -1.5, 4.0, .5, 20.0])[:case["d"]]
    ctx.close(float(make(Y)(i, p)), want, "marginal score of shifted and rescaled columns", rtol=1e-5, atol=1e-4)
    if p:
        try:
            none = best(X[:, groups[i]], [])
        except Reject:
            return
        ctx.close(float(s(i, [])), none, "marginal score without parents", **tol)
    ctx.nontrivial(bool(p))
    ctx.label("parents %d" % len(p))


@SUITE.sub("general", strategy=cases(), quick=240, thorough=6000, shards=8)
def general(case, ctx):
    from cdmir.utils.local_score import GeneralMarginalScore
    judge(case, ctx, GeneralMarginalScore, [[k] for k in range(case["d"])])


@SUITE.sub("multi", strategy=cases(multi=True), quick=240, thorough=6000, shards=8)
def multi(case, ctx):
    from cdmir.utils.local_score import MultiMarginalScore
    judge(case, ctx, MultiMarginalScore, case.get("groups") or [[k] for k in range(case["d"])])


@st.composite
def likelihoods(draw):
    D = draw(st.sampled_from([1, 2, 3]))
    return {"n": draw(st.sampled_from([6, 2, 12, 25])), "D": D, "m": draw(st.sampled_from([1, 2, 4])), "ell": [draw(st.sampled_from([0.0, -.7, .9, 2.0])) for _ in range(D)],
            "sf": draw(st.sampled_from([0.0, -.5, .8])), "noise": draw(st.sampled_from([-1.1, 0.0, -2.0, .7])), "seed": draw(st.integers(0, 10 ** 6)), "array": draw(st.booleans())}


@SUITE.sub("likelihood", strategy=likelihoods(), quick=500, thorough=12000, shards=4)
def likelihood(case, ctx):
    from cdmir.utils.local_score import score_utils as U
    r = np.random.RandomState(case["seed"])
    n, D, m = case["n"], case["D"], case["m"]
    x, y = r.randn(n, D), r.randn(n, m)
    theta = np.array(case["ell"] + [case["sf"], case["noise"]])
    cov = ["covSum", ["covSEard", "covNoise"]]

    def K(t):
        return np.exp(2 * t[D]) * np.exp(-sq(x / np.exp(t[:D])) / 2)

    def nlml(t):
        C = K(t) + np.exp(2 * t[D + 1]) * np.eye(n)
        return .5 * np.trace(y.T @ np.linalg.solve(C, y)) + .5 * m * np.linalg.slogdet(C)[1] + .5 * m * n * math.log(2 * math.pi)

    mx, my = np.asmatrix(x), np.asmatrix(y)
    col = theta.reshape(-1, 1)
    keep = (mx.copy(), my.copy(), col.copy())
    ctx.close(np.asarray(U.covSEard(col[:-1], mx)), K(theta), "squared-exponential covariance", rtol=1e-8, atol=1e-10)
    ctx.close(np.asarray(U.covNoise(theta[-1], mx)), np.exp(2 * theta[-1]) * np.eye(n), "noise covariance")
    ctx.close(np.asarray(U.covNoise(theta[-1], mx, 0)), 2 * np.exp(2 * theta[-1]) * np.eye(n), "derivative of the noise covariance")
    ctx.close(np.asarray(U.covSum(cov[1], col, mx)), K(theta) + np.exp(2 * theta[-1]) * np.eye(n), "summed covariance", rtol=1e-8, atol=1e-10)
    ctx.close(np.asarray(U.covSum(cov[1], col, mx, D + 1)), 2 * np.exp(2 * theta[-1]) * np.eye(n), "derivative of the summed covariance by the noise", rtol=1e-8, atol=1e-10)
    want = nlml(theta)
    ctx.close(float(U.gpr_multi_new(col, list(cov), mx, my)), want, "negative log marginal likelihood", rtol=1e-7, atol=1e-7)
    value, grad = U.gpr_multi_new(col, list(cov), mx, my, None, 2)
    ctx.close(float(value), want, "negative log marginal likelihood with derivatives", rtol=1e-7, atol=1e-7)
    ctx.require(np.asarray(grad).size == D + 2, "gradient of %d entries for %d hyperparameters", np.asarray(grad).size, D + 2)
    e = np.zeros(D + 2)
    e[-1] = 1e-5
    ctx.close(float(np.asarray(grad).ravel()[-1]), (nlml(theta + e) - nlml(theta - e)) / 2e-5, "derivative by the noise", rtol=1e-4, atol=1e-4)
    ctx.require(all(np.array_equal(a, b) for a, b in zip((mx, my, col), keep)), "the likelihood changed its inputs")
    ctx.raises(Exception, lambda: U.gpr_multi_new(col[:-1], list(cov), mx, my), "too few hyperparameters")
    start = col.copy()
    got, trace, steps = U.minimize(start, "gpr_multi_new", -200, list(cov), mx, my)
    got = np.asarray(got, float).ravel()
    ctx.close(got[:-1], theta[:-1], "hyperparameters other than the noise", rtol=1e-12, atol=1e-12)
    ctx.require(nlml(got) <= want + 1e-9 * (1 + abs(want)), "minimising went from %r up to %r", want, nlml(got))
    slope = lambda t: (nlml(t + e) - nlml(t - e)) / 2e-5
    if abs(got[-1]) < 8:
        ctx.require(abs(slope(got)) <= 1e-3 * (1 + abs(slope(theta))), "slope %r at the minimiser's end, %r at its start", slope(got), slope(theta))
    ctx.nontrivial(n >= 2)


@st.composite
def shapes(draw):
    return {"n": draw(st.sampled_from([5, 2, 9, 20])), "m": draw(st.sampled_from([4, 1, 7])), "d": draw(st.sampled_from([2, 1, 4])), "seed": draw(st.integers(0, 10 ** 6)),
            "scale": draw(st.sampled_from([1.0, 100.0, .01])), "top": draw(st.sampled_from([1, 2, 3, 50]))}


@SUITE.sub("helpers", strategy=shapes(), quick=600, thorough=15000, shards=4)
def helpers(case, ctx):
    from cdmir.utils.local_score import score_utils as U
    r = np.random.RandomState(case["seed"])
    n, m, d, s = case["n"], case["m"], case["d"], case["scale"]
    a, b = r.randn(n, d) * s, r.randn(m, d) * s
    A, B = np.asmatrix(a), np.asmatrix(b)
    ctx.close(np.asarray(U.dist2(A, B)), sq(a, b), "squared distances", rtol=1e-7, atol=1e-9 * s * s)
    ctx.require(np.asarray(U.dist2(A, A)).min() >= 0, "a squared distance is negative")
    ctx.raises(Exception, lambda: U.dist2(A, np.asmatrix(r.randn(m, d + 1))), "points of different dimensions")
    for t0, t1 in ((.7 / s ** 2, 1.0), (2.0 / s ** 2, 3.5)):
        k, bw = U.kernel(A, B, (t0, t1))
        ctx.close(np.asarray(k), t1 * np.exp(-sq(a, b) * t0 / 2), "kernel", rtol=1e-7, atol=1e-9)
        ctx.close(bw, 1 / t0, "kernel bandwidth")
    ctx.close(np.asarray(U.sq_dist(A.T, B.T)), sq(a, b), "pairwise distances", rtol=1e-7, atol=1e-9 * s * s)
    ctx.close(np.asarray(U.sq_dist(A.T)), sq(a), "pairwise distances of one set", rtol=1e-7, atol=1e-9 * s * s)
    Q = r.randn(n, m)
    ctx.close(np.asarray(U.sq_dist(A.T, B.T, np.asmatrix(Q))).ravel(), [(Q * (a[:, [j]] - b[:, j]) ** 2).sum() for j in range(d)], "weighted coordinate distances", rtol=1e-7, atol=1e-8 * s * s)
    ctx.raises(Exception, lambda: U.sq_dist(A.T, B.T, np.asmatrix(r.randn(n + 1, m))), "weights of the wrong size")
    G = r.randn(n, n + 2)
    P = np.asmatrix(G @ G.T + .5 * np.eye(n))
    keep = P.copy()
    ctx.close(np.asarray(U.pdinv(P)), np.linalg.inv(np.asarray(P)), "inverse of a positive definite matrix", rtol=1e-6, atol=1e-8)
    ctx.close(np.asarray(U.solve_chol(np.asmatrix(np.linalg.cholesky(P).T), np.asmatrix(r.randn(n, m)) * 0 + 1)), np.linalg.solve(np.asarray(P), np.ones((n, m))), "solution from a Cholesky factor", rtol=1e-6, atol=1e-8)
    ctx.raises(Exception, lambda: U.solve_chol(np.asmatrix(np.eye(n)), np.asmatrix(np.ones((n + 1, 1)))), "factor and right side of different sizes")
    w = np.linalg.eigvalsh(np.asarray(P))[::-1]
    top = min(case["top"], n)
    ctx.close(np.asarray(U.eigdec(P, top, evals_only=True)), w[:top], "largest eigenvalues", rtol=1e-7)
    v, V = U.eigdec(P, top)
    V = np.asarray(V)
    ctx.close(np.asarray(v), w[:top], "largest eigenvalues, with vectors", rtol=1e-7)
    ctx.close(np.asarray(P) @ V, V * np.asarray(v), "eigenvectors", rtol=1e-6, atol=1e-7)
    ctx.close((V ** 2).sum(0), np.ones(top), "length of the eigenvectors", rtol=1e-7)
    for bad in (0, n + 1, 1.5):
        ctx.raises(Exception, lambda: U.eigdec(P, bad), "%r eigenvalues of %d" % (bad, n))
    ctx.require(np.array_equal(P, keep) and np.array_equal(A, a) and np.array_equal(B, b), "a helper changed its input")
    ctx.nontrivial(n >= 2)


@SUITE.sub("large", strategy=st.tuples(cases(), st.sampled_from([120, 205, 240])).map(lambda t: dict(t[0], rows=t[1], kind="sin", parents=t[0]["parents"][:2], spread=True)),
           quick=16, thorough=200, shards=8)
def large(case, ctx):
    from cdmir.utils.local_score import GeneralMarginalScore
    judge(case, ctx, GeneralMarginalScore, [[k] for k in range(case["d"])])
