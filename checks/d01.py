"""D01: linear simulation against the structural equations it claims to sample."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite, same
from harness.noise import check_family, check_mean_zero, check_uncorrelated

SUITE = Suite("D01", "random weighted DAGs over 1-6 (and 11-23) nodes in random node order (integer or float weights, array or dataframe), every noise type, "
              "default, scalar and per-variable scales (list, array, NumPy scalars), random seeds and sizes 1-3000; oracles: column minus weighted parents is "
              "noise of the given family and scale (Kolmogorov-Smirnov and mean tests with a 1e-10 threshold), independent across columns; "
              "residuals unchanged when the weights change; changing one variable's scale changes every column by exactly the total effect; Bernoulli/Poisson calibration; "
              "implied covariance in population mode; non-trivial: at least one edge", ["for logistic and Poisson noise the value is drawn from the model's conditional distribution"])

ADD = ["gauss", "exp", "gumbel", "uniform", "laplace"]


@st.composite
def models(draw, max_n=6, big=True, wmax=2.0):
    d = draw(hg.dags(min_n=1, max_n=max_n))
    perm = draw(st.permutations(range(d["n"])))
    edges = [[perm[a], perm[b]] for a, b in d["edges"]]
    wint = draw(st.booleans())
    w = st.sampled_from([1, -1, 2, -2]) if wint else st.sampled_from([.5, -1.25, wmax, -.3, .8, -wmax, 1e-3, -1e-5, 1e-8])
    kind = draw(st.sampled_from([None, "scalar", "intscalar", "list", "array", "intarray"]))
    return {"n": d["n"], "edges": edges, "weights": [draw(w) for _ in edges], "wint": wint, "frame": draw(st.booleans()), "scale_kind": kind,
            "scales": [draw(st.sampled_from([1.0, .2, 3.0, 2.0] if kind not in ("intscalar", "intarray") else [1, 2, 3])) for _ in range(d["n"])],
            "noise": draw(st.sampled_from(ADD)), "seed": draw(st.sampled_from([0, 1, 7, 42])) if draw(st.booleans()) else draw(st.integers(0, 2 ** 32 - 1)),
            "rows": draw(st.sampled_from([1500, 3000, 700] if big else [40, 1, 2, 300]))}


def weight_matrix(case, bump=None):
    W = np.zeros((case["n"],) * 2, dtype=int if case["wint"] else float)
    for (a, b), w in zip(case["edges"], case["weights"]):
        W[a, b] = w if bump is None else w * bump
    return W


def scales(case):
    """-> (argument for noise_scale, list of effective scales)"""
    k, s, n = case["scale_kind"], case["scales"], case["n"]
    if k is None:
        return None, [1.0] * n
    if k in ("scalar", "intscalar"):
        return s[0], [s[0]] * n
    return (list(s) if k == "list" else np.array(s)), list(s)


def simulate(W, case, arg, frame=False, **kw):
    from cdmir.datasets.simlulators import IIDSimulator
    W = pd.DataFrame(W) if frame else tables.array(W)
    args = dict(n_samples=case["rows"], noise_type=case["noise"], seed=case["seed"])
    if arg is not None:
        args["noise_scale"] = arg
    args.update(kw)
    return IIDSimulator.simulate_linear_anm(W, **args)


@SUITE.sub("residuals", strategy=models(), quick=350, thorough=10000, shards=8)
def residuals(case, ctx):
    W, (arg, eff) = weight_matrix(case), scales(case)
    n, keep, karg = case["n"], W.copy(), None if arg is None else np.array(arg)
    Wf = W.astype(float)
    X = simulate(W, case, arg, frame=case["frame"])
    ctx.require(isinstance(X, np.ndarray) and X.shape == (case["rows"], n), "shape %r", getattr(X, "shape", None))
    big = max(1.0, np.abs(X).max())
    E = X - X @ Wf
    for j in range(n):
        check_family(ctx, E[:, j], case["noise"], eff[j], "column %d of weights %r" % (j, W.tolist()))
        for k in range(j):
            check_uncorrelated(ctx, E[:, j], E[:, k], "noise of columns %d and %d" % (k, j))
        check_uncorrelated(ctx, E[1:, j], E[:-1, j], "successive noise of column %d" % j)
    ctx.require(np.array_equal(W, keep) and (arg is None or np.array_equal(karg, np.array(arg))), "an input was modified")
    np.random.rand(5)
    ctx.require(same(simulate(W, case, arg), X), "the same seed gives other data")
    if case["rows"] > 20:
        Y = simulate(W, case, arg, seed=(case["seed"] + 1) % 2 ** 32)
        ctx.require(not np.array_equal(Y, X), "another seed gives the same data")
    # noise does not depend on the weights, and an intervention on one scale reaches exactly the descendants
    W2 = weight_matrix(case, bump=2)
    E2 = (lambda Y: Y - Y @ W2)(simulate(W2, case, arg))
    ctx.close(E2, E, "noise after doubling the weights", rtol=1e-6, atol=1e-8 * big * 64)
    k = case["seed"] % n
    new = [float(s) for s in eff]
    new[k] *= 2
    Y = simulate(W, case, new)
    effect = np.linalg.inv(np.eye(n) - Wf)[k]
    ctx.close(Y - X, np.outer(Y[:, k] - X[:, k], effect), "effect of more noise on %d, weights %r" % (k, W.tolist()), rtol=1e-6, atol=1e-14 * big * 64)
    pa = hg.parents_of(n, [tuple(e) for e in case["edges"]])
    for j in range(n):
        if j != k and k not in hg.ancestors(pa, {j}):
            ctx.require(same(Y[:, j], X[:, j]), "column %d changes with the noise scale of %d, which is no ancestor (edges %r)", j, k, case["edges"])
    ctx.nontrivial(len(case["edges"]) > 0)
    ctx.label(case["noise"])
    ctx.label("scale %s" % case["scale_kind"])


@SUITE.sub("exact_small", strategy=models(big=False), quick=300, thorough=6000, shards=4)
def small(case, ctx):
    """Small samples: additivity in the noise, shape and determinism for sizes down to one row."""
    W, (arg, eff) = weight_matrix(case), scales(case)
    n = case["n"]
    X = simulate(W, case, arg, frame=case["frame"])
    ctx.require(X.shape == (case["rows"], n), "shape %r", X.shape)
    zero = np.zeros((n, n))
    E0 = simulate(zero, case, [1.0] * n)
    E = X - X @ W.astype(float)
    order = np.argsort([0] * n)
    big = max(1.0, np.abs(X).max())
    # roots are simulated from the same family whatever the weights: supports hold exactly even for one row
    for j in order:
        x = E[:, j] / eff[j]
        if case["noise"] == "exp":
            ctx.require(x.min() > -1e-7 * big, "exponential noise of column %d is negative: %r", j, x.min())
        if case["noise"] == "uniform":
            ctx.require(np.abs(x).max() < 1 + 1e-7 * big, "uniform noise of column %d exceeds its scale: %r", j, np.abs(x).max())
    ctx.require(len(np.unique(np.round(E0, 12))) == E0.size, "noise values repeat")
    ctx.close(simulate(W, case, [3.0 * s for s in eff]), 3 * X, "data after scaling all noise by three", rtol=1e-7, atol=1e-9 * big)
    ctx.nontrivial(len(case["edges"]) > 0)


@st.composite
def wide(draw):
    n = draw(st.sampled_from([12, 11, 14, 23]))
    rng = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    perm = rng.permutation(n)
    p = draw(st.sampled_from([.25, .6, .1]))
    edges = [[int(perm[a]), int(perm[b])] for a in range(n) for b in range(a + 1, n) if rng.rand() < p]
    return {"n": n, "edges": edges, "weights": [float(rng.choice([-1, 1]) * rng.uniform(.1, .6)) for _ in edges], "wint": False, "frame": draw(st.booleans()), "scale_kind": "list",
            "scales": [float(rng.choice([.2, 1.0, 3.0])) for _ in range(n)], "noise": draw(st.sampled_from(ADD)), "seed": draw(st.integers(0, 10 ** 6)), "rows": 250}


@SUITE.sub("many_nodes", strategy=wide(), quick=120, thorough=3000, shards=4)
def many(case, ctx):
    residuals(case, ctx)


@st.composite
def glm(draw):
    d = draw(models(max_n=4, wmax=.6))
    d["noise"] = draw(st.sampled_from(["logistic", "poisson"]))
    if d["noise"] == "poisson":
        d["weights"] = [draw(st.sampled_from([.2, -.5, -.2, .1])) for _ in d["edges"]]
        d["wint"] = False
    return d


@SUITE.sub("logistic_and_poisson", strategy=glm(), quick=250, thorough=6000, shards=4)
def discrete(case, ctx):
    W, n = weight_matrix(case), case["n"]
    X = simulate(W, case, None, frame=case["frame"])
    ctx.require(X.shape == (case["rows"], n) and np.array_equal(X, np.round(X)) and X.min() >= 0, "values %r", np.unique(X)[:5])
    L = X @ W.astype(float)
    for j in range(n):
        if case["noise"] == "logistic":
            ctx.require(X.max() <= 1, "logistic values above one")
            p = 1 / (1 + np.exp(-L[:, j]))
            mean, var = p, p * (1 - p)
        else:
            mean = np.exp(L[:, j])
            var = mean
        r = X[:, j] - mean
        check_mean_zero(ctx, r, var, np.ones(len(r)), "column %d (%s) against its conditional mean" % (j, case["noise"]))
        for k in range(n):
            if W[k, j] and X[:, k].std():
                check_mean_zero(ctx, r, var, X[:, k] - X[:, k].mean(), "column %d (%s) against parent %d" % (j, case["noise"], k))
        q = r ** 2 - var
        check_mean_zero(ctx, q, var * (1 + 3 * var) if case["noise"] == "poisson" else var, np.ones(len(r)), "dispersion of column %d (%s)" % (j, case["noise"]))
    ctx.require(same(simulate(W, case, None), X), "the same seed gives other data")
    ctx.nontrivial(len(case["edges"]) > 0)
    ctx.label(case["noise"])


@SUITE.sub("population", strategy=models(), quick=300, thorough=5000, shards=2)
def population(case, ctx):
    W, (arg, eff) = weight_matrix(case), scales(case)
    n = case["n"]
    X = simulate(W, case, arg, n_samples=None, noise_type="gauss", frame=case["frame"])
    ctx.require(np.shape(X) == (n, n), "shape %r", np.shape(X))
    I = np.linalg.inv(np.eye(n) - W)
    X = np.asarray(X, dtype=float)
    ctx.close(X.T @ X / n, I.T @ np.diag(np.square(eff).astype(float)) @ I, "second moment of the population matrix of %r with scales %r" % (W.tolist(), eff), rtol=1e-9)
    for bad in ["exp", "gumbel", "uniform", "laplace", "logistic", "poisson"]:
        ctx.raises(Exception, lambda: simulate(W, case, arg, n_samples=None, noise_type=bad), "population mode with %s noise" % bad)
    ctx.nontrivial(len(case["edges"]) > 0)


@SUITE.sub("rejections", strategy=models(big=False), quick=150, thorough=2000, shards=2)
def rejections(case, ctx):
    W, n = weight_matrix(case), case["n"]
    for bad in ("normal", "", "Gauss", None, "logistics"):
        ctx.raises(Exception, lambda: simulate(W, case, None, noise_type=bad), "noise type %r" % (bad,))
    for m in {max(2, n - 1), n + 1, n + 3} - {n}:
        for arg in ([1.0] * m, np.ones(m)):
            ctx.raises(Exception, lambda: simulate(W, case, arg), "%d scales for %d variables" % (m, n))
    # any cycle, self-loops included
    rng = np.random.RandomState(case["seed"])
    size = rng.randint(1, n + 1)
    cyc = rng.permutation(n)[:size]
    C = W.copy()
    for a, b in zip(cyc, np.roll(cyc, -1)):
        C[a, b] = 1
    for rows in (10, None):
        ctx.raises(Exception, lambda: simulate(C, case, None, n_samples=rows, noise_type="gauss"), "cyclic weights %r (n_samples %r)" % (C.tolist(), rows))
    ctx.nontrivial(n > 1)
