"""O01: the one-component latent learner (OLC): cumulants, combined tests, surrogate regressions, well-formed results."""
import importlib
import math
from itertools import permutations

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import tables as guises
from harness.core import Reject, Suite

SUITE = Suite("O01", "random four-column samples of 4-7 rows (and large ones for the identities) with shifts and repeated columns; p-value lists of 1-8 entries from 0 to 1; random mixing matrices and "
              "subsets for the surrogate regressions; tables of 30-120 rows from one- and two-latent, chain and independent models with 2-5 columns, as arrays, integer arrays and frames; oracle: averages over "
              "all tuples of distinct rows, the chi-square series, NumPy's least squares, structural invariants, repetition and other containers for the whole learner; non-trivial: at least two distinct columns, respectively an edge",
              ["singular problems inside the learner are rejected; its accuracy is not judged"])


def olc():
    return importlib.import_module("cdmir.discovery.funtional_based.one_component.olc")


PARTITIONS = None


def partitions():
    global PARTITIONS
    if PARTITIONS is None:
        def grow(k):
            if k == 0:
                return [[]]
            out = []
            for p in grow(k - 1):
                out.append(p + [[k - 1]])
                out += [p[:b] + [p[b] + [k - 1]] + p[b + 1:] for b in range(len(p))]
            return out
        PARTITIONS = grow(4)
    return PARTITIONS


def distinct_mean(blocks):
    """Average of the products of columns over distinct rows, by inclusion and exclusion over coinciding rows."""
    m, n = len(blocks), len(blocks[0])
    total = 0.0
    for p in {tuple(tuple(b for b in c if b < m) for c in q if any(b < m for b in c)) for q in partitions()}:
        total += math.prod((-1) ** (len(c) - 1) * math.factorial(len(c) - 1) * np.prod([blocks[b] for b in c], axis=0).sum() for c in p)
    return total / math.perm(n, m)


def cumulant(X):
    """Unbiased joint cumulant: products of moments averaged over distinct rows."""
    n, total = len(X), 0.0
    for p in partitions():
        m = len(p)
        if n > 7:
            total += (-1) ** (m - 1) * math.factorial(m - 1) * distinct_mean([np.prod(X[:, b], axis=1) for b in p])
            continue
        rows = np.array(list(permutations(range(n), m)))
        prod = np.ones(len(rows))
        for k, block in enumerate(p):
            prod *= np.prod(X[rows[:, k]][:, block], axis=1)
        total += (-1) ** (m - 1) * math.factorial(m - 1) * prod.mean()
    return total


@st.composite
def samples(draw):
    return {"n": draw(st.sampled_from([5, 4, 6, 7])), "seed": draw(st.integers(0, 10 ** 6)), "cols": [draw(st.sampled_from([0, 1, 2, 3])) for _ in range(4)] if draw(st.booleans()) else [0, 1, 2, 3],
            "shift": draw(st.sampled_from([0.0, 3.0, -10.0])), "law": draw(st.sampled_from(["exp", "normal", "integers"]))}


@SUITE.sub("cumulant", strategy=samples(), quick=1200, thorough=30000, shards=4)
def cumulants(case, ctx):
    lib = olc()
    r = np.random.RandomState(case["seed"])
    n = case["n"]
    B = {"exp": lambda: r.exponential(size=(n, 4)), "normal": lambda: r.randn(n, 4), "integers": lambda: r.randint(-3, 4, (n, 4)).astype(float)}[case["law"]]()
    X = B[:, case["cols"]]
    keep = X.copy()
    ctx.close(float(lib.xcum4(X)), cumulant(X), "fourth joint cumulant", rtol=1e-8, atol=1e-9)
    ctx.close(float(lib.xcum4(X + case["shift"] * np.arange(1, 5))), cumulant(X), "cumulant of shifted columns", rtol=1e-6, atol=1e-7)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    for bad in (X[:, :3], np.column_stack([X, X[:, 0]]), X[:, :1]):
        ctx.raises(Exception, lambda: lib.xcum4(bad), "%d columns" % bad.shape[1])
    L = r.exponential(size=(300, 6))
    a, w = float(lib.xcum4(L[:, [0, 1, 1, 2]])), r.uniform(-2, 2, 2)
    b = float(lib.xcum4(L[:, [3, 1, 1, 2]]))
    mix = L[:, [0, 1, 1, 2]].copy()
    mix[:, 0] = w[0] * L[:, 0] + w[1] * L[:, 3] + 4
    ctx.close(float(lib.xcum4(mix)), w[0] * a + w[1] * b, "cumulant of a linear combination", rtol=1e-7, atol=1e-9)
    p = r.permutation(4)
    ctx.close(float(lib.xcum4(L[r.permutation(300)][:, [0, 1, 1, 2]][:, p])), a, "cumulant with rows and columns permuted", rtol=1e-8, atol=1e-10)
    Z = lib.normalize(L * 3 - 1)
    ctx.close(Z, (L - L.mean(0)) / np.sqrt(((L - L.mean(0)) ** 2).mean(0)), "normalised columns", rtol=1e-9, atol=1e-10)
    ctx.close(lib.normalize(L[:, 2]), Z[:, 2], "a normalised column", rtol=1e-9, atol=1e-10)
    ctx.nontrivial(len(set(case["cols"])) >= 2)


@st.composite
def pvalues(draw):
    return {"p": [draw(st.sampled_from([.5, .01, 1.0, 0.0, 1e-5, 9e-6, 1e-12, .2, .9, .05, 2e-5])) for _ in range(draw(st.sampled_from([2, 1, 3, 5, 8])))]}


@SUITE.sub("combined", strategy=pvalues(), quick=1500, thorough=30000, shards=4)
def combined(case, ctx):
    lib = olc()
    p = list(case["p"])
    q = [max(v, 1e-5) for v in p]
    half, k = -sum(math.log(v) for v in q), len(q)
    want = math.exp(-half) * sum(half ** j / math.factorial(j) for j in range(k))
    ctx.close(float(lib.fisher_test(p)), want, "combination of %r" % (p,), rtol=1e-7, atol=1e-12)
    ctx.close(float(lib.fisher_test(np.array(p[::-1]))), want, "combination in reverse", rtol=1e-7, atol=1e-12)
    ctx.require(p == case["p"], "the p-values were modified")
    ctx.nontrivial(len(p) >= 2)


@st.composite
def regressions(draw):
    d = draw(st.sampled_from([4, 3, 6]))
    k = draw(st.sampled_from([1, 2, 3]))
    k = min(k, d - 2)
    p = list(draw(st.permutations(range(d))))
    return {"d": d, "X": p[:k + 1], "z": p[k + 1], "mod": draw(st.booleans()), "exo": list(draw(st.permutations(range(2 * d))))[:k], "n": draw(st.sampled_from([20, 5, 60])), "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("surrogates", strategy=regressions(), quick=1500, thorough=30000, shards=4)
def surrogates(case, ctx):
    lib = olc()
    r = np.random.RandomState(case["seed"])
    d, n, X, exo = case["d"], case["n"], list(case["X"]), list(case["exo"])
    data, A = r.randn(n, d), r.uniform(.3, 2, (2 * d, 2 * d)) * r.choice([-1, 1], (2 * d, 2 * d))
    if case["mod"]:
        X = X[:-1]
    keep = data.copy(), A.copy(), list(X), list(exo)
    e = np.asarray(lib.surrogate_regression(data, A, X, exo, mod_omega=True, z=case["z"]) if case["mod"] else lib.surrogate_regression(data, A, X, exo), float)
    ctx.require(np.array_equal(data, keep[0]) and np.array_equal(A, keep[1]) and X == keep[2] and exo == keep[3], "an argument was modified")
    V = X + [case["z"]] if case["mod"] else X
    ctx.require(e.shape == (n,), "shape %r", e.shape)
    S = A[np.ix_(V, exo)]
    if np.linalg.cond(S) > 1e6:
        raise Reject
    w = np.array([(-1) ** j * np.linalg.det(np.delete(S, j, 0)) for j in range(len(V))])   # the one direction orthogonal to every column
    w = w / w[-1] if case["mod"] else w / np.linalg.norm(w)
    if case["mod"] and np.abs(w).max() > 1e4:
        raise Reject
    want = data[:, V] @ w
    if not case["mod"] and e @ want < 0:
        want = -want
    ctx.close(e, want, "surrogate regression of %r on %r" % (V, exo), rtol=1e-6, atol=1e-6)
    ctx.nontrivial(len(V) >= 2)
    ctx.label("last coefficient one", case["mod"])


@st.composite
def tables(draw):
    return {"model": draw(st.sampled_from(["latent", "two latents", "chain", "independent", "latent and arrows"])), "d": draw(st.sampled_from([4, 3, 5, 2])), "n": draw(st.sampled_from([60, 30, 120])),
            "seed": draw(st.integers(0, 10 ** 6)), "alpha": draw(st.sampled_from([.05, .01, .3])), "beta": draw(st.sampled_from([.01, .05, .2])), "law": draw(st.sampled_from(["exp", "uniform"]))}


@SUITE.sub("learner", strategy=tables(), quick=240, thorough=5000, shards=8)
def learner(case, ctx):
    lib = olc()
    r = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    draw = (lambda *s: r.exponential(size=s) - 1) if case["law"] == "exp" else (lambda *s: r.uniform(-1.7, 1.7, size=s))
    X = draw(n, d) * (.5 if "latent" in case["model"] else 1.0)
    L = draw(n, 2)
    if "latent" in case["model"]:
        for j in range(d):
            X[:, j] += r.uniform(.8, 1.6) * L[:, j % 2 if case["model"] == "two latents" else 0]
    if case["model"] in ("chain", "latent and arrows"):
        for j in range(1, d):
            X[:, j] += X[:, j - 1] * r.uniform(.8, 1.5)
    def run(T):
        try:
            return lib.olc(T, case["alpha"], case["beta"])
        except np.linalg.LinAlgError:
            raise Reject

    keep = X.copy()
    adj, coef = run(X)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    m = len(adj)
    ctx.require(adj.shape == coef.shape == (m, m) and m >= d, "shapes %r and %r for %d columns", adj.shape, coef.shape, d)
    ctx.require(set(np.unique(adj)) <= {0, 1, 2}, "marks %r", np.unique(adj))
    ctx.require(np.all(adj.diagonal() == 0), "a node is joined to itself")
    two = adj == 2
    ctx.require(np.array_equal(two, two.T) and not two[d:].any(), "undirected entries %r", adj.tolist())
    ctx.require(not ((adj == 1) & (adj.T != 0)).any(), "a pair is joined twice: %r", adj.tolist())
    ctx.require(not adj[d:].any(), "a latent variable has a parent: %r", adj.tolist())
    ctx.require(np.all(adj[:d, d:].sum(0) >= 3), "a latent variable has fewer than three children: %r", adj.tolist())
    ctx.require(np.all((coef == 0) | (adj == 1)), "a coefficient without an arrow: %r, %r", adj.tolist(), coef.tolist())
    ctx.require(np.all(np.isfinite(coef[:, d:])), "a loading is not finite: %r", coef.tolist())
    again = run(X.copy())
    ctx.require(np.array_equal(again[0], adj) and np.array_equal(again[1], coef, equal_nan=True), "a second run gives another result")
    a, c = run(guises.frame(X, ["c%d" % (d - k) for k in range(d)]))
    ctx.require(np.array_equal(a, adj), "a frame: adjacency %r instead of %r", a.tolist(), adj.tolist())
    Z = np.floor(X * 8)
    a, c = run(Z)
    b, e = run(Z.astype(int))
    ctx.require(np.array_equal(a, b) and np.array_equal(c, e, equal_nan=True), "integers: %r instead of %r", b.tolist(), a.tolist())
    ctx.nontrivial(bool(adj.any()))
    ctx.label(case["model"])
    ctx.label("a latent variable", m > d)


@st.composite
def factors(draw):
    d = draw(st.sampled_from([3, 4, 5]))
    return {"w": [draw(st.sampled_from([1.0, -1.3, .8, 1.7, -.9])) for _ in range(d)], "law": draw(st.sampled_from(["exp", "uniform"])), "sd": draw(st.sampled_from([1.0, 2.0, .5])), "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("one_latent", strategy=factors(), quick=160, thorough=3000, shards=8)
def one_latent(case, ctx):
    """With a test that judges dependence by clear correlations of the variables and their squares, the latent variable of all columns and its loadings come back."""
    lib = olc()
    r = np.random.RandomState(case["seed"])
    n, d, w = 20000, len(case["w"]), np.array(case["w"])
    draw = (lambda *s: r.exponential(size=s) - 1) if case["law"] == "exp" else (lambda *s: r.uniform(-3 ** .5, 3 ** .5, size=s))
    X = (draw(n, 1) * w + .7 * draw(n, d)) * case["sd"]
    X += np.arange(d)
    real, close = lib.KCI, []

    class Clear:
        def __init__(self, *a, **k):
            pass

        def test(self, x, y):
            x, y = (v.ravel() - v.mean() for v in (x, y))
            c = max(abs(np.corrcoef(f, g)[0, 1]) for f in (x, np.abs(x)) for g in (y, np.abs(y)))
            close.append(.035 < c < .1)
            return (1.0 if c < .06 else 0.0), c

    lib.KCI = Clear
    try:
        adj, coef = lib.olc(X)
    finally:
        lib.KCI = real
    if any(close):
        raise Reject
    ctx.require(len(adj) > d and np.all(adj[:d, d] == 1), "adjacency %r for %d indicators of one latent variable", adj.tolist(), d)
    if d == 3:
        want = np.zeros((d + 1, d + 1), int)
        want[:d, d] = 1
        ctx.require(np.array_equal(adj, want), "adjacency %r for three indicators of one latent variable", adj.tolist())
        ctx.require(not np.delete(coef, d, 1).any(), "coefficients %r", coef.tolist())
    right = max((np.abs(sign * coef[:d, d] / (w * case["sd"]) - 1) < .25).sum() for sign in (1, -1))
    ctx.require(right >= 3, "loadings %r for %r", coef[:d, d].tolist(), (w * case["sd"]).tolist())
    ctx.nontrivial()
    ctx.label("%d indicators" % d)


# many samples: blocked or thinned computations would show
SUITE.sub("cumulant many rows", strategy=st.tuples(samples(), st.sampled_from([40, 300, 1500])).map(lambda t: dict(t[0], n=t[1])), quick=200, thorough=5000, shards=4)(cumulants)
SUITE.sub("surrogates many rows", strategy=st.tuples(regressions(), st.sampled_from([1100, 3000])).map(lambda t: dict(t[0], n=t[1])), quick=100, thorough=2000, shards=4)(surrogates)
