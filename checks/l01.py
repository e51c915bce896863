"""L01: ICA-LiNGAM against the generating model, for every column order."""
import warnings

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite, same

SUITE = Suite("L01", "random linear acyclic models of 2-5 variables with weights of magnitude 0.7-1.6, uniform, Laplace or exponential noise, 3000 centred samples, "
              "random column order, array or dataframe, pruning levels 0-1; every model is fitted from up to ten ICA initialisations; the same with 60-1500 samples far from the origin, and well-formed results for 6-8 variables, recovered coefficients for 6-7; oracles: acyclicity, "
              "least-squares rows, nested supports over pruning levels for every fit, the true coefficients unpruned for at least two of ten fits and the true edges pruned (one of ten for five variables or exponential noise); non-trivial: at "
              "least one edge and a column order that is not causal",
              ["scikit-learn's FastICA stops at a wrong solution in about one fit in a hundred, hence two right ones of ten are required",
               "samples are centred for recovery: the Wald statistic of the pruning step is computed from uncentred data (known finding)"])
TOL = .2


@st.composite
def models(draw):
    n = draw(st.sampled_from([3, 4, 2, 5]))
    d = draw(hg.dags(min_n=n, max_n=n))
    perm = list(draw(st.permutations(range(n))))
    return {"n": n, "edges": [[perm[a], perm[b]] for a, b in d["edges"]], "weights": [draw(st.sampled_from([1.0, -.8, 1.5, -1.2, .7])) for _ in d["edges"]],
            "noise": draw(st.sampled_from(["uniform", "exp", "laplace"])), "seed": draw(st.integers(0, 10 ** 6)), "alpha": draw(st.sampled_from([.05, .01, .3, .001])), "frame": draw(st.booleans())}


def data(case, N=3000):
    rng, n = np.random.RandomState(case["seed"]), case["n"]
    E = {"uniform": lambda: rng.uniform(-1, 1, (N, n)), "laplace": lambda: rng.laplace(size=(N, n)), "exp": lambda: rng.exponential(size=(N, n))}[case["noise"]]()
    E = E / E.std(axis=0) * rng.uniform(.7, 1.4, n)
    B = np.zeros((n, n))
    for (a, b), w in zip(case["edges"], case["weights"]):
        B[b, a] = w
    X = E @ np.linalg.inv(np.eye(n) - B).T
    return X - X.mean(axis=0), B


def fit(X, alpha, seed):
    from cdmir.discovery.funtional_based import ICA_LINGAM
    m = ICA_LINGAM() if alpha is None else ICA_LINGAM(wald_alpha=alpha)
    np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X)
    return np.array(m.get_coef(), dtype=float), np.array(m.get_causal_graph())


def wellformed(ctx, X, B, G, n):
    ctx.require(B.shape == (n, n) and np.isfinite(B).all(), "coefficients %r", B)
    ctx.require(np.array_equal(G != 0, B != 0), "causal graph %r, coefficients %r", G.tolist(), B.tolist())
    ctx.require(np.isin(G, (0, 1)).all(), "causal graph entries %r", G.tolist())
    ctx.require(hg.is_acyclic(n, [(int(b), int(a)) for a, b in np.argwhere(B != 0)]), "cyclic result %r", B.tolist())
    Xc = X - X.mean(axis=0)
    for i in range(n):
        S = np.nonzero(B[i])[0]
        if len(S):
            ols = np.linalg.lstsq(Xc[:, S], Xc[:, i], rcond=None)[0]
            ctx.close(B[i, S], ols, "row %d of the coefficients against least squares on its parents %r" % (i, S.tolist()), rtol=1e-6, atol=1e-7)


@SUITE.sub("recovery", strategy=models(), quick=250, thorough=6000, shards=8)
def recovery(case, ctx):
    X, B0 = data(case)
    n = case["n"]
    keep = X.copy()
    arg = tables.frame(X, ["c%d" % (17 * k % 23) for k in range(n)]) if case["frame"] else tables.array(X)
    good, kept, seen = 0, 0, []
    for s in range(10):
        B, G = fit(arg, case["alpha"], s)
        wellformed(ctx, X, B, G, n)
        full, G = fit(arg, 1.0, s)  # nothing pruned: the causal order alone
        wellformed(ctx, X, full, G, n)
        good += np.abs(full - B0).max() < TOL
        kept += np.abs(B - B0).max() < TOL and np.all((B != 0) >= (B0 != 0))
        seen.append(np.round(B, 2).tolist())
        if s == 0:
            first = B
            again, _ = fit(arg, case["alpha"], s)
            ctx.require(same(again, B, 1e-5), "the same random state gives another result")
            other, _ = fit(X if case["frame"] else tables.frame(X, salt=1), case["alpha"], s)
            ctx.close(other, B, "array against dataframe")
        if good >= 2 and kept >= 2:
            break
    ctx.require(good >= 2, "unpruned, %d of ten fits match the true coefficients %r", good, B0.tolist())
    hard = n == 5 or case["noise"] == "exp"
    ctx.require(kept >= (1 if hard else 2), "of ten fits %d match the true coefficients %r (alpha %r); fits %r", kept, B0.tolist(), case["alpha"], seen)
    # pruning levels, from one ICA solution
    prev = None
    for alpha in (0.0, 1e-6, .01, .05, .3, .7, 1.0):
        B, G = fit(X, alpha, 0)
        wellformed(ctx, X, B, G, n)
        if prev is not None:
            extra = (prev != 0) & (B == 0)
            ctx.require(not extra.any(), "edges %r vanish when the level is relaxed to %r", np.argwhere(extra).tolist(), alpha)
        if alpha == case["alpha"]:
            ctx.close(B, first, "refit at level %r" % alpha)
        prev = B
    ctx.require(np.count_nonzero(B) == n * (n - 1) // 2, "level 1 prunes nothing, yet %d of %d edges remain", np.count_nonzero(B), n * (n - 1) // 2)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    causal = all(a < b for a, b in case["edges"])
    ctx.nontrivial(len(case["edges"]) > 0 and not causal)
    ctx.label("n=%d" % n)
    ctx.label(case["noise"])


@st.composite
def placed(draw):
    d = draw(models())
    d.update(alpha=draw(st.sampled_from([1.0, .5, .05, .999])), rows=draw(st.sampled_from([400, 60, 1500])), place=draw(st.sampled_from([3.0, -40.0, 1000.0])))
    return d


@SUITE.sub("rows_of_placed_data", strategy=placed(), quick=200, thorough=5000, shards=8)
def rows_of_placed_data(case, ctx):
    """Whatever survives pruning, and wherever the columns lie: acyclic, least-squares rows with an intercept; level one prunes nothing."""
    X, _ = data(case, case["rows"])
    n = case["n"]
    X = X + case["place"] * np.random.RandomState(case["seed"]).randn(n)
    keep = X.copy()
    B, G = fit(X, case["alpha"], 0)
    ctx.require(B.shape == (n, n) and np.isfinite(B).all(), "coefficients %r", B)
    ctx.require(np.array_equal(G != 0, B != 0), "causal graph %r, coefficients %r", G.tolist(), B.tolist())
    ctx.require(hg.is_acyclic(n, [(int(b), int(a)) for a, b in np.argwhere(B != 0)]), "cyclic result %r", B.tolist())
    Xc = X - X.mean(axis=0)
    for i in range(n):
        S = np.nonzero(B[i])[0]
        if len(S):
            ols = np.linalg.lstsq(Xc[:, S], Xc[:, i], rcond=None)[0]
            ctx.close(B[i, S], ols, "row %d of the coefficients against least squares on its parents %r" % (i, S.tolist()), rtol=1e-4, atol=1e-5)
    if case["alpha"] == 1.0:
        ctx.require(np.count_nonzero(B) == n * (n - 1) // 2, "level 1 prunes nothing, yet %d of %d edges remain", np.count_nonzero(B), n * (n - 1) // 2)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    ctx.nontrivial(np.count_nonzero(B) > 0)
    ctx.label("level %s" % case["alpha"])


@st.composite
def larger(draw):
    n = draw(st.sampled_from([6, 7, 6, 7, 8]))
    seed = draw(st.integers(0, 10 ** 6))
    rng = np.random.RandomState(seed)
    perm = [int(v) for v in rng.permutation(n)]
    dense = draw(st.sampled_from([.4, .9, 1.0]))
    edges = [[perm[a], perm[b]] for a in range(n) for b in range(a + 1, n) if rng.rand() < dense]
    return {"n": n, "edges": edges, "weights": [float(rng.choice([.5, -.4, .6])) for _ in edges], "noise": draw(st.sampled_from(["uniform", "laplace"])), "seed": seed, "frame": False,
            "alpha": draw(st.sampled_from([1.0, .3, .05])), "rows": draw(st.sampled_from([200, 500])), "place": draw(st.sampled_from([3.0, 0.0, -40.0]))}


SUITE.sub("larger_models", strategy=larger(), quick=48, thorough=900, shards=8)(rows_of_placed_data)


@SUITE.sub("recovery_larger", strategy=larger(), quick=24, thorough=400, shards=8)
def recovery_larger(case, ctx):
    kept = [k for k, e in enumerate(case["edges"]) if max(e) < 7]
    case = dict(case, n=min(case["n"], 7), noise="uniform", edges=[case["edges"][k] for k in kept], weights=[1.5 * case["weights"][k] for k in kept])
    X, B0 = data(case, 3000)
    gaps = []
    for s in range(4):
        gaps.append(np.abs(fit(X, 1.0, s)[0] - B0).max())
        if gaps[-1] < TOL:
            break
    ctx.require(gaps[-1] < TOL, "unpruned, four fits are off by %r from the true coefficients %r", gaps, B0.tolist())
    ctx.nontrivial(len(case["edges"]) > 0)


@st.composite
def perms(draw):
    d = draw(models())
    d["perm"] = list(draw(st.permutations(range(d["n"]))))
    return d


@SUITE.sub("column_order", strategy=perms(), quick=120, thorough=3000, shards=8)
def order(case, ctx):
    """Permuting the columns permutes the result (compared through the best of several ICA starts)."""
    X, B0 = data(case)
    n, p = case["n"], case["perm"]
    gap, pairs = np.inf, [fit(X, 1.0, s)[0] for s in range(3)]
    for s in range(3):
        B = fit(X[:, p], 1.0, s)[0]
        back = np.zeros((n, n))
        back[np.ix_(p, p)] = B
        gap = min([gap] + [np.abs(back - q).max() for q in pairs])
    ctx.require(gap < TOL, "permuting the columns by %r changes coefficients by %.3g", p, gap)
    ctx.nontrivial(p != sorted(p) and len(case["edges"]) > 0)


@SUITE.sub("calibration", cases=lambda tier: [{"seed": s, "n": 3 + s % 2} for s in range(6 if tier == "quick" else 40)], quick=6, thorough=40)
def calibration(case, ctx):
    """A strict level removes most of the absent edges over many samples of one model."""
    kept = total = 0
    for k in range(25):
        n = case["n"]
        c = {"n": n, "edges": [[n - 1, 0]], "weights": [1.2], "noise": "uniform", "seed": 1000 * case["seed"] + k}
        X, B0 = data(c, 1500)
        B, _ = fit(X, .01, k)
        kept += np.count_nonzero(B[B0 == 0])
        total += n * (n - 1) // 2 - 1
    ctx.require(kept <= .4 * total, "level 0.01 leaves %d of %d absent edges", kept, total)
    ctx.nontrivial()


@SUITE.sub("location", cases=lambda tier: [{"seed": 3, "shift": 1.0}], quick=1, thorough=1)
def location(case, ctx):
    """Shifting a column must not change which edges survive pruning."""
    rng = np.random.RandomState(case["seed"])
    x1 = rng.uniform(size=1000)
    x2 = 3 * x1 + rng.uniform(size=1000)
    x3 = 2 * x1 + rng.uniform(size=1000)
    x4 = 4 * x2 + 4 * x3 + rng.uniform(size=1000)
    X = np.array([x1, x2, x3, x4]).T
    a, b = fit(X - X.mean(axis=0), .05, 0)[1], fit(X + case["shift"], .05, 0)[1]
    ctx.require(np.array_equal(a, b), "centred data keep %r, shifted data keep %r", a.tolist(), b.tolist())
    ctx.nontrivial()


@SUITE.sub("power", cases=lambda tier: [{"n": 5, "edges": [[4, 2], [4, 0], [4, 1], [4, 3], [2, 0], [2, 3], [0, 1], [0, 3], [1, 3]],
                                         "weights": [1.5, -.8, 1, .7, 1.5, 1.5, 1, -1.2, .7], "noise": "exp", "seed": 999999, "alpha": .001}], quick=1, thorough=1)
def power(case, ctx):
    """What pruning keeps must not depend on the signs the ICA gave its components."""
    X, B0 = data(case)
    supports = {tuple((fit(X, case["alpha"], s)[1] != 0).ravel().tolist()) for s in range(3)}
    ctx.require(len(supports) == 1, "three fits of one table, equal up to the signs of the components, keep %d different edge sets", len(supports))
    ctx.nontrivial()


@SUITE.sub("unfitted", cases=lambda tier: [{}], quick=1, thorough=1)
def unfitted(case, ctx):
    from cdmir.discovery.funtional_based import ICA_LINGAM
    m = ICA_LINGAM()
    ctx.raises(Exception, m.get_coef, "coefficients before fitting")
    ctx.raises(Exception, m.get_causal_graph, "graph before fitting")
    ctx.nontrivial()
