"""D05: random graph and lag-transition generators."""
import numpy as np
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("D05", "node counts 1-30, edge counts 0 to complete and beyond, no or several weight ranges, seeds (small, large, none); lag transitions for 1-8 "
              "variables, 1-5 lags, several acceptance settings; oracles: acyclicity, exact value ranges, edge-count totals over 40 seeds within 7 "
              "standard errors of the requested expectation, column norms, rank; non-trivial: at least two nodes and one edge possible",
              ["the expected number of edges is accepted between n_edges (n-1)/n, which the per-pair probability 2 n_edges / n^2 gives, and n_edges"])


@st.composite
def er(draw):
    n = draw(st.sampled_from([5, 3, 8, 2, 12, 30, 1, 70]))
    pairs = n * (n - 1) // 2
    e = draw(st.sampled_from([n, 2 * n, max(1, pairs // 2), pairs, 1, 0, pairs * 3 + 5]))
    return {"n": n, "e": e, "range": draw(st.sampled_from([None, [.5, 2.0], [1, 3], [.1, .1001], [2.0, 2.5]])), "seed": draw(st.one_of(st.integers(0, 20), st.integers(0, 2 ** 32 - 2000)))}


@SUITE.sub("random_dags", strategy=er(), quick=600, thorough=15000, shards=8)
def dags(case, ctx):
    from cdmir.datasets.utils import erdos_renyi
    n, e, rng = case["n"], case["e"], case["range"]
    arg = {} if rng is None else {"weight_range": tuple(rng)}
    counts, adj, signs, mags, single = [], np.zeros((n, n)), [], [], set()
    reps = 40
    for k in range(reps):
        W = erdos_renyi(n, e, seed=case["seed"] + k, **arg)
        ctx.require(isinstance(W, np.ndarray) and W.shape == (n, n), "shape %r", np.shape(W))
        ctx.require(np.isfinite(W).all() and hg.is_acyclic(n, [tuple(x) for x in np.argwhere(W)]), "cyclic graph %r (n=%d, e=%d, seed %d)", W.tolist(), n, e, case["seed"] + k)
        v = W[W != 0]
        if rng is None:
            ctx.require(np.all(v == 1), "entries other than one: %r", v[:5])
        else:
            ctx.require(np.all(np.abs(v) >= rng[0] - 1e-12) and np.all(np.abs(v) <= rng[1] + 1e-12), "magnitudes %r outside %r", v[:5], rng)
        counts.append(len(v))
        adj += W != 0
        signs += list(np.sign(v))
        mags += list(np.abs(v))
        single.add(W.tobytes())
        if k == 0:
            np.random.rand(4)
            ctx.require(np.array_equal(erdos_renyi(n, e, seed=case["seed"], **arg), W), "the same seed gives another graph")
    pairs = n * (n - 1) / 2
    p = min(1.0, 2 * e / n ** 2)
    lo, hi = reps * pairs * p, reps * min(max(pairs * p, e), pairs)
    sd = np.sqrt(reps * pairs * p * (1 - p))
    tot = sum(counts)
    ctx.require(lo - 7 * sd - 1e-9 <= tot <= hi + 7 * sd + 1e-9, "%d edges in %d graphs of %d nodes with %d requested each", tot, reps, n, e)
    if tot >= 60:
        # no direction and no pair is privileged
        up = np.triu(adj).sum()
        ctx.require(abs(up - tot / 2) < 7 * np.sqrt(tot * 4) + 5, "%d of %d edges follow the node numbering", up, tot)
        if rng is not None:
            pos = signs.count(1.0)
            ctx.require(abs(pos - tot / 2) < 7 * np.sqrt(tot) / 2 + 1, "%d of %d weights are positive", pos, tot)
            mid = (rng[0] + rng[1]) / 2
            ctx.require(abs(np.mean(mags) - mid) < 7 * (rng[1] - rng[0]) / np.sqrt(12 * tot), "mean magnitude %r for range %r", np.mean(mags), rng)
    if n >= 5 and 0 < p < 1:
        ctx.require(len(single) > 1, "every seed gives the same graph")
    ctx.nontrivial(n >= 2 and e > 0)
    ctx.label("n=%d" % n)
    ctx.label("range %s" % (rng,))


@st.composite
def lagged(draw):
    return {"n": draw(st.sampled_from([3, 2, 5, 1, 8, 14])), "lags": draw(st.sampled_from([2, 1, 5, 3, 12])), "seed": draw(st.one_of(st.integers(0, 20), st.integers(0, 2 ** 32 - 10))),
            "accept": draw(st.sampled_from([None, 25, 50, 90, 5])), "iters": draw(st.sampled_from([200, 50, 1000]))}


@SUITE.sub("lag_transitions", strategy=lagged(), quick=250, thorough=6000, shards=8)
def lag(case, ctx):
    from cdmir.datasets.utils import generate_lag_transitions
    n, L = case["n"], case["lags"]
    kw = {"niter4cond_thresh": case["iters"]}
    if case["accept"] is not None:
        kw["accept_per"] = case["accept"]
    T = generate_lag_transitions(n, L, seed=case["seed"], **kw)
    ctx.require(isinstance(T, np.ndarray) and T.shape == (L, n, n), "shape %r for %d lags of %d variables", np.shape(T), L, n)
    ctx.close(np.linalg.norm(T, axis=1), np.ones((L, n)), "column norms")
    for k in range(L):
        ctx.require(np.linalg.matrix_rank(T[k]) == n and np.linalg.cond(T[k]) < 1e8, "matrix %d is not invertible (condition %.3g)", k, np.linalg.cond(T[k]))
    if n > 1:
        ctx.require(len({T[k].tobytes() for k in range(L)}) == L, "two lags share one matrix")
    np.random.rand(4)
    ctx.require(np.array_equal(generate_lag_transitions(n, L, seed=case["seed"], **kw), T), "the same seed gives other matrices")
    if n > 1:
        ctx.require(not np.array_equal(generate_lag_transitions(n, L, seed=case["seed"] + 1, **kw), T), "another seed gives the same matrices")
    ctx.nontrivial(n > 1)
    ctx.label("n=%d" % n)


@SUITE.sub("rejections", cases=lambda tier: [{"n": n, "lags": m} for n in (0, -1, -5, 3) for m in (0, -1, 2)], quick=20, thorough=20)
def rejections(case, ctx):
    from cdmir.datasets.utils import erdos_renyi, generate_lag_transitions
    n, m = case["n"], case["lags"]
    if n <= 0:
        ctx.raises(Exception, lambda: erdos_renyi(n, 2, seed=1), "%d nodes" % n)
        ctx.raises(Exception, lambda: erdos_renyi(n, 2, weight_range=(1, 2), seed=1), "%d nodes" % n)
    if n <= 0 or m <= 0:
        ctx.raises(Exception, lambda: generate_lag_transitions(n, m, seed=1, niter4cond_thresh=10), "%d nodes and %d lags" % (n, m))
    ctx.nontrivial(n <= 0 or m <= 0)


@SUITE.sub("unseeded", cases=lambda tier: [{"n": n} for n in (3, 6)], quick=4, thorough=4)
def unseeded(case, ctx):
    """Without a seed the documented default works and graphs vary."""
    from cdmir.datasets.utils import erdos_renyi, generate_lag_transitions
    n = case["n"]
    seen = set()
    for _ in range(12):
        W = erdos_renyi(n, n, (1, 2))
        ctx.require(hg.is_acyclic(n, [tuple(x) for x in np.argwhere(W)]), "cyclic graph")
        seen.add(W.tobytes())
    ctx.require(len(seen) > 1, "unseeded graphs never vary")
    T = generate_lag_transitions(n, 2, niter4cond_thresh=20)
    ctx.require(T.shape == (2, n, n), "shape %r", T.shape)
    ctx.nontrivial()
