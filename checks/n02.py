"""N02: benchmark metrics and simulators of the entropy-based learners."""
from itertools import product

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from harness import graphs as hg
from harness.core import Suite, same
from harness.noise import FAMILIES, check_family, check_mean_zero, check_uncorrelated

SUITE = Suite("N02", "all pairs of true DAG and estimated DAG/CPDAG over 2-3 nodes, random ones over 1-8 nodes in several array types, invalid estimates; random graph, "
              "weight and data requests of every kind with random seeds; oracles: edge-set counting, exact degree structure, residual noise tests "
              "(Kolmogorov-Smirnov at 1e-10), exact zero-noise functional relations, frequency tests of orientations at 7 standard errors; non-trivial: both graphs have an edge, "
              "or the graph has one", ["igraph's random generators supply the undirected graphs"])


def ut():
    from cdmir.discovery.score_based.entropy_based.entropy_based_discovery import utils
    return utils


def counts(n, true, est, und):
    """true, est: sets of ordered pairs; und: set of pairs estimated as undirected."""
    skel = {frozenset(e) for e in true}
    tp = len([e for e in est if e in true]) + len([e for e in und if frozenset(e) in skel])
    fp = len([e for e in est | und if frozenset(e) not in skel])
    rev = len([e for e in est if e not in true and e[::-1] in true])
    pred = len(est) + len(und)
    eskel = {frozenset(e) for e in est | und}
    return {"fdr": (rev + fp) / max(pred, 1), "tpr": tp / max(len(true), 1), "fpr": (rev + fp) / max(n * (n - 1) / 2 - len(true), 1),
            "shd": len(eskel ^ skel) + rev, "nnz": pred}


def array(n, pairs, und=(), dtype=int):
    M = np.zeros((n, n), dtype=dtype)
    for a, b in pairs:
        M[a, b] = 1
    for a, b in und:
        M[a, b] = -1
    return M


def compare_counts(ctx, n, true, est, und, tt=int, et=int):
    T, E = array(n, true, dtype=tt), array(n, est, und, dtype=et)
    kt, ke = T.copy(), E.copy()
    got = ut().count_accuracy(T, E)
    ctx.require(np.array_equal(T, kt) and np.array_equal(E, ke), "count_accuracy changed its input")
    want = counts(n, true, est, und)
    ctx.require(set(got) == set(want), "keys %r", sorted(got))
    for k in want:
        ctx.require(abs(float(got[k]) - want[k]) < 1e-12, "%s is %r, expected %r for true %r, estimated %r, undirected %r", k, got[k], want[k], sorted(true), sorted(est), sorted(und))


def all_counts(tier):
    for n in (1, 2, 3):
        for edges in hg.all_dags(n):
            yield {"n": n, "edges": [list(e) for e in (edges["edges"] if isinstance(edges, dict) else edges)]}


@SUITE.sub("counts_exhaustive", cases=all_counts, quick=0, thorough=0)
def counts_exhaustive(case, ctx):
    n, true = case["n"], {tuple(e) for e in case["edges"]}
    pairs = [(a, b) for a in range(n) for b in range(a + 1, n)]
    for combo in product(range(5), repeat=len(pairs)):
        est = {(a, b) if k == 1 else (b, a) for (a, b), k in zip(pairs, combo) if k in (1, 2)}
        und = {(a, b) if k == 3 else (b, a) for (a, b), k in zip(pairs, combo) if k in (3, 4)}
        if not und and not hg.is_acyclic(n, est):
            continue
        compare_counts(ctx, n, true, est, und)
    ctx.nontrivial(bool(true))


@st.composite
def estimates(draw):
    n = draw(st.sampled_from([5, 4, 6, 8, 2, 1]))
    def dag():
        p = draw(st.permutations(list(range(n))))
        return [[p[a], p[b]] for a in range(n) for b in range(a + 1, n) if draw(st.booleans())]
    true, est = dag(), dag()
    if draw(st.booleans()):
        est = [e if draw(st.sampled_from([True, True, False])) else e[::-1] for e in true]
    und = []
    if draw(st.booleans()):
        flags = [draw(st.sampled_from([0, 1, 2])) for _ in est]
        und = [e if f == 1 else e[::-1] for e, f in zip(est, flags) if f]
        est = [e for e, f in zip(est, flags) if not f]
    types = ["int", "float"] if und else ["int", "float", "bool"]
    return {"n": n, "true": true, "est": est, "und": und, "tt": draw(st.sampled_from(["int", "float", "bool"])), "et": draw(st.sampled_from(types))}


@SUITE.sub("counts", strategy=estimates(), quick=1500, thorough=40000, shards=4)
def counts_random(case, ctx):
    n = case["n"]
    t, e, u = ({tuple(x) for x in case[k]} for k in ("true", "est", "und"))
    if not u and not hg.is_acyclic(n, e):
        ctx.raises(ValueError, lambda: ut().count_accuracy(array(n, t), array(n, e)), "a cyclic estimate %r" % sorted(e))
        return
    kinds = {"int": int, "float": float, "bool": bool}
    compare_counts(ctx, n, t, e, u, kinds[case["tt"]], kinds[case["et"]])
    ctx.nontrivial(bool(t) and bool(e or u))
    ctx.label("undirected", bool(u))


@st.composite
def invalid(draw):
    n = draw(st.sampled_from([3, 4, 2]))
    kind = draw(st.sampled_from(["value", "twice", "cpdag value", "cycle", "loop"]))
    a, b = draw(st.permutations(list(range(n))))[:2]
    return {"n": n, "kind": kind, "a": a, "b": b, "value": draw(st.sampled_from([2, .5, -2, 3]))}


@SUITE.sub("invalid_estimates", strategy=invalid(), quick=60, thorough=400)
def invalid_estimates(case, ctx):
    n, a, b = case["n"], case["a"], case["b"]
    E = np.zeros((n, n))
    kind = case["kind"]
    if kind == "value":
        E[a, b] = case["value"]
    elif kind == "twice":
        E[a, b] = E[b, a] = -1
    elif kind == "cpdag value":
        E[a, b] = -1
        E[b, a] = case["value"]
    elif kind == "cycle":
        E[a, b] = E[b, a] = 1
    else:
        E[a, a] = 1
    ctx.raises(ValueError, lambda: ut().count_accuracy(np.zeros((n, n), dtype=int), E), "estimate %r" % E.tolist())
    ctx.nontrivial()


@st.composite
def matrices(draw):
    n = draw(st.sampled_from([3, 4, 2, 5, 1, 6]))
    kind = draw(st.sampled_from(["dag", "any"]))
    p = draw(st.permutations(list(range(n))))
    es = [[a, b] for a in range(n) for b in range(n) if a != b and (kind == "any" or p.index(a) < p.index(b)) and draw(st.sampled_from([True, False, False]))]
    return {"n": n, "edges": es, "w": [draw(st.sampled_from([1.0, -.7, .01, -2.0])) for _ in es]}


@SUITE.sub("is_dag", strategy=matrices(), quick=500, thorough=10000)
def is_dag(case, ctx):
    W = np.zeros((case["n"],) * 2)
    for (a, b), w in zip(case["edges"], case["w"]):
        W[a, b] = w
    ctx.require(bool(ut().is_dag(W)) == hg.is_acyclic(case["n"], case["edges"]), "is_dag(%r) is %r", W.tolist(), ut().is_dag(W))
    ctx.nontrivial(len(case["edges"]) >= 2)


# ------------------------------------------------------------------ generators
@st.composite
def requests(draw):
    kind = draw(st.sampled_from(["ER", "SF", "BP"]))
    d = draw(st.sampled_from([5, 6, 8, 10, 3, 2, 12]))
    top = int(.2 * d)
    most = {"ER": d * (d - 1) // 2, "SF": d * 3, "BP": top * (d - top)}[kind]
    return {"kind": kind, "d": d, "s0": draw(st.integers(0, most)), "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("graphs", strategy=requests(), quick=500, thorough=15000, shards=4)
def graphs(case, ctx):
    u, d, s0 = ut(), case["d"], case["s0"]
    u.set_seed(case["seed"])
    B = u.simulate_dag(d, s0, case["kind"])
    ctx.require(B.shape == (d, d) and np.isin(B, (0, 1)).all(), "not a binary %dx%d matrix: %r", d, d, B)
    edges = [tuple(e) for e in np.argwhere(B)]
    ctx.require(hg.is_acyclic(d, edges), "cyclic graph %r", edges)
    outs, ins = B.sum(1), B.sum(0)
    if case["kind"] == "ER":
        ctx.require(len(edges) == s0, "%d edges instead of %d", len(edges), s0)
    elif case["kind"] == "SF":
        m = int(round(s0 / d))
        want = sorted(min(m, k) for k in range(d))
        ctx.require(sorted(outs.astype(int)) == want, "numbers of edges attached per node %r, expected %r", sorted(outs), want)
    else:
        ctx.require(len(edges) == s0, "%d edges instead of %d", len(edges), s0)
        ctx.require(not np.any((outs > 0) & (ins > 0)), "not bipartite: %r", edges)
        ctx.require((outs > 0).sum() <= int(.2 * d), "%d nodes on the source side of %d", (outs > 0).sum(), d)
    u.set_seed(case["seed"])
    ctx.require(np.array_equal(B, u.simulate_dag(d, s0, case["kind"])), "equal seeds give different graphs")
    ctx.nontrivial(len(edges) > 0)
    ctx.label(case["kind"])


FREQ = [{"kind": "ER", "d": 4, "s0": 3}, {"kind": "ER", "d": 3, "s0": 2}, {"kind": "SF", "d": 4, "s0": 4}, {"kind": "BP", "d": 10, "s0": 6}]


@SUITE.sub("graph_law", cases=lambda tier: [dict(c, reps=600 if tier == "quick" else 6000, seed=s) for c in FREQ for s in (0, 1)])
def graph_law(case, ctx):
    """Relabelling symmetry: every ordered pair is an edge equally often."""
    u, d = ut(), case["d"]
    u.set_seed(case["seed"])
    hits, total = np.zeros((d, d)), 0
    for _ in range(case["reps"]):
        B = u.simulate_dag(d, case["s0"], case["kind"])
        hits += B
        total += B.sum()
    p = total / case["reps"] / (d * (d - 1))
    sd = np.sqrt(case["reps"] * p * (1 - p))
    off = ~np.eye(d, dtype=bool)
    dev = np.abs(hits - case["reps"] * p)[off].max()
    ctx.require(dev < 7 * sd, "edge frequencies %r are not alike (expected %.1f each)", hits.tolist(), case["reps"] * p)
    ctx.nontrivial()


@st.composite
def weight_requests(draw):
    n = draw(st.sampled_from([4, 6, 3, 2, 8]))
    p = draw(st.permutations(list(range(n))))
    es = [[p[a], p[b]] for a in range(n) for b in range(a + 1, n) if draw(st.sampled_from([True, False]))]
    ranges = draw(st.sampled_from([None, [[-2.0, -.5], [.5, 2.0]], [[.3, .4]], [[-1.0, -1.0], [2.0, 2.5], [5.0, 6.0]], [[-.8, -.4], [.4, .8]],
                                   [[1.0, 2.0], [3.0, 4.0], [5.0, 6.0], [7.0, 8.0]], [[2.0, 2.5], [-4.0, -3.0], [.1, .2], [-9.0, -8.5], [6.0, 6.0]]]))
    return {"n": n, "edges": es, "ranges": ranges, "seed": draw(st.integers(0, 10 ** 6)), "dtype": draw(st.sampled_from(["float", "int", "bool"]))}


@SUITE.sub("weights", strategy=weight_requests(), quick=400, thorough=10000)
def weights(case, ctx):
    u, n = ut(), case["n"]
    B = array(n, case["edges"], dtype={"float": float, "int": int, "bool": bool}[case["dtype"]])
    keep = B.copy()
    ranges = case["ranges"] or [[-2.0, -.5], [.5, 2.0]]
    kw = {} if case["ranges"] is None else {"w_ranges": tuple(tuple(r) for r in ranges)}
    u.set_seed(case["seed"])
    W = u.simulate_parameter(B, **kw)
    ctx.require(np.array_equal(B, keep), "simulate_parameter changed the graph")
    ctx.require(W.shape == B.shape and np.array_equal(W != 0, B != 0), "weights at %r, edges at %r", np.argwhere(W).tolist(), case["edges"])
    v = W[B != 0]
    ok = np.zeros(v.shape, dtype=bool)
    for lo, hi in ranges:
        ok |= (v >= lo) & (v <= hi)
    ctx.require(ok.all(), "weights %r outside %r", v[~ok], ranges)
    big = np.triu(np.ones((60, 60)), 1)
    V = u.simulate_parameter(big, **kw)[big != 0]
    for lo, hi in ranges:
        sel = V[(V >= lo) & (V <= hi)]
        q = 1 / len(ranges)
        ctx.require(abs(len(sel) - q * len(V)) < 7 * np.sqrt(len(V) * q * (1 - q)) + 1e-9, "range %r used %d of %d times", (lo, hi), len(sel), len(V))
        if hi > lo:
            pv = stats.kstest(sel, stats.uniform(lo, hi - lo).cdf).pvalue
            ctx.require(pv > 1e-10, "weights in %r are not uniform (p %.2g)", (lo, hi), pv)
    ctx.nontrivial(bool(case["edges"]))


UNIT_NOISE = {"gauss": ("gauss", 1.0), "exp": ("exp", 1.0), "gumbel": ("gumbel", np.sqrt(6) / np.pi), "uniform": ("uniform", np.sqrt(3))}


@st.composite
def sems(draw, max_n=5):
    n = draw(st.sampled_from([3, 4, 2, max_n, 1]))
    p = draw(st.permutations(list(range(n))))
    es = [[p[a], p[b]] for a in range(n) for b in range(a + 1, n) if draw(st.sampled_from([True, True, False]))]
    return {"n": n, "edges": es, "w": [draw(st.sampled_from([.8, -1.5, 2.0, -.4])) for _ in es], "noise": draw(st.sampled_from(sorted(UNIT_NOISE))),
            "scale": draw(st.sampled_from(["none", "scalar", "vector"])), "scales": [draw(st.sampled_from([1.0, .3, 4.0, 2.0])) for _ in range(n)],
            "rows": draw(st.sampled_from([1500, 600, 3000])), "seed": draw(st.integers(0, 10 ** 6))}


def weighted(case):
    W = np.zeros((case["n"],) * 2)
    for (a, b), w in zip(case["edges"], case["w"]):
        W[a, b] = w
    return W


def check_residuals(ctx, case, X, W, scales, what):
    n = case["n"]
    ctx.require(X.shape == (case["rows"], n), "%s: shape %r", what, X.shape)
    fam, unit = UNIT_NOISE[case["noise"]]
    E = X - X @ W
    for j in range(n):
        check_family(ctx, E[:, j], fam, unit * scales[j], "%s: residual of column %d" % (what, j))
        for i in range(j):
            check_uncorrelated(ctx, E[:, i], E[:, j], "%s: residuals of columns %d and %d" % (what, i, j))


@SUITE.sub("linear_sem", strategy=sems(), quick=300, thorough=8000, shards=8)
def linear_sem(case, ctx):
    u, n, W = ut(), case["n"], weighted(case)
    arg = {"none": None, "scalar": case["scales"][0], "vector": np.array(case["scales"])}[case["scale"]]
    eff = {"none": [1.0] * n, "scalar": [case["scales"][0]] * n, "vector": case["scales"]}[case["scale"]]
    keep = W.copy()
    u.set_seed(case["seed"])
    X = u.simulate_linear_sem(W, case["rows"], case["noise"], arg)
    ctx.require(np.array_equal(W, keep), "the weights were changed")
    check_residuals(ctx, case, X, W, eff, "simulate_linear_sem")
    u.set_seed(case["seed"])
    ctx.require(same(X, u.simulate_linear_sem(W, case["rows"], case["noise"], arg)), "equal seeds give different data")
    if case["noise"] == "gauss":
        P = u.simulate_linear_sem(W, np.inf, "gauss", arg)
        inv = np.linalg.inv(np.eye(n) - W)
        cov = inv.T @ np.diag(np.square(eff)) @ inv
        ctx.close(P.T @ P / n, cov, "population covariance", rtol=1e-8, atol=1e-8)
    s = float(case["scales"][0])
    u.set_seed(case["seed"])
    V = u.simulate_linear_sem_variable_scale(W, case["rows"], case["noise"], scale_low=s, scale_high=s)
    check_residuals(ctx, case, V, W, [s] * n, "simulate_linear_sem_variable_scale")
    if case["noise"] == "gauss":
        P = u.simulate_linear_sem_variable_scale(W, np.inf, "gauss", scale_low=s, scale_high=s)
        ctx.close(P.T @ P / n, cov_of(W, [s] * n), "population covariance (variable scale)", rtol=1e-8, atol=1e-8)
    u.set_seed(case["seed"])
    V = u.simulate_linear_sem_variable_scale(W, case["rows"], case["noise"], scale_low=1.0, scale_high=3.0)
    E = V - V @ W
    fam, unit = UNIT_NOISE[case["noise"]]
    d = FAMILIES[fam]
    for j in range(n):
        mad = np.median(np.abs(E[:, j] - np.median(E[:, j]))) / unit
        ref = stats_mad(fam)
        ctx.require(.7 < mad / ref < 4.2, "noise of column %d has scale about %.2f, requested 1 to 3", j, mad / ref)
    ctx.nontrivial(bool(case["edges"]))


def cov_of(W, s):
    inv = np.linalg.inv(np.eye(len(W)) - W)
    return inv.T @ np.diag(np.square(s)) @ inv


def stats_mad(fam):
    x = FAMILIES[fam].ppf((np.arange(20001) + .5) / 20001)
    return np.median(np.abs(x - np.median(x)))


@SUITE.sub("discrete_sem", strategy=sems(4), quick=200, thorough=4000, shards=4)
def discrete_sem(case, ctx):
    u, n = ut(), case["n"]
    W = weighted(case)
    for kind in ("logistic", "poisson"):
        V = W if kind == "logistic" else np.where(W > 0, .2, np.where(W < 0, -.3, 0.0))
        for f, what in ((u.simulate_linear_sem, "simulate_linear_sem"), (u.simulate_linear_sem_variable_scale, "simulate_linear_sem_variable_scale")):
            u.set_seed(case["seed"])
            X = f(V, case["rows"], kind)
            ctx.require(X.shape == (case["rows"], n) and np.array_equal(X, np.round(X)) and X.min() >= 0, "%s: %s values %r", what, kind, X[:3])
            eta = X @ V
            mean = 1 / (1 + np.exp(-eta)) if kind == "logistic" else np.exp(eta)
            var = mean * (1 - mean) if kind == "logistic" else mean
            if kind == "logistic":
                ctx.require(X.max() <= 1, "%s: logistic value %r", what, X.max())
            for j in range(n):
                for k in [None] + list(range(n)):
                    if k == j:
                        continue
                    if k is not None and hits(V, j, k):
                        continue
                    w = np.ones(case["rows"]) if k is None else np.clip(X[:, k], 0, 5)
                    check_mean_zero(ctx, X[:, j] - mean[:, j], var[:, j], w, "%s: %s column %d weighted by %r" % (what, kind, j, k))
                if kind == "poisson" and not V[:, j].any():
                    check_mean_zero(ctx, (X[:, j] - 1) ** 2 - 1, 3.0, np.ones(case["rows"]), "%s: variance of column %d" % (what, j))
    ctx.nontrivial(bool(case["edges"]))


def hits(W, j, k):
    """k is a descendant of j"""
    n = len(W)
    pa = hg.parents_of(n, [tuple(e) for e in np.argwhere(W)])
    return j in hg.ancestors(pa, {k})


@st.composite
def refused(draw):
    return {"what": draw(st.sampled_from(["cycle", "noise", "length", "infinite", "graph", "pairwise", "loop"])), "n": draw(st.sampled_from([3, 2, 5]))}


@SUITE.sub("refusals", strategy=refused(), quick=30, thorough=60)
def refusals(case, ctx):
    u, n, what = ut(), case["n"], case["what"]
    W = np.zeros((n, n))
    W[0, 1] = 1.0
    for f in (u.simulate_linear_sem, u.simulate_linear_sem_variable_scale):
        if what in ("cycle", "loop"):
            C = W.copy()
            C[(1, 0) if what == "cycle" else (1, 1)] = .5
            ctx.raises(ValueError, lambda: f(C, 10, "gauss"), "weights with a cycle")
        elif what == "noise":
            ctx.raises(ValueError, lambda: f(W, 10, "cauchy"), "unknown noise")
        elif what == "infinite":
            ctx.raises(ValueError, lambda: f(W, np.inf, "exp"), "population mode without gaussian noise")
    if what == "length":
        ctx.raises(ValueError, lambda: u.simulate_linear_sem(W, 10, "gauss", [1.0] * (n + 1)), "too many scales")
    elif what == "graph":
        ctx.raises(ValueError, lambda: u.simulate_dag(n, 1, "XX"), "unknown graph type")
    elif what == "pairwise":
        ctx.raises(ValueError, lambda: u.simulate_pariwise(1.0, 5, distribution="cauchy"), "unknown distribution")
    ctx.nontrivial()


# ------------------------------------------------------------------ nonlinear data
BOUND = {"mim": 3.0}


@st.composite
def nonlinear(draw):
    c = draw(sems(4))
    c["sem"] = draw(st.sampled_from(["mim", "mlp", "pow2", "pow3", "gp", "gp-add"]))
    c["rows"] = draw(st.sampled_from([60, 40]))
    return c


@SUITE.sub("nonlinear_sem", strategy=nonlinear(), quick=200, thorough=4000, shards=8)
def nonlinear_sem(case, ctx):
    u, n, rows = ut(), case["n"], case["rows"]
    B = array(n, [tuple(e) for e in case["edges"]])
    pa = hg.parents_of(n, [tuple(e) for e in case["edges"]])
    fam, unit = UNIT_NOISE[case["noise"]]
    # only the sources are noisy: the others are exact functions of their parents
    scale = np.array([case["scales"][j] if not pa[j] else 0.0 for j in range(n)])
    keep = B.copy()
    u.set_seed(case["seed"])
    X = u.simulate_nonlinear_sem(B, rows, case["sem"], case["noise"], scale)
    ctx.require(np.array_equal(B, keep) and X.shape == (rows, n), "shape %r or a changed graph", X.shape)
    for j in range(n):
        if not pa[j]:
            check_family(ctx, X[:, j], fam, unit * scale[j], "source column %d" % j)
            continue
        P = X[:, sorted(pa[j])]
        k = P.shape[1]
        x = X[:, j]
        ctx.require(np.isfinite(x).all(), "column %d is not finite", j)
        if case["sem"] in ("mim", "mlp"):
            L = 6.0 if case["sem"] == "mim" else 100.0
            D = np.abs(P[:, None, :] - P[None, :, :]).sum(2)
            ctx.require(np.all(np.abs(x[:, None] - x[None, :]) <= L * D + 1e-9), "column %d is not a function of its parents %r", j, sorted(pa[j]))
            if case["sem"] == "mim":
                ctx.require(np.abs(x).max() <= 3 + 1e-9, "column %d reaches %r, beyond tanh+cos+sin", j, np.abs(x).max())
        elif case["sem"] in ("pow2", "pow3"):
            deg = 2 if case["sem"] == "pow2" else 3
            S = P / max(np.abs(P).max(), 1e-300)
            cols = [np.prod(S ** np.array(e), axis=1) for e in product(range(deg + 1), repeat=k) if sum(e) == deg]
            F = np.array(cols).T
            if F.shape[1] < rows:
                fit = F @ np.linalg.lstsq(F, x, rcond=None)[0]
                ctx.require(np.abs(fit - x).max() <= 1e-6 * (1 + np.abs(x).max()), "column %d is not a form of degree %d in its parents %r", j, deg, sorted(pa[j]))
        spread = P.std(0)
        if np.all(spread > 1e-6):
            ctx.require(x.std() > 1e-9, "column %d does not depend on its parents", j)
    # the noise of every column has the requested law, whatever its parents do
    eps = 1e7
    u.set_seed(case["seed"])
    if case["sem"] in ("mim", "mlp", "gp", "gp-add"):
        sink = [j for j in range(n)]
        Y = u.simulate_nonlinear_sem(B, 400 if case["sem"] in ("mim", "mlp") else 60, case["sem"], case["noise"], np.full(n, eps))
        for j in sink:
            d = FAMILIES[fam]
            p = stats.kstest(Y[:, j] / eps / unit, lambda v: d.cdf(v)).pvalue
            ctx.require(p > 1e-10, "noise of column %d is not %s with the requested scale (p %.2g)", j, fam, p)
    Z = None
    if not case["edges"]:
        u.set_seed(case["seed"])
        Z = u.simulate_nonlinear_sem(B, 500, case["sem"], case["noise"])
        for j in range(n):
            check_family(ctx, Z[:, j], fam, unit, "column %d with default scale" % j)
    ctx.raises(ValueError, lambda: u.simulate_nonlinear_sem(array(2, [(0, 1)]), 5, "nope"), "unknown relation")
    ctx.raises(ValueError, lambda: u.simulate_nonlinear_sem(B, 5, "mim", "nope"), "unknown noise")
    ctx.nontrivial(bool(case["edges"]))
    ctx.label(case["sem"])


@st.composite
def pairs(draw):
    return {"weight": draw(st.sampled_from([1.0, -2.0, .3, 0.0, 4.0])), "rows": draw(st.sampled_from([1000, 2500])), "linear": draw(st.sampled_from([True, True, False])),
            "dist": draw(st.sampled_from(["gauss", "uniform", "gumbel", "exp", "logistic", "poisson"])), "direct": draw(st.sampled_from([0, 1])),
            "vc": draw(st.sampled_from([1.0, 4.0, .25])), "ve": draw(st.sampled_from([1.0, 9.0, .25])), "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("pairwise", strategy=pairs(), quick=200, thorough=4000)
def pairwise(case, ctx):
    u = ut()
    u.set_seed(case["seed"])
    X = u.simulate_pariwise(case["weight"], case["rows"], linear=case["linear"], distribution=case["dist"], direct=case["direct"], var_cause=case["vc"], var_effect=case["ve"])
    ctx.require(X.shape == (case["rows"], 2), "shape %r", X.shape)
    c, e = (X[:, 0], X[:, 1]) if case["direct"] == 0 else (X[:, 1], X[:, 0])
    r = e - case["weight"] * c if case["linear"] else e - np.tanh(c) - np.cos(c) - np.sin(c)
    for v, var, what in ((c, case["vc"], "cause"), (r, case["ve"], "effect noise")):
        s = np.sqrt(var)
        if case["dist"] == "uniform":
            check_family(ctx, v, "uniform", np.sqrt(3) * s, what)
        elif case["dist"] in ("gauss", "gumbel", "exp"):
            check_family(ctx, v, case["dist"], s, what)
        else:
            v = np.round(v, 9)
            ctx.require(np.array_equal(v, np.round(v)) and v.min() >= 0, "%s: %s values %r", what, case["dist"], v[:5])
            m, vv = (.6, .24) if case["dist"] == "logistic" else (1.0, 1.0)
            ctx.require(case["dist"] == "poisson" or v.max() <= 1, "%s: values up to %r", what, v.max())
            check_mean_zero(ctx, v - m, vv, np.ones(len(v)), what)
    check_uncorrelated(ctx, c, np.round(r, 9), "cause and effect noise")
    ctx.nontrivial(case["weight"] != 0)


@SUITE.sub("fixed_test_data", strategy=st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "rows": st.sampled_from([1000, 3000])}), quick=20, thorough=300)
def fixed_test_data(case, ctx):
    u = ut()
    u.set_random_seed(case["seed"])
    X = u.simulate_Test(case["rows"])
    u.set_random_seed(case["seed"])
    ctx.require(same(X, u.simulate_Test(case["rows"])), "equal seeds give different data")
    E = [X[:, 0], X[:, 1] - 3 * X[:, 0], X[:, 2] - .6 * X[:, 1] - X[:, 0]]
    for j in range(3):
        check_family(ctx, E[j], "gauss", 1.0, "residual %d" % j)
        for i in range(j):
            check_uncorrelated(ctx, E[i], E[j], "residuals %d and %d" % (i, j))
    ctx.nontrivial()
