"""P02: the Hawkes learner's fit and hill climbing."""
import math

import numpy as np
from hypothesis import strategies as st

from checks.p01 import hush, learner, tables
from harness import graphs as hg
from harness.core import Reject, Suite, same

SUITE = Suite("P02", "event tables as for P01 (positive total span), random acyclic, cyclic and self-exciting structures over the event types, both penalties, "
              "penalty weights, seeds; oracle: the penalised log-likelihood recomputed from the reported rates and influences, the learner's own score of every "
              "neighbouring structure, second runs with equal seeds; branching-process samples from known graphs for recovery; non-trivial: a structure with an edge",
              ["the likelihood is the learner's documented one: event log-rates minus rate times span minus influence times count over decay",
               "recovery is asked only where effects are strong and samples have 400 or more events"])


@st.composite
def excited(draw):
    """Tables in which some types tend to follow others."""
    n = draw(st.sampled_from([3, 2, 4, 5]))
    follow = {i: draw(st.integers(0, i - 1)) for i in range(1, n) if draw(st.sampled_from([True, True, False]))}
    perm = draw(st.permutations(list(range(n))))
    rows = []
    for s in range(draw(st.sampled_from([1, 2, 3]))):
        t = {0: sorted(draw(st.lists(st.integers(0, 120), min_size=4, max_size=14)))}
        for i in range(1, n):
            if i in follow:
                lag = draw(st.sampled_from([0, 1, 2]))
                t[i] = [x + lag for x in t[follow[i]] if draw(st.sampled_from([True, True, True, False]))]
            else:
                t[i] = draw(st.lists(st.integers(0, 120), min_size=1, max_size=8))
        rows += [[s, x, perm[i]] for i in range(n) for x in t[i]]
    scale = draw(st.sampled_from([1, .5]))
    return {"rows": [[a, b * scale, c] for a, b, c in rows], "grid": draw(st.sampled_from([None, 1, 2, .5])), "decay": draw(st.sampled_from([1.0, .5, .1, 3.0]))}


@st.composite
def fits(draw):
    c = draw(st.one_of(excited(), excited(), tables(min_seq=2)))
    names = sorted({r[2] for r in c["rows"]})
    n = len(names)
    kind = draw(st.sampled_from(["dag", "dag", "any", "loops"]))
    m = [[0] * n for _ in range(n)]
    order = draw(st.permutations(list(range(n))))
    for i in range(n):
        for j in range(n):
            if i == j:
                m[i][j] = draw(st.integers(0, 1)) if kind == "loops" else 0
            elif kind == "any" or order.index(i) < order.index(j):
                m[i][j] = draw(st.integers(0, 1))
    c.update(structure=m, penalty=draw(st.sampled_from(["BIC", "AIC"])), reg=draw(st.sampled_from([3.0, 1.0, .85, .3, 10.0])), seed=draw(st.integers(0, 10 ** 6)))
    return c


def make(case, seed=None, **kw):
    shp = learner(case["rows"], case["decay"], case["grid"], seed=case["seed"] if seed is None else seed, penalty=case["penalty"], reg=case["reg"], **kw)
    if not float(shp.T) > 0:
        raise Reject()
    return shp


def acyclic(m):
    n = len(m)
    return hg.is_acyclic(n, [(i, j) for i in range(n) for j in range(n) if i != j and m[i][j]])


def loglik(shp, case, alpha, mu):
    """Per definition, from the counts and influence sums (which P01 decides)."""
    X, K = np.asarray(shp.X, float), np.asarray(shp.sum_t_X_kappa, float)
    lam = K @ alpha + mu
    hit = X > 0
    return float((X[hit] * np.log(lam[hit])).sum() - (X.sum(0) @ alpha).sum() / case["decay"] - mu.sum() * float(shp.T))


def penalised(shp, case, alpha, mu, edges, weighted_aic=False):
    k = shp.n + edges
    if case["penalty"] == "AIC":
        p = k * case["reg"] if weighted_aic else k
    else:
        p = k * math.log(len(case["rows"])) * case["reg"]
    return loglik(shp, case, alpha, mu) - p


def valid_fit(ctx, shp, case, m, result, what, weighted_aic=False):
    L, alpha, mu = result
    n = shp.n
    alpha, mu = np.asarray(alpha, float), np.asarray(mu, float)
    ctx.require(alpha.shape == (n, n) and mu.shape == (n,), "%s: shapes %r %r", what, alpha.shape, mu.shape)
    ctx.require(np.isfinite(L) and np.all(np.isfinite(alpha)) and np.all(np.isfinite(mu)), "%s: not finite: %r", what, result)
    ctx.require(np.all(mu >= 0) and np.all(alpha >= 0), "%s: negative rate or influence: %r %r", what, alpha, mu)
    m = np.asarray(m, float)
    ctx.require(np.all(alpha[m == 0] == 0), "%s: influence off the structure: %r for %r", what, alpha, m)
    want = penalised(shp, case, alpha, mu, m.sum(), weighted_aic)
    ctx.require(abs(L - want) <= 1e-8 * (1 + abs(want)), "%s: score %r, penalised log-likelihood of the reported parameters %r", what, L, want)
    counts = np.asarray(shp.X, float).sum(0)
    for i in range(n):
        if not m[:, i].any():
            ctx.require(abs(mu[i] - counts[i] / float(shp.T)) <= 1e-9 * (1 + mu[i]), "%s: a type without causes has rate %r, %r events in %r", what, mu[i], counts[i], shp.T)


@SUITE.sub("fit", strategy=fits(), quick=500, thorough=12000, shards=8)
def fit(case, ctx):
    m = np.array(case["structure"])
    if m.size == 0:
        raise Reject()
    dag = acyclic(m)
    shp = make(case)
    keep = m.copy()
    with hush():
        r = shp.EM(m)
    ctx.require(np.array_equal(m, keep), "EM changed the structure")
    if dag:
        valid_fit(ctx, shp, case, m, r, "EM")
        with hush():
            again = shp.EM(m.copy())
        valid_fit(ctx, shp, case, m, again, "EM, second call")
        ctx.require(abs(again[0] - r[0]) <= 1e-8 * (1 + abs(r[0])), "EM scores the same structure %r, then %r", r[0], again[0])
    else:
        ctx.require(r[0] == -np.inf, "cyclic structure scored %r", r[0])
        ctx.require(not np.asarray(r[1]).any() and not np.asarray(r[2]).any(), "cyclic structure got parameters %r", r)
    # another structure on the same learner: what was remembered may not leak
    sub = m.copy()
    nz = np.argwhere(sub)
    if len(nz):
        sub[tuple(nz[len(nz) // 2])] = 0
    if acyclic(sub):
        with hush():
            valid_fit(ctx, shp, case, sub, shp.EM(sub), "EM without one edge")
    other = make(case)
    np.random.seed(99)
    with hush():
        s = other.EM(m)
    ctx.require(same(s[0], r[0], 1e-7) and same(s[1], r[1], 1e-6) and same(s[2], r[2], 1e-6), "equal seeds, different fits: %r and %r", r, s)
    full = make(case)
    with hush():
        f = full.EM_not_HC(m)
    ctx.require(np.array_equal(m, keep), "EM_not_HC changed the structure")
    valid_fit(ctx, full, case, m, f, "EM without search", weighted_aic=True)
    ctx.nontrivial(m.any())
    ctx.label("cyclic", not dag)
    ctx.label("self-exciting", bool(np.diag(m).any()))
    ctx.label("AIC", case["penalty"] == "AIC")


def moves(S):
    n = len(S)
    for i in range(n):
        for j in range(n):
            if i == j:
                continue
            if S[i, j]:
                a = S.copy()
                a[i, j] = 0
                yield "delete", a
                if not S[j, i]:
                    b = a.copy()
                    b[j, i] = 1
                    yield "reverse", b
            elif not S[j, i]:
                a = S.copy()
                a[i, j] = 1
                yield "add", a


def climbed(ctx, case, shp, start):
    with hush():
        r = shp.Hill_Climb()
    S = (np.asarray(r[1]) != 0).astype(int)
    ctx.require(acyclic(S), "the found structure has a cycle: %r", S)
    ctx.require(np.array_equal(np.diag(S), np.diag(start)) or not np.diag(S).any(), "self-influence appeared: %r", S)
    valid_fit(ctx, shp, case, S, r, "hill climbing")
    with hush():
        first = shp.EM(np.array(start))[0]
    ctx.require(r[0] >= first - 1e-8 * (1 + abs(first)), "the found structure scores %r, its start %r", r[0], first)
    for kind, T in moves(S):
        with hush():
            L = shp.EM(T)[0]
        ctx.require(not acyclic(T) or L <= r[0] + 1e-8 * (1 + abs(r[0])), "%s gives %r with score %r, better than %r of %r", kind, T, L, r[0], S)
    return r, S


@st.composite
def climbs(draw):
    c = draw(fits())
    n = len(c["structure"])
    if not acyclic(c["structure"]):
        c["structure"] = [[c["structure"][i][j] if i < j else 0 for j in range(n)] for i in range(n)]
    for i in range(n):
        c["structure"][i][i] = 0
    c["reg"] = draw(st.sampled_from([.3, .1, .85, 1.0]))
    c["start"] = draw(st.sampled_from(["none", "given", "given"]))
    return c


@SUITE.sub("search", strategy=climbs(), quick=250, thorough=6000, shards=8)
def search(case, ctx):
    n = len(case["structure"])
    start = np.zeros((n, n), dtype=int) if case["start"] == "none" else np.array(case["structure"])
    kw = {} if case["start"] == "none" else {"init_structure": start.copy()}
    shp = make(case, **kw)
    r, S = climbed(ctx, case, shp, start)
    np.random.seed(5)
    other = make(case, **kw)
    with hush():
        s = other.Hill_Climb()
    ctx.require(same(s[0], r[0], 1e-7) and same(s[1], r[1], 1e-6) and same(s[2], r[2], 1e-6), "equal seeds, different results: %r and %r", r, s)
    ctx.nontrivial(bool(S.any() or start.any()))
    ctx.label("edges found", bool(S.any()))
    ctx.label("from a structure", bool(start.any()))


@st.composite
def samples(draw):
    n = draw(st.sampled_from([3, 2, 4]))
    perm = draw(st.permutations(list(range(n))))
    pairs = [(perm[a], perm[b]) for a in range(n) for b in range(a + 1, n)]
    return {"n": n, "edges": [list(p) for p in pairs if draw(st.booleans())], "seed": draw(st.integers(0, 10 ** 6)), "decay": draw(st.sampled_from([1.0, .5, 3.0])),
            "seqs": draw(st.sampled_from([1, 3])), "names": draw(st.sampled_from([0, 1])), "start": draw(st.sampled_from(["none", "reversed", "full"]))}


def branching(case, mu=.05, child=.9, total=700):
    """Poisson immigrants, Poisson offspring along the edges with exponential delays."""
    rng = np.random.default_rng(case["seed"])
    n = case["n"]
    rows = []
    horizon = total / (mu * n) / case["seqs"] * case["decay"] ** -1
    rate = mu * case["decay"]
    order = hg.topo(n, [tuple(e) for e in case["edges"]])
    for s in range(case["seqs"]):
        t = [list(rng.uniform(0, horizon, rng.poisson(rate * horizon))) for _ in range(n)]
        for v in order:
            for a, b in case["edges"]:
                if a == v:
                    for x in t[a]:
                        t[b] += [x + y for y in rng.exponential(1 / case["decay"], rng.poisson(child))]
        rows += [[s, x, i] for i in range(n) for x in t[i] if x < horizon]
    return rows


@SUITE.sub("recovery", strategy=samples(), quick=24, thorough=400, shards=8)
def recovery(case, ctx):
    n = case["n"]
    rows = branching(case)
    truth = np.zeros((n, n), dtype=int)
    for a, b in case["edges"]:
        truth[a, b] = 1
    if case["names"]:
        names = ["e9", "e10", "a", "zz"][:n]
        rank = sorted(names)
        rows = [[s, t, rank[i]] for s, t, i in rows]
    kw = {}
    start = np.zeros((n, n), dtype=int)
    if case["start"] != "none":
        start = truth.T.copy() if case["start"] == "reversed" else np.triu(np.ones((n, n), dtype=int), 1)
        kw["init_structure"] = start
    c = {"rows": rows, "decay": case["decay"], "grid": None, "penalty": "BIC", "reg": 1.0, "seed": case["seed"]}
    shp = make(c, **kw)
    with hush():
        L, alpha, mu = shp.EM(truth)
    valid_fit(ctx, shp, c, truth, (L, alpha, mu), "fit of the true graph")
    for a, b in case["edges"]:
        ctx.require(abs(alpha[a, b] / case["decay"] - .9) < .35, "influence of %r on %r is %r children per event, .9 were generated", a, b, alpha[a, b] / case["decay"])
    r, S = climbed(ctx, c, shp, start)
    if case["start"] == "none":
        ctx.require(np.array_equal(S, truth), "found %r from %d events of %r", S.tolist(), len(rows), truth.tolist())
    else:
        ctx.label("recovered from another start", np.array_equal(S, truth))
    ctx.nontrivial(bool(case["edges"]))
    ctx.label("start " + case["start"])


@st.composite
def bad(draw):
    c = draw(excited())
    n = len({r[2] for r in c["rows"]})
    m = [[0] * n for _ in range(n)]
    m[draw(st.integers(0, n - 1))][draw(st.integers(0, n - 1))] = draw(st.sampled_from([2, -1, .5, 0, 1]))
    c.update(structure=m, penalty=draw(st.sampled_from(["BIC", "AIC", "bic", "MDL", ""])))
    return c


@SUITE.sub("arguments", strategy=bad(), quick=60, thorough=500)
def arguments(case, ctx):
    m = np.array(case["structure"])
    ok = case["penalty"] in ("BIC", "AIC") and np.isin(m, (0, 1)).all()
    if ok:
        learner(case["rows"], case["decay"], case["grid"], penalty=case["penalty"], init_structure=m)
    else:
        ctx.raises(Exception, lambda: learner(case["rows"], case["decay"], case["grid"], penalty=case["penalty"], init_structure=m), "penalty %r, structure %r" % (case["penalty"], m.tolist()))
    ctx.nontrivial(not ok)
