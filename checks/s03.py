"""S03: cross-validated kernel scores."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import tables
from harness.core import Suite

SUITE = Suite("S03", "random continuous tables of 6-60 (some of 120-260) rows and 2-5 columns, 0-3 parents, 2-10 folds (dividing the rows or not), random "
              "regularisation, for the multi-dimensional score also variables of one to three columns in any grouping; oracle: own "
              "kernels and the fold likelihood rewritten through residual cross-kernels and log-determinants; parent order, shifts and "
              "rescaling as metamorphic relations; non-trivial: at least one parent and folds of unequal size")


@st.composite
def cases(draw, multi=False):
    d = draw(st.sampled_from([3, 4, 2, 5]))
    c = {"d": d, "seed": draw(st.integers(0, 10 ** 6)), "folds": draw(st.sampled_from([None, 2, 3, 5, 10])),
         "lam": draw(st.sampled_from([None, 0.01, 0.1, 0.5])), "frame": draw(st.booleans()), "dep": draw(st.sampled_from([0.0, 0.5, 2.0])), "int": draw(st.sampled_from([False, False, True]))}
    k = c["folds"] or 10
    c["rows"] = draw(st.sampled_from([2 * k, 2 * k + 1, 3 * k - 1, 31, 45])) if k * 2 <= 31 else 45
    groups = [[i] for i in range(d)]
    if multi and draw(st.booleans()):
        perm = list(draw(st.permutations(range(d))))
        groups, pos = [], 0
        while pos < d:
            w = draw(st.sampled_from([1, 2, 3]))
            groups.append(perm[pos:pos + w])
            pos += w
        c["groups"] = groups
    m = len(groups)
    perm = list(draw(st.permutations(range(m))))
    c["i"], c["parents"] = perm[0], perm[1:1 + draw(st.sampled_from([1, 2, 0, 3]))]
    return c


def table(case):
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(case["rows"], case["d"])
    for k in range(1, case["d"]):
        X[:, k] += case["dep"] * np.sin(X[:, k - 1])
    if case.get("spread"):
        X *= np.linspace(2.5, .4, len(X))[:, None]  # the first rows are not like the last
    if case.get("int"):
        X = np.clip(np.round(X * 25), -120, 120).astype(int)
    return X


def gram(X, factor, by_dim):
    n = len(X)
    sq = ((X[:, None, :] - X[None, :, :]) ** 2).sum(-1)
    up = sq[np.triu_indices(n, 1)]
    width2 = 0.5 * np.median(up[up > 0]) * factor ** 2 * (X.shape[1] if by_dim else 1)
    return np.exp(-sq / (2 * width2))


def centred(K):
    H = np.eye(len(K)) - 1.0 / len(K)
    return H @ K @ H


def cv_score(Kx, Kpa, folds, lam, gamma=0.01):
    T = len(Kx)
    size = T // folds
    total = 0.0
    for f in range(folds):
        te = np.arange(f * size, (f + 1) * size if f < folds - 1 else T)
        tr = np.setdiff1d(np.arange(T), te)
        nv, n1 = len(te), len(tr)
        Kt, X, Kr = Kx[np.ix_(te, te)], Kx[np.ix_(tr, te)], Kx[np.ix_(tr, tr)]
        if Kpa is None:
            B = np.eye(n1) + Kr / (gamma * n1)
            tr_a = (np.trace(Kt) - np.sum(X * np.linalg.solve(B, X)) / (gamma * n1)) / gamma
        else:
            P = Kpa[np.ix_(tr, te)]
            M = np.linalg.inv(Kpa[np.ix_(tr, tr)] + n1 * lam * np.eye(n1))
            c = n1 * lam ** 2 / gamma
            S = M @ Kr @ M
            B = np.eye(n1) + c * S
            R = X - Kr @ M @ P
            tr_a = (np.trace(Kt) + np.sum(P * (S @ P)) - 2 * np.sum(X * (M @ P)) - c * np.sum((M @ R) * np.linalg.solve(B, M @ R))) / gamma
        logdet = np.linalg.slogdet(B)[1] / 2
        total += (nv * nv * math.log(2 * math.pi) + nv * logdet + tr_a) / 2
    return -total / folds


def kwargs(case):
    kw = {}
    if case["folds"] is not None:
        kw["k_fold"] = case["folds"]
    if case["lam"] is not None:
        kw["lambda_value"] = case["lam"]
    return kw


def judge(case, ctx, cls, groups, factor, by_dim):
    X = table(case)
    keep = X.copy()
    i, p = case["i"], case["parents"]
    Kx = centred(gram(X[:, groups[i]], factor, by_dim))
    Kpa = None
    if p:
        Kpa = np.ones_like(Kx)
        for m in p:
            Kpa = Kpa * gram(X[:, groups[m]], factor, by_dim)
        Kpa = centred(Kpa)
    want = cv_score(Kx, Kpa, case["folds"] or 10, case["lam"] if case["lam"] is not None else 0.01)
    kw = kwargs(case)
    if "groups" in case:
        kw["d_label"] = {k: g for k, g in enumerate(groups)}
    make = lambda A: cls(tables.frame(A, ["v%d" % (17 * k % 23) for k in range(A.shape[1])]) if case["frame"] else tables.array(A), **kw)
    s = make(X)
    ctx.close(float(s(i, p)), want, "score of %d given %r" % (i, p), rtol=1e-6, atol=1e-6)
    ctx.close(float(s(i, tuple(p[::-1]))), want, "score with the parents reversed", rtol=1e-6, atol=1e-6)
    ctx.close(float(s(i, set(p))), want, "score with the parents as a set", rtol=1e-6, atol=1e-6)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    scale, shift = 2.5 if case["seed"] % 2 else 0.2, 3.0
    Y = X * scale + shift
    if by_dim is False:
        Y = X * np.array([scale, -1.5, 4.0, 0.5, 2.0][:case["d"]]) + np.arange(case["d"])
    ctx.close(float(make(Y)(i, p)), want, "score of shifted and rescaled columns", rtol=1e-5, atol=1e-5)
    if p:
        ctx.close(float(make(X)(i, [])), cv_score(Kx, None, case["folds"] or 10, 0.01), "score without parents", rtol=1e-6, atol=1e-6)
    ctx.nontrivial(bool(p) and case["rows"] % (case["folds"] or 10) != 0)
    ctx.label("%d parents" % len(p))


@SUITE.sub("general", strategy=cases(), quick=400, thorough=8000, shards=6)
def general(case, ctx):
    from cdmir.utils.local_score import GeneralCVScore
    judge(case, ctx, GeneralCVScore, [[k] for k in range(case["d"])], 2, False)


@SUITE.sub("multi", strategy=cases(multi=True), quick=400, thorough=8000, shards=6)
def multi(case, ctx):
    from cdmir.utils.local_score import MultiCVScore
    judge(case, ctx, MultiCVScore, case.get("groups") or [[k] for k in range(case["d"])], 3, True)
    ctx.label("several columns per variable", any(len(g) > 1 for g in case.get("groups", [])))


@SUITE.sub("large", strategy=st.tuples(cases(), st.sampled_from([120, 205, 230, 260]), st.booleans()).map(
    lambda t: dict(t[0], rows=t[1], folds=t[0]["folds"] if t[0]["folds"] in (2, 3) else 4, parents=t[0]["parents"][:2], spread=True, many=t[2])),
    quick=16, thorough=200, shards=8)
def large(case, ctx):
    from cdmir.utils.local_score import GeneralCVScore, MultiCVScore
    groups = [[k] for k in range(case["d"])]
    if case["many"]:
        judge(case, ctx, MultiCVScore, groups, 3, True)
    else:
        judge(case, ctx, GeneralCVScore, groups, 2, False)


@st.composite
def histories(draw):
    d = draw(st.sampled_from([13, 4]))
    q = st.tuples(st.sampled_from([0, 1, d - 1]), st.sampled_from([[1, 2], [d - 1], [1], [2], [], [2, 1], [0], [0, 1], [1, 0], [d - 2]]))
    qs = [[i, p] for i, p in draw(st.lists(q, min_size=3, max_size=6)) if i not in p]
    return {"d": d, "seed": draw(st.integers(0, 10 ** 6)), "folds": 2, "rows": 14, "dep": 2.0, "queries": qs, "multi": draw(st.booleans())}


@SUITE.sub("one_object", strategy=histories(), quick=48, thorough=1000, shards=4)
def one_object(case, ctx):
    from cdmir.utils.local_score import GeneralCVScore, MultiCVScore
    X = table(case)
    cls, factor, by_dim = (MultiCVScore, 3, True) if case["multi"] else (GeneralCVScore, 2, False)
    s = cls(X, k_fold=2)
    for i, p in case["queries"]:
        Kpa = None
        if p:
            Kpa = np.ones((14, 14))
            for m in p:
                Kpa = Kpa * gram(X[:, [m]], factor, by_dim)
            Kpa = centred(Kpa)
        ctx.close(float(s(i, p)), cv_score(centred(gram(X[:, [i]], factor, by_dim)), Kpa, 2, 0.01), "score of %d given %r after other queries" % (i, p), rtol=1e-6, atol=1e-6)
    ctx.nontrivial(len(case["queries"]) >= 2)
