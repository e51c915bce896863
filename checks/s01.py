"""S01: BIC local score."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Reject, Suite

SUITE = Suite("S01", "random tables of 8-400 rows and 2-7 columns (Gaussian, integer, scaled and shifted), every parent count down to none, "
              "parents as list, tuple, set, range, array and iterator, random penalties; histories of queries on one object over up to 24 columns; random DAGs with all members of their "
              "equivalence class; oracle: least-squares residual variance of standardised columns; non-trivial: at least one parent, "
              "respectively a class with at least two members",
              ["parent correlation matrices of condition number above 1e6 are skipped"])


@st.composite
def cases(draw):
    d = draw(st.sampled_from([3, 4, 5, 2, 6, 7]))
    perm = list(draw(st.permutations(range(d))))
    k = draw(st.sampled_from(list(range(d))[::-1]))
    return {"d": d, "i": perm[0], "parents": perm[1:1 + k], "seed": draw(st.integers(0, 10 ** 6)),
            "rows": draw(st.sampled_from([30, 12, 100, 400, 20])), "kind": draw(st.sampled_from(["gauss", "int", "scaled", "strong"])),
            "lam": draw(st.sampled_from([None, None, 2, 0.5, 10, 0])), "frame": draw(st.booleans())}


def table(case):
    rng = np.random.RandomState(case["seed"])
    n, d = case["rows"], case["d"]
    X = rng.randn(n, d) @ (np.eye(d) + (1.5 if case.get("kind") == "strong" else .6) * np.triu(rng.randn(d, d), 1))
    X = X[:, rng.permutation(d)]
    if case.get("kind") == "int":
        X = np.round(X * 3).astype(int)
    if case.get("kind") == "scaled":
        X = X * 10.0 ** rng.randint(-4, 5, d) + rng.randint(-5, 6, d)
    return X


def build(X, case):
    from cdmir.utils.local_score import BICScore
    data = tables.frame(X, ["v%d" % (17 * k % 23) for k in range(X.shape[1])]) if case.get("frame") else tables.array(X)
    return BICScore(data) if case.get("lam") is None else BICScore(data, lambda_value=case["lam"])


def bic(X, i, parents, lam):
    n = len(X)
    Z = (X - X.mean(0)) / X.std(0)
    A = Z[:, parents]
    r = Z[:, i] - (A @ np.linalg.lstsq(A, Z[:, i], rcond=None)[0] if parents else 0)
    return -(n * math.log(r @ r / n) + lam * len(parents) * math.log(n))


def containers(p):
    out = [("list", list(p)), ("tuple", tuple(p)), ("reversed list", list(p)[::-1]), ("set", set(p)), ("array", np.array(p, dtype=int)),
           ("iterator", iter(list(p))), ("generator", (v for v in list(p))), ("frozenset", frozenset(p)), ("dict keys", dict.fromkeys(p).keys())]
    if sorted(p) == list(range(len(p))):
        out.append(("range", range(len(p))))
    return out


@SUITE.sub("formula", strategy=cases(), quick=3000, thorough=80000, shards=6)
def formula(case, ctx):
    X = table(case)
    i, p = case["i"], case["parents"]
    lam = 1 if case["lam"] is None else case["lam"]
    if X.std(0).min() == 0 or np.linalg.cond(np.corrcoef(X[:, [i] + p].astype(float), rowvar=False).reshape(len(p) + 1, -1)) > 1e6:
        raise Reject()
    want = bic(X.astype(float), i, p, lam)
    keep = X.copy()
    one = build(X, case)
    for what, c in containers(p):
        fresh = build(X, case)
        for obj, kind in ((fresh, "fresh object"), (one, "reused object")):
            if kind == "reused object" and what in ("iterator", "generator"):
                c = iter(list(p))
            ctx.close(float(obj(i, c)), want, "score of %d given %r as %s (%s)" % (i, p, what, kind), rtol=1e-7, atol=1e-6)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    ctx.nontrivial(bool(p))
    ctx.label("%d parents" % len(p))
    ctx.label("lambda=%s" % lam)


@st.composite
def graph_cases(draw):
    d = draw(hg.dags(min_n=2, max_n=5))
    d["seed"] = draw(st.integers(0, 10 ** 6))
    d["rows"] = draw(st.sampled_from([25, 80, 300]))
    d["lam"] = draw(st.sampled_from([None, 2, 0.5]))
    d["d"] = d["n"]
    return d


@SUITE.sub("score_equivalence", strategy=graph_cases(), quick=800, thorough=20000, shards=4)
def equivalence(case, ctx):
    X = table(case)
    s = build(X, case)
    ms = hg.members(case["n"], case["edges"], 30)
    totals = []
    for m in ms:
        pa = hg.parents_of(case["n"], m)
        totals.append(sum(float(s(v, sorted(pa[v]))) for v in range(case["n"])))
    ctx.close(totals, [totals[0]] * len(totals), "scores of the equivalent DAGs %r" % [sorted(m) for m in ms[:2]], rtol=1e-8, atol=1e-6)
    ctx.nontrivial(len(ms) > 1)
    ctx.label("class size %d" % min(len(ms), 10))


@st.composite
def histories(draw):
    """Queries on one object over a wide table: parent sets that share digits, orders or sums."""
    d = draw(st.sampled_from([14, 13, 24, 5]))
    near = st.sampled_from([[1, 2], [12], [2, 1], [1], [2], [], [11], [1, 11], [1, 12], [11, 2], [3, 4], [7], [3], [21], [10, 1], [1, 0], [0, 1], [10], [1, 2, 3], [12, 3], [1, 23], [4, 3, 2]])
    q = st.tuples(st.sampled_from([0, 0, 5, 12, 1, 2]), st.one_of(near, near, st.lists(st.integers(0, d - 1), max_size=4, unique=True)))
    qs = [[i, p] for i, p in draw(st.lists(q, min_size=4, max_size=16)) if i < d and all(v < d for v in p) and i not in p]
    return {"d": d, "seed": draw(st.integers(0, 10 ** 6)), "rows": draw(st.sampled_from([60, 200])), "lam": draw(st.sampled_from([None, 2])), "frame": draw(st.booleans()), "queries": qs}


@SUITE.sub("one_object", strategy=histories(), quick=400, thorough=10000, shards=4)
def one_object(case, ctx):
    X = table(case)
    s = build(X, case)
    for i, p in case["queries"]:
        want = bic(X, i, p, case["lam"] or 1)
        if p and np.linalg.cond(np.corrcoef(X[:, [i] + p], rowvar=False)) > 1e6:
            continue
        ctx.close(float(s(i, p)), want, "score of %d given %r after other queries" % (i, p), rtol=1e-7, atol=1e-6)
    ctx.nontrivial(len(case["queries"]) >= 3)


# many samples: blocked or thinned computations would show
SUITE.sub("many_rows", strategy=st.tuples(cases(), st.sampled_from([1300, 5001, 2048])).map(lambda t: dict(t[0], rows=t[1])), quick=200, thorough=4000, shards=6)(formula)
