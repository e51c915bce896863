"""S02: BDeu local score."""
import math
from collections import Counter

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite
from checks.s01 import containers

SUITE = Suite("S02", "random discrete tables of 4-150 rows and 2-5 columns with 1-5 categories each (dense and sparse, unobserved parent "
              "configurations, constant columns), coded as small, negative, large or fractional numbers or strings, arrays or dataframes, "
              "every parent count down to none, up to 25 parents and up to 130 states, random equivalent sample sizes and structure priors, shuffled rows; histories of queries on one object over up to 24 columns; random DAGs with all members of their class; "
              "oracle: counting with dictionaries and lgamma; non-trivial: at least one parent and an unobserved configuration, "
              "respectively a class with two members",
              ["the structure prior is smaller than the number of rows minus one, as its logarithm requires"])


@st.composite
def cases(draw):
    d = draw(st.sampled_from([3, 2, 4, 5]))
    perm = list(draw(st.permutations(range(d))))
    k = draw(st.sampled_from(list(range(d))[::-1]))
    return {"d": d, "i": perm[0], "parents": perm[1:1 + k], "seed": draw(st.integers(0, 10 ** 6)), "rows": draw(st.sampled_from([20, 4, 7, 50, 150])),
            "cats": draw(st.lists(st.sampled_from([2, 3, 1, 5, 4]), min_size=d, max_size=d)),
            "coding": draw(st.sampled_from(["small", "negative", "large", "fraction", "string", "frame", "frame_names"])),
            "ess": draw(st.sampled_from([None, 1, 10, 0.5, 100])), "sp": draw(st.sampled_from([None, None, 1, 0.5, 2]))}


def table(case):
    """Category indices."""
    rng = np.random.RandomState(case["seed"])
    n, d = case["rows"], case["d"]
    X = np.zeros((n, d), dtype=int)
    for k in range(d):
        X[:, k] = (X[:, k - 1] + rng.binomial(case["cats"][k], .3, n)) % case["cats"][k] if k and rng.rand() < .7 else rng.randint(0, case["cats"][k], n)
    return X


def coded(case, X):
    c = case.get("coding", "small")
    rng = np.random.RandomState(case["seed"] + 3)
    if c in ("small", "frame"):
        data = X.copy()
    elif c == "negative":
        data = X * -2 + 1
    elif c == "large":
        data = X * 1000003 + 10 ** 9
    elif c == "fraction":
        data = X / 7.0 - 0.1
    elif c == "string":
        data = np.array([["abcdefg"[v] for v in row] for row in X], dtype=object)
    else:
        data = X[:, :].copy()
        for k in range(X.shape[1]):
            data[:, k] = rng.permutation(10)[X[:, k]]
    if c.startswith("frame"):
        return tables.frame(data, ["c%d" % (17 * k % 23) for k in range(X.shape[1])])
    return tables.array(data)


def bdeu(X, i, parents, ess, sp):
    n = len(X)
    r = len(set(X[:, i]))
    q = 1
    for p in parents:
        q *= len(set(X[:, p]))
    nij, nijk = Counter(), Counter()
    for row in X:
        c = tuple(row[p] for p in parents)
        nij[c] += 1
        nijk[c + (row[i],)] += 1
    s = len(parents) * math.log(sp / (n - 1)) + (n - 1 - len(parents)) * math.log(1 - sp / (n - 1))
    s += sum(math.lgamma(ess / q) - math.lgamma(v + ess / q) for v in nij.values())
    s += sum(math.lgamma(v + ess / (r * q)) - math.lgamma(ess / (r * q)) for v in nijk.values())
    return s, q > len(nij)


def build(case, data):
    from cdmir.utils.local_score import BDeuScore
    kw = {}
    if case.get("ess") is not None:
        kw["sample_prior"] = case["ess"]
    if case.get("sp") is not None:
        kw["structure_prior"] = case["sp"]
    return BDeuScore(data, **kw)


@SUITE.sub("formula", strategy=cases(), quick=700, thorough=15000, shards=8)
def formula(case, ctx):
    X = table(case)
    data = coded(case, X)
    keep = data.copy()
    i, p = case["i"], case["parents"]
    ess, sp = case["ess"] if case["ess"] is not None else 1, case["sp"] if case["sp"] is not None else 1
    want, sparse = bdeu(X, i, p, ess, sp)
    one = build(case, data)
    for k, (what, c) in enumerate(containers(p)):
        obj = one if k % 2 else build(case, data)
        ctx.close(float(obj(i, c)), want, "score of %d given %r as %s" % (i, p, what), rtol=1e-9, atol=1e-7)
    rng = np.random.RandomState(1)
    rows = rng.permutation(len(X))
    shuffled = data.iloc[rows] if isinstance(data, pd.DataFrame) else data[rows]
    ctx.close(float(build(case, shuffled)(i, p)), want, "score with shuffled rows", rtol=1e-9, atol=1e-7)
    ctx.require((keep == data).all() if not isinstance(data, pd.DataFrame) else data.equals(keep), "the data were modified")
    ctx.nontrivial(bool(p) and sparse)
    ctx.label("%d parents" % len(p))
    ctx.label(case["coding"])


@st.composite
def graph_cases(draw):
    d = draw(hg.dags(min_n=2, max_n=4))
    d.update(seed=draw(st.integers(0, 10 ** 6)), rows=draw(st.sampled_from([30, 100, 10])), d=d["n"],
             cats=draw(st.lists(st.sampled_from([2, 3, 4]), min_size=d["n"], max_size=d["n"])),
             ess=draw(st.sampled_from([None, 5, 0.5])), sp=draw(st.sampled_from([None, 2])))
    return d


@SUITE.sub("score_equivalence", strategy=graph_cases(), quick=240, thorough=5000, shards=8)
def equivalence(case, ctx):
    X = table(case)
    s = build(case, X)
    ms = hg.members(case["n"], case["edges"], 12)
    totals = []
    for m in ms:
        pa = hg.parents_of(case["n"], m)
        totals.append(sum(float(s(v, sorted(pa[v]))) for v in range(case["n"])))
    ctx.close(totals, [totals[0]] * len(totals), "scores of the equivalent DAGs %r" % [sorted(m) for m in ms[:2]], rtol=1e-9, atol=1e-6)
    ctx.nontrivial(len(ms) > 1)
    ctx.label("class size %d" % min(len(ms), 10))


@st.composite
def histories(draw):
    from checks.s01 import histories as wide
    c = draw(wide())
    return dict(c, rows=draw(st.sampled_from([12, 40])), cats=draw(st.lists(st.sampled_from([2, 3, 4]), min_size=c["d"], max_size=c["d"])),
                coding=draw(st.sampled_from(["small", "negative", "frame"])), ess=draw(st.sampled_from([None, 10])), sp=None)


@SUITE.sub("one_object", strategy=histories(), quick=100, thorough=2000, shards=8)
def one_object(case, ctx):
    X = table(case)
    s = build(case, coded(case, X))
    for i, p in case["queries"][:8]:
        want, _ = bdeu(X, i, p, case["ess"] or 1, 1)
        ctx.close(float(s(i, p)), want, "score of %d given %r after other queries" % (i, p), rtol=1e-9, atol=1e-7)
    ctx.nontrivial(len(case["queries"]) >= 3)


# many samples: blocked or thinned computations would show
SUITE.sub("many_rows", strategy=st.tuples(cases(), st.sampled_from([700, 1025, 3000])).map(lambda t: dict(t[0], rows=t[1])), quick=32, thorough=600, shards=8)(formula)


@st.composite
def many_parents(draw):
    d = draw(st.sampled_from([9, 12, 16, 26]))
    c = draw(cases())
    perm = list(draw(st.permutations(range(d))))
    states = draw(st.sampled_from([[2, 3, 4], [5, 6, 7], [7], [2]]))
    return dict(c, d=d, i=perm[0], parents=perm[1:1 + draw(st.sampled_from([7, d - 1, 8, d // 2]))], rows=draw(st.sampled_from([40, 120, 15])), cats=[states[k % len(states)] for k in perm])


# up to 7 ** 25 parent configurations: more than any machine integer numbers
SUITE.sub("many_parents", strategy=many_parents(), quick=80, thorough=1500, shards=8)(formula)


@st.composite
def many_states(draw):
    c = draw(cases())
    return dict(c, rows=draw(st.sampled_from([400, 150])), coding=draw(st.sampled_from(["small", "negative", "large", "fraction", "frame"])),
                cats=draw(st.lists(st.sampled_from([40, 13, 130, 3]), min_size=c["d"], max_size=c["d"])))


SUITE.sub("many_states", strategy=many_states(), quick=48, thorough=900, shards=8)(formula)
