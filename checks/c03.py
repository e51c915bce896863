"""C03: PC with Fisher-Z is invariant to representation changes of the data."""
import functools

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Reject, Suite

SUITE = Suite("C03", "linear data from random DAGs of 2-6 variables (15-400 rows, several noise shapes), random levels, both searches; each "
              "case is refitted after permuting rows, shifting and rescaling columns by positive and negative factors, changing the "
              "container, the names and the memory layout, permuting columns and reusing the object; cases in which some p-value lies within 1e-6 "
              "of the level are skipped; non-trivial: the graph has at least one edge and one removed pair")


@st.composite
def cases(draw):
    d = draw(hg.dags(min_n=2, max_n=6))
    n = d["n"]
    d["seed"] = draw(st.integers(0, 10 ** 6))
    d["rows"] = draw(st.sampled_from([15, 40, 100, 400]))
    d["strength"] = draw(st.sampled_from([0.3, 0.7, 1.5]))
    d["noise"] = draw(st.sampled_from(["gauss", "uniform", "exp"]))
    d["alpha"] = draw(st.sampled_from([0.01, 0.05, 0.2, 0.5]))
    d["search"] = draw(st.sampled_from(["default", "fast"]))
    d["labels"] = draw(st.sampled_from(["rev", "str", "tuple", "mixed", "float", "odd"]))
    d["perm"] = list(draw(st.permutations(range(n))))
    d["scale"] = draw(st.lists(st.sampled_from([1.0, -1.0, 0.001, -250.0, 3.5, 1e4]), min_size=n, max_size=n))
    d["shift"] = draw(st.lists(st.sampled_from([0.0, 1.0, -7.5, 100.0]), min_size=n, max_size=n))
    return d


def data_for(case):
    rng = np.random.RandomState(case["seed"])
    n, rows = case["n"], case["rows"]
    noise = {"gauss": rng.randn(rows, n), "uniform": rng.uniform(-1, 1, (rows, n)), "exp": rng.exponential(1, (rows, n))}[case["noise"]]
    X = np.zeros((rows, n))
    for v in hg.topo(n, [tuple(e) for e in case["edges"]]):
        X[:, v] = noise[:, v]
        for a, b in case["edges"]:
            if b == v:
                X[:, v] += case["strength"] * (1 if rng.rand() < .7 else -1) * X[:, a]
    return X


@functools.lru_cache(None)
def recorder():
    from cdmir.utils.independence import FisherZ

    class Recorder(FisherZ):
        """FisherZ that notes how close a p-value came to the level; one class for all fits, as for a user."""
        def cal_stats(self, *a, **k):
            r = super().cal_stats(*a, **k)
            Recorder.gap = min(Recorder.gap, abs(r[0] - Recorder.alpha))
            return r

    return Recorder


def fit(case, data, names, pc=None, positional=False):
    """-> (pc, marks {(i,j): mark}, seps, smallest distance of a p-value to the level), in column positions."""
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import fast_adjacency_search
    Recorder = recorder()
    Recorder.gap, Recorder.alpha = 1.0, case["alpha"]
    if pc is None:
        pc = PC(alpha=case["alpha"]) if case["search"] == "default" else PC(case["alpha"], fast_adjacency_search)
    if positional:
        pc.fit(data, names, Recorder)
    elif names is None:
        pc.fit(data, indep_cls=Recorder)
    else:
        pc.fit(data, var_names=names, indep_cls=Recorder)
    nodes = list(pc.causal_graph.nodes)
    k = len(nodes)
    M = np.asarray(pc.causal_graph.to_numpy()).tolist()
    S = np.asarray(pc.skeleton.to_numpy()).tolist()
    seps = {(i, j): sorted(nodes.index(z) for z in pc.sep_set[(nodes[i], nodes[j])]) for i in range(k) for j in range(k) if i != j}
    return pc, nodes, M, S, seps, Recorder.gap


def frame(X, names):
    df = pd.DataFrame(X)
    df.columns = pd.Index(names, tupleize_cols=False)
    return df


@SUITE.sub("metamorphic", strategy=cases(), quick=700, thorough=15000, shards=8)
def metamorphic(case, ctx):
    n = case["n"]
    X = data_for(case)
    rng = np.random.RandomState(case["seed"] + 1)
    names = [hg.label(case["labels"], i) for i in range(n)]
    pc0, nodes, M, S, seps, gap = fit(case, X, None)
    ctx.require(nodes == list(range(n)), "default names are %r", nodes)
    if gap < 1e-6:
        raise Reject()
    rows = rng.permutation(len(X))
    Y = X * np.array(case["scale"]) + np.array(case["shift"])
    variants = [
        ("the same array again", X, None, list(range(n)), False),
        ("permuted rows", X[rows], None, list(range(n)), False),
        ("rescaled and shifted columns", Y, None, list(range(n)), False),
        ("Fortran-ordered array", np.asfortranarray(X), None, list(range(n)), False),
        ("array with names", X, names, names, False),
        ("array with positional arguments", X, names, names, True),
        ("dataframe", frame(X, names), None, names, False),
        ("dataframe with a shuffled row index", frame(X, names).iloc[rows], None, names, False),
        ("dataframe with explicit names", pd.DataFrame(X, columns=["c%d" % (17 * i % 23) for i in range(n)]), names, names, False),
        ("dataframe with positional arguments", pd.DataFrame(Y), names, names, True),
    ]
    for what, data, nm, expect, positional in variants:
        keep = data.copy()
        _, nd, M2, S2, seps2, _ = fit(case, data, nm, positional=positional)
        same = data.equals(keep) and list(data.columns) == list(keep.columns) if isinstance(data, pd.DataFrame) else np.array_equal(data, keep)
        ctx.require(same, "%s: fit modified the table", what)
        ctx.require(nd == expect, "%s: nodes %r, expected %r", what, nd, expect)
        ctx.require(S2 == S, "%s: skeleton %r, expected %r", what, S2, S)
        ctx.require(seps2 == seps, "%s: separating sets %r, expected %r", what, seps2, seps)
        ctx.require(M2 == M, "%s: graph %r, expected %r", what, M2, M)
    # a reused object
    other = data_for(dict(case, seed=case["seed"] + 2))[:, ::-1]
    fit(case, other, names, pc=pc0)
    for what, before in (("names", None), ("the same names", other), ("one row more", np.vstack([other, other[:1]]))):
        if before is not None:
            again, fresh = fit(case, before, None, pc=pc0), fit(case, before, None)
            ctx.require(again[2:5] == fresh[2:5], "refitting the object on other data (%s) gives %r, a fresh one %r", what, again[2], fresh[2])
        _, nd, M2, S2, seps2, _ = fit(case, X, None, pc=pc0)
        ctx.require((M2, S2, seps2) == (M, S, seps), "refitting the object after other data with %s gives %r, a fresh one %r", what, M2, M)
    level = 0.6 if case["alpha"] < 0.3 else 0.01
    pc0.set_alpha(level)
    again = fit(dict(case, alpha=level), X, None, pc=pc0)
    fresh = fit(dict(case, alpha=level), X, None)
    ctx.require(again[2:5] == fresh[2:5], "refitting at another level gives %r, a fresh object %r", again[2], fresh[2])
    if case["search"] == "default":
        p = case["perm"]
        _, nd, M2, S2, seps2, _ = fit(case, X[:, p], None)
        for i in range(n):
            for j in range(n):
                if i != j:
                    ctx.require(S2[i][j] == S[p[i]][p[j]], "permuted columns %r: skeleton differs at %d,%d", p, p[i], p[j])
                    ctx.require(sorted(p[z] for z in seps2[(i, j)]) == seps[(p[i], p[j])], "permuted columns %r: separating set of %d,%d differs", p, p[i], p[j])
    edges = sum(1 for i in range(n) for j in range(i) if S[i][j])
    ctx.nontrivial(0 < edges < n * (n - 1) // 2)
    ctx.label("n=%d" % n)
    ctx.label("some conditional removal", any(seps.values()))


# many samples: blocked or thinned computations would show
SUITE.sub("many_rows", strategy=st.tuples(cases(), st.sampled_from([1500, 4000])).map(lambda t: dict(t[0], rows=t[1])), quick=48, thorough=1000, shards=8)(metamorphic)
