"""C01: PC with the d-separation oracle recovers the CPDAG."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("C01", "random DAGs of 2-6 (some of 7-9) nodes, random variable order and names, array / dataframe / explicit-name input, both search "
              "strategies, random levels, refits of one object on several DAGs; every DAG of up to 4 nodes (quick: a third of them); "
              "oracle: CPDAG by enumeration of the equivalence class; non-trivial: the CPDAG has a directed edge or at least two "
              "separated pairs",
              ["the true graph is handed over as the library's own directed graph; G02 decides its d-separation answers"])


@st.composite
def cases(draw):
    d = draw(hg.dags(min_n=2, max_n=draw(st.sampled_from([4, 5, 6]))))
    d["labels"] = draw(st.sampled_from(["int", "rev", "str", "tuple", "mixed", "float", "odd"]))
    d["order"] = list(draw(st.permutations(range(d["n"]))))
    d["gorder"] = list(draw(st.permutations(range(d["n"]))))
    d["search"] = draw(st.sampled_from(["default", "adjacency", "fast"]))
    d["form"] = draw(st.sampled_from(["frame", "named_array", "named_frame"]))
    d["alpha"] = draw(st.sampled_from([None, 0.01, 0.05, 0.5, 0.999]))
    d["verbose"] = draw(st.booleans())
    return d


def data_for(case, names):
    n = case["n"]
    rng = np.random.RandomState(n)
    X = rng.randn(12, n)
    form = case["form"]
    if form == "plain":
        return X, {}
    if form == "frame":
        df = pd.DataFrame(X)
        df.columns = pd.Index(names, tupleize_cols=False)
        return df, {}
    if form == "named_array":
        return X, {"var_names": list(names)}
    return pd.DataFrame(X, columns=["c%d" % (17 * i % 23) for i in range(n)]), {"var_names": list(names)}


def new_pc(case):
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    kw = {}
    if case["search"] != "default":
        kw["adjacency_search_method"] = {"adjacency": adjacency_search, "fast": fast_adjacency_search}[case["search"]]
    if case.get("alpha") is not None:
        kw["alpha"] = case["alpha"]
    if case.get("verbose"):
        kw["verbose"] = True
    return PC(**kw)


def check(case, ctx, pc=None):
    from cdmir.graph import PDAG
    from cdmir.utils.independence import Dsep
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    L = lambda i: hg.label(case["labels"], i)
    names = [L(i) for i in case["order"]]
    truth = hg.build_dag(dict(case, order=case["gorder"]))
    snap = hg.snapshot(truth)
    data, kw = data_for(case, names)
    keep = data.copy()
    pc = pc or new_pc(case)
    pc.fit(data, indep_cls=Dsep, true_graph=truth, **kw)
    same = data.equals(keep) if isinstance(data, pd.DataFrame) else np.array_equal(data, keep)
    ctx.require(same and hg.snapshot(truth) == snap, "fit modified its inputs")
    g, s = pc.causal_graph, pc.skeleton
    ctx.require(isinstance(g, PDAG) and isinstance(s, PDAG), "result types %s %s", type(g), type(s))
    ctx.require(list(g.nodes) == names and list(s.nodes) == names, "nodes %r, expected %r", list(g.nodes), names)
    d, u = hg.read_pdag(ctx, g, case)
    sd, su = hg.read_pdag(ctx, s, case)
    sk = hg.skeleton(edges)
    ctx.require(not sd and su == sk, "skeleton %r, expected %r", sorted(map(sorted, su)), sorted(map(sorted, sk)))
    wd, wu = hg.cpdag(n, edges)
    ctx.require(d == wd and u == wu, "graph: directed %r undirected %r, expected %r and %r",
                sorted(d), sorted(map(sorted, u)), sorted(wd), sorted(map(sorted, wu)))
    back = {L(i): i for i in range(n)}
    for a in range(n):
        for b in range(n):
            if a == b:
                continue
            z = {back[x] for x in pc.sep_set[(L(a), L(b))]}
            if frozenset((a, b)) in sk:
                ctx.require(not z, "adjacent pair %r,%r has a separating set %r", L(a), L(b), z)
            else:
                ctx.require(a not in z and b not in z and hg.d_separated(n, edges, a, b, z),
                            "the set %r recorded for %r,%r does not separate them", z, L(a), L(b))
    ctx.nontrivial(bool(wd) or n * (n - 1) // 2 - len(sk) >= 2)
    ctx.label("n=%d" % n)
    ctx.label(case["search"])
    return pc


SUITE.sub("random", strategy=cases(), quick=2400, thorough=50000, shards=8)(lambda case, ctx: check(case, ctx) and None)


@SUITE.sub("plain_array", strategy=hg.dags(min_n=2, max_n=5), quick=300, thorough=5000, shards=2)
def plain(case, ctx):
    for search in ("default", "fast"):
        c = dict(case, labels="int", order=list(range(case["n"])), gorder=list(range(case["n"]))[::-1], search=search, form="plain")
        check(c, ctx)


@SUITE.sub("refit", strategy=st.lists(cases(), min_size=2, max_size=4), quick=300, thorough=5000, shards=4)
def refit(case, ctx):
    pc = new_pc(case[0])
    for c in case:
        check(c, ctx, pc)


def small(tier):
    k = 0
    for n in (2, 3, 4):
        for e in hg.all_dags(n):
            k += 1
            if tier == "thorough" or n < 4 or k % 3 == 0:
                yield {"n": n, "edges": [list(x) for x in e], "labels": "str", "order": list(range(n))[::-1],
                       "gorder": list(range(n)), "search": "fast" if k % 2 else "adjacency", "form": "frame"}


SUITE.sub("every_small_dag", cases=small, shards=2, thorough_shards=8)(lambda case, ctx: check(case, ctx) and None)


@st.composite
def big(draw):
    d = draw(hg.big_dags([7, 8, 9], degrees=(1, 2, 3)))
    d["gorder"] = d["order"][::-1]
    d["search"] = draw(st.sampled_from(["default", "fast"]))
    d["form"], d["alpha"], d["verbose"] = draw(st.sampled_from(["frame", "named_array", "named_frame"])), draw(st.sampled_from([None, 0.01])), False
    return d


SUITE.sub("large", strategy=big(), quick=60, thorough=2000, shards=8)(lambda case, ctx: check(case, ctx) and None)


@st.composite
def hubs(draw):
    # two non-adjacent ends that only a large set separates: all their common mediators
    k = draw(st.sampled_from([4, 5, 6, 7]))
    n = k + 2
    p = draw(st.permutations(range(n)))
    kind = draw(st.sampled_from(["through", "through", "common cause", "mixed"]))
    edges = []
    for m in range(2, n):
        cause = kind == "common cause" or (kind == "mixed" and draw(st.booleans()))
        edges += [[p[m], p[0]] if cause else [p[0], p[m]], [p[m], p[1]]]
    if kind == "through" and draw(st.booleans()):
        edges.append([p[2], p[3]])
    return {"n": n, "edges": edges, "labels": draw(st.sampled_from(["int", "rev", "str"])),
            "order": list(draw(st.permutations(range(n)))), "gorder": list(range(n)),
            "search": draw(st.sampled_from(["default", "adjacency", "fast"])), "form": draw(st.sampled_from(["frame", "named_array"])),
            "alpha": None, "verbose": False}


SUITE.sub("large_separators", strategy=hubs(), quick=60, thorough=1000, shards=8)(lambda case, ctx: check(case, ctx) and None)
