"""H06: the latent hierarchy learner from table to picture."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from harness import lhm
from harness import tables
from harness.core import Reject, Suite

SUITE = Suite("H06", "linear latent trees of 1-4 latents with 3-5 observed children each, sampled so that the sample covariance is the model's own, in random column order and under random names; random "
              "latent indexes, orders and shared factors for the drawing; graphviz, which is not installed, and the screen are replaced by stand-ins that record the graph they are given; oracles: the "
              "generating tree, and the edge set implied by the index; non-trivial: two or more latents",
              ["models whose non-vanishing tetrads are less than 6 standard errors from zero are rejected"])


def drawn(fn, *args):
    """The graphs handed to the drawing routines by fn(*args)."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import networkx as nx
    seen = []

    class Paper:
        def __init__(self, g):
            seen.append((set(map(str, g.nodes)), {(str(a), str(b)) for a, b in g.edges}))

        def layout(self, *a, **k):
            pass

        draw = write = layout

    spread = lambda g, *a, **k: {v: (float(i), 0.0) for i, v in enumerate(g)}
    picture = lambda g, *a, **k: Paper(g) and None
    spots = [(nx.nx_agraph, "to_agraph", Paper), (nx.nx_agraph, "graphviz_layout", spread), (nx.nx_pydot, "graphviz_layout", spread), (nx, "draw_networkx", picture), (nx, "draw", picture),
             (plt, "show", lambda *a, **k: None)]
    before = [getattr(m, name) for m, name, _ in spots]
    for m, name, f in spots:
        setattr(m, name, f)
    try:
        fn(*args)
    finally:
        for (m, name, _), f in zip(spots, before):
            setattr(m, name, f)
        plt.close("all")
    return seen


@st.composite
def trees(draw):
    m = draw(st.sampled_from([3, 2, 2, 1, 2, 3, 4]))
    tree = [None] + [draw(st.integers(0, v - 1)) for v in range(1, m)]
    sizes = [draw(st.sampled_from([3, 4, 3, 5] if m < 4 else [3])) for _ in range(m)]
    if m == 1:
        sizes = [draw(st.sampled_from([4, 5, 6]))]
    return {"tree": tree, "sizes": sizes, "seed": draw(st.integers(0, 10 ** 6)), "names": draw(st.sampled_from(["x", "words", "x"])), "order": draw(st.permutations(list(range(sum(sizes))))),
            "alpha": draw(st.sampled_from([.01, .01, .05, .001, None]))}


@SUITE.sub("learner", strategy=trees(), quick=112, thorough=2500, shards=8)
def learner(case, ctx):
    C = lhm.module("Causal_Discovery_in_LHM")
    rng = np.random.RandomState(case["seed"])
    m = len(case["tree"])
    S, groups = lhm.tree_model(case["tree"], case["sizes"], [False] * m, rng)
    n = 1500
    for q in itertools.combinations(range(len(S)), 4):
        for a, b, c, d in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)):
            t, sd = lhm.tetrad(S, q[a], q[b], q[c], q[d], n)
            if 1e-9 < t < 6 * sd:
                raise Reject
    names = [("x%d" if case["names"] == "x" else "var_%d") % i for i in range(len(S))]
    x = lhm.exact_sample(S, n, rng, names)[[names[i] for i in case["order"]]]
    keep = x.copy()
    graphs = drawn(C.Causal_Discovery_LHM, *([x] if case["alpha"] is None else [x, case["alpha"]]))
    ctx.require(x.equals(keep), "learning changed the data")
    ctx.require(graphs, "nothing was drawn")
    nodes, edges = graphs[-1]
    ctx.require(all(g == graphs[-1] for g in graphs), "different graphs were drawn: %r", graphs)
    latents = sorted(nodes - set(names))
    ctx.require(set(names) <= nodes, "variables %r are missing from the picture", sorted(set(names) - nodes))
    ctx.require(all(a in latents for a, b in edges), "an observed variable has children: %r", sorted(edges))
    family = {v: sorted(b for a, b in edges if a == v and b in names) for v in latents}
    want = sorted(sorted(names[i] for i in g) for g in groups)
    ctx.require(sorted(f for f in family.values() if f) == want, "observed children of the latents %r, expected %r", family, want)
    if m <= 3:
        # with three latents or fewer nothing above them can be told apart: one latent per group, joined to each other
        ctx.require(len(latents) == m, "latents %r for the groups %r", latents, want)
        joined = {frozenset(e) for e in edges if e[1] in latents}
        if case["tree"] is not None:
            ctx.require(joined == {frozenset(p) for p in itertools.combinations(latents, 2)}, "edges between the latents: %r", sorted(map(sorted, joined)))
    ctx.nontrivial(m >= 2)
    ctx.label("latents %d" % m)


@st.composite
def stars(draw):
    m = draw(st.sampled_from([4, 4, 5]))
    sizes = [3 if m == 5 else draw(st.sampled_from([3, 3, 4])) for _ in range(m)]
    return {"sizes": sizes, "seed": draw(st.integers(0, 10 ** 6)), "order": draw(st.permutations(list(range(sum(sizes)))))}


@SUITE.sub("two levels", strategy=stars(), quick=16, thorough=400, shards=8)
def two_levels(case, ctx):
    C = lhm.module("Causal_Discovery_in_LHM")
    rng = np.random.RandomState(case["seed"])
    m = len(case["sizes"])
    S, groups = lhm.tree_model([None] + [0] * m, [0] + case["sizes"], [False] * (m + 1), rng)
    n = 4000
    for q in itertools.combinations(range(len(S)), 4):
        for a, b, c, d in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)):
            t, sd = lhm.tetrad(S, q[a], q[b], q[c], q[d], n)
            if 1e-9 < t < 6 * sd:
                raise Reject
    names = ["x%d" % i for i in range(len(S))]
    x = lhm.exact_sample(S, n, rng, names)[[names[i] for i in case["order"]]]
    nodes, edges = drawn(C.Causal_Discovery_LHM, x)[-1]
    want = sorted(sorted(names[i] for i in g) for g in groups if g)
    family = {v: sorted(b for a, b in edges if a == v) for v in nodes - set(names)}
    low = [v for v in family if family[v] in want]
    top = [v for v in family if v not in low]
    ctx.require(sorted(family[v] for v in low) == want, "children of the latents %r, expected the groups %r", family, want)
    ctx.require(len(top) == 1 and family[top[0]] == sorted(low), "children of the latents %r, expected one latent above all others", family)
    ctx.nontrivial(True)


@st.composite
def indexes(draw):
    k = draw(st.sampled_from([3, 4, 2, 5, 1, 6]))
    names = ["L%d" % (i + 1) for i in range(k)]
    kids, free = {}, 0
    for i in range(k):
        c = []
        for _ in range(draw(st.sampled_from([2, 3, 1, 4]))):
            c.append("x%d" % free)
            free += 1
        for j in range(i):
            if draw(st.sampled_from([0, 0, 0, 1])):
                c.append(names[j])
        kids[names[i]] = draw(st.permutations(c))
    if draw(st.booleans()) and k > 1:  # an n-factor: two latents over one cluster
        kids[names[-1]] = list(kids[names[-2]])
    order = draw(st.permutations(names))[:draw(st.integers(0, k))]
    shared = [draw(st.permutations(names))[:draw(st.sampled_from([1, 2, 3]))] for _ in range(draw(st.sampled_from([1, 0, 2, 3])))]
    impure = [draw(st.permutations(names + ["x0", "x1"]))[:draw(st.sampled_from([2, 3, 1]))] for _ in range(draw(st.sampled_from([1, 0, 2])))]
    return {"index": [[v, kids[v]] for v in names], "order": list(order), "shared": [list(s) for s in shared], "impure": [list(c) for c in impure]}


@SUITE.sub("drawing", strategy=indexes(), quick=1500, thorough=25000, shards=2)
def drawing(case, ctx):
    M = lhm.module("MakeGraph")
    index = {v: list(c) for v, c in case["index"]}
    order, shared = case["order"], case["shared"]
    base = {(v, c) for v in index for c in index[v]}
    nodes = set(index) | {c for v in index for c in index[v]}
    apart = lambda a, b: any(a in s and b in s for s in shared)
    for args, want in (((index, order, shared), base | {(a, b) for a, b in itertools.combinations(order, 2) if not apart(a, b)}), ((index, order), base | set(itertools.combinations(order, 2))), ((index,), base)):
        kept = copy.deepcopy(args)
        graphs = drawn(M.Make_graph, *args)
        ctx.require(graphs and all(g == (nodes, want) for g in graphs), "drawn %r, expected nodes %r and edges %r", graphs, sorted(nodes), sorted(want))
        ctx.require(args == kept, "drawing changed its input")
    for a, b in itertools.combinations(sorted(index), 2):
        ctx.require(bool(M.RmoveEdgeBetweenN_factor(a, b, shared)) == apart(a, b), "do %r and %r share a cluster in %r", a, b, shared)
    want = set(base)
    for c in case["impure"]:
        want |= {(a, b) for a, b in itertools.combinations(c, 2) if a in index}
    graphs = drawn(M.Make_graph_Impure, copy.deepcopy(index), copy.deepcopy(case["impure"]))
    all_nodes = nodes | {b for a, b in want}
    ctx.require(graphs and all(g == (all_nodes, want) for g in graphs), "drawn with the impure clusters %r: %r, expected edges %r", case["impure"], graphs, sorted(want))
    ctx.nontrivial(len(index) >= 2)
    ctx.label("shared", bool(shared) and len(order) > 1)
    ctx.label("impure", bool(case["impure"]))
