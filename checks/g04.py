"""G04: dag2cpdag against the intersection of all Markov-equivalent DAGs."""
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("G04", "random DAGs of 1-7 nodes and nearly complete ones of 7-8 nodes over six label kinds and random insertion orders, and every DAG of up to 4 nodes "
              "(thorough: 5); oracle: intersection of all DAGs with the same skeleton and unshielded colliders, found by "
              "backtracking (Chickering's edge labelling when more than 9 edges are free); non-trivial: the CPDAG has both "
              "directed and undirected edges, or a directed edge outside any collider")


def check(case, ctx):
    from cdmir.graph import PDAG
    from cdmir.graph.dag2cpdag import dag2cpdag
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    g = hg.build_dag(case)
    before = hg.snapshot(g)
    p = dag2cpdag(g)
    ctx.require(hg.snapshot(g) == before, "the input DAG was modified")
    ctx.require(isinstance(p, PDAG), "result is a %s", type(p).__name__)
    ctx.require(list(p.nodes) == list(g.nodes), "nodes %r, expected %r", list(p.nodes), list(g.nodes))
    d, u = hg.read_pdag(ctx, p, case)
    wd, wu = hg.cpdag(n, edges)
    ctx.require(d == wd and u == wu, "CPDAG directed %r undirected %r, expected %r and %r",
                sorted(d), sorted(map(sorted, u)), sorted(wd), sorted(map(sorted, wu)))
    inv = {e for pair, v in hg.v_structures(edges) for e in ((x, v) for x in pair)}
    ctx.label("beyond colliders", bool(wd - inv))
    ctx.nontrivial(bool(wd) and (bool(wu) or bool(wd - inv)))


@st.composite
def cases(draw):
    return draw(hg.named_dags(min_n=1, max_n=draw(st.sampled_from([5, 6, 7]))))


SUITE.sub("random", strategy=cases(), quick=4000, thorough=40000, shards=8)(check)


@st.composite
def dense(draw):
    """7-8 nodes, nearly complete or two hubs: non-adjacent pairs that only large sets separate."""
    n = draw(st.sampled_from([7, 8]))
    perm = draw(st.permutations(range(n)))
    missing = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)), min_size=1, max_size=2)) + [(0, n - 1)]
    if draw(st.booleans()):
        edges = [[perm[i], perm[j]] for i in range(n) for j in range(i + 1, n) if (i, j) not in missing]
    else:
        edges = [e for m in range(1, n - 1) for e in ([perm[0], perm[m]], [perm[m], perm[n - 1]]) if m != missing[0][0] or m > 2]
    return {"n": n, "edges": edges, "labels": draw(st.sampled_from(hg.LABEL_KINDS)), "order": list(draw(st.permutations(range(n))))}


SUITE.sub("large_separators", strategy=dense(), quick=60, thorough=600, shards=8)(check)


@st.composite
def pairs(draw):
    """A DAG and a Markov-equivalent one reached by covered-edge reversals (plus sometimes one extra reversal)."""
    d = draw(hg.named_dags(min_n=3, max_n=6))
    d["flips"] = draw(st.lists(st.integers(0, 14), min_size=1, max_size=6))
    d["order2"] = list(draw(st.permutations(range(d["n"]))))
    return d


@SUITE.sub("equivalent_dags_agree", strategy=pairs(), quick=2000, thorough=20000, shards=4, thorough_shards=8)
def equivalent(case, ctx):
    from cdmir.graph.dag2cpdag import dag2cpdag
    n, edges = case["n"], {tuple(e) for e in case["edges"]}
    other = set(edges)
    moved = False
    for k in case["flips"]:
        pa = hg.parents_of(n, other)
        covered = sorted(e for e in other if pa[e[1]] - {e[0]} == pa[e[0]])
        if covered:
            e = covered[k % len(covered)]
            other.remove(e)
            other.add((e[1], e[0]))
            moved = True
    a = hg.read_pdag(ctx, dag2cpdag(hg.build_dag(case)), case)
    b = hg.read_pdag(ctx, dag2cpdag(hg.build_dag(dict(case, edges=sorted(other), order=case["order2"]))), case)
    ctx.require(a == b, "equivalent DAGs %r and %r give %r and %r", sorted(edges), sorted(other), a, b)
    ctx.nontrivial(moved and other != edges)


def small(tier):
    for n in range(1, 5 if tier == "quick" else 6):
        for e in hg.all_dags(n):
            yield {"n": n, "edges": [list(x) for x in e], "labels": "int"}


SUITE.sub("every_small_dag", cases=small, shards=4, thorough_shards=8)(check)


@st.composite
def chains(draw):
    """A collider at the head of a tree: every edge below it follows from the one above."""
    n = draw(st.sampled_from([6, 7, 8]))
    kind = draw(st.sampled_from(["path", "path", "tree"]))
    edges = [[0, 2], [1, 2]] + [[v - 1 if kind == "path" else max(2, v - 1 - draw(st.integers(0, 1))), v] for v in range(3, n)]
    order = draw(st.sampled_from(["for", "against", "shuffled"]))
    idx = list(range(n)) if order == "for" else list(range(n))[::-1] if order == "against" else list(draw(st.permutations(range(n))))
    return {"n": n, "edges": edges, "labels": draw(st.sampled_from(hg.LABEL_KINDS)), "order": idx}


SUITE.sub("chains", strategy=chains(), quick=80, thorough=800, shards=8)(check)
