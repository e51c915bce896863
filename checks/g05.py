"""G05: PDAG -> consistent DAG extension, round trip through the CPDAG."""
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("G05", "random PDAGs of 2-6 (some of 7-20) nodes (patterns, patterns with background knowledge, arbitrary acyclic or cyclic ones) and "
              "every PDAG of 3 nodes (thorough: 4); oracle: backtracking enumeration of consistent extensions (from 7 nodes on: own sink elimination); round trips "
              "DAG->CPDAG->DAG->CPDAG on random DAGs; non-trivial: at least two undirected edges, or no extension exists")


def check(case, ctx):
    from cdmir.graph import DiGraph
    from cdmir.graph.pdag2dag import pdag2dag
    n = case["n"]
    D = [tuple(e) for e in case["directed"]]
    U = [tuple(e) for e in case["undirected"]]
    ext = hg.extensions(n, D, U, limit=1) if n <= 6 else hg.one_extension(n, D, U)
    ext = ext is not None and (n > 6 or bool(ext))
    g = hg.build_pdag(case)
    before = hg.snapshot(g)
    ctx.label("extendable" if ext else "not extendable")
    ctx.nontrivial(len(U) >= 2 or not ext)
    if not ext:
        try:
            r = pdag2dag(g)
        except Exception:
            ctx.require(hg.snapshot(g) == before, "the input PDAG was modified")
            return
        ctx.require(False, "a PDAG without consistent extension was converted to %s", str(r))
    r = pdag2dag(g)
    ctx.require(hg.snapshot(g) == before, "the input PDAG was modified")
    ctx.require(isinstance(r, DiGraph), "result is a %s", type(r).__name__)
    ctx.require(list(r.nodes) == list(g.nodes), "nodes %r, expected %r", list(r.nodes), list(g.nodes))
    d, u = hg.read_pdag(ctx, r, case)
    ctx.require(not u, "undirected edges are left: %r", u)
    ctx.require(hg.skeleton(d) == hg.skeleton(D) | hg.skeleton(U), "adjacencies changed: %r", sorted(d))
    ctx.require(set(D) <= d, "directed edges lost: %r not in %r", sorted(set(D) - d), sorted(d))
    ctx.require(hg.is_acyclic(n, d), "result is cyclic: %r", sorted(d))
    sk = hg.skeleton(d)
    ctx.require(hg.v_structures(d, sk) == hg.v_structures(D, sk), "unshielded colliders changed: %r", sorted(d))


SUITE.sub("random_pdags", strategy=hg.pdags(min_n=2, max_n=6), quick=5000, thorough=40000, shards=8,
          examples=[{"n": 4, "directed": [], "undirected": [[0, 1], [1, 2], [2, 3], [3, 0]], "order": [0, 1, 2, 3], "labels": "int"},
                    {"n": 2, "directed": [], "undirected": [[0, 1]], "order": [1, 0], "labels": "str"}])(check)


def small(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for d, u in hg.all_pdags(n):
            yield {"n": n, "directed": [list(x) for x in d], "undirected": [list(x) for x in u], "labels": "int"}


SUITE.sub("every_small_pdag", cases=small, shards=1, thorough_shards=8)(check)


@SUITE.sub("round_trip", strategy=hg.named_dags(min_n=1, max_n=6), quick=2000, thorough=20000, shards=4, thorough_shards=8)
def round_trip(case, ctx):
    from cdmir.graph.dag2cpdag import dag2cpdag
    from cdmir.graph.pdag2dag import pdag2dag
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    c = dag2cpdag(hg.build_dag(case))
    a = hg.read_pdag(ctx, c, case)
    dag = pdag2dag(c)
    ctx.require(hg.read_pdag(ctx, c, case) == a, "converting back modified the CPDAG")
    d, _ = hg.read_pdag(ctx, dag, case)
    ctx.require(hg.skeleton(d) == hg.skeleton(edges) and hg.v_structures(d) == hg.v_structures(edges),
                "DAG->CPDAG->DAG left the equivalence class: %r from %r", sorted(d), sorted(edges))
    b = hg.read_pdag(ctx, dag2cpdag(dag), case)
    ctx.require(a == b, "CPDAG %r becomes %r after a round trip", a, b)
    ctx.nontrivial(len(a[1]) >= 1 and len(edges) >= 3)


SUITE.sub("large", strategy=hg.big_pdags([7, 9, 12, 16, 20]), quick=300, thorough=8000, shards=6, thorough_shards=8)(check)


@st.composite
def long_chains(draw):
    """A path with directed and undirected stretches and undirected leaves, listed along, against or across it."""
    n = draw(st.sampled_from([10, 14, 18, 24]))
    kind = draw(st.sampled_from(["start", "end", "mixed", "leaves"]))
    D, U = [], []
    for v in range(1, n):
        if kind == "leaves" and v % 4 == 0:
            U.append((v - 4, v))
            continue
        p = v - 2 if kind == "leaves" and v % 4 == 1 and v > 1 else v - 1
        free = v == 1 if kind == "start" else v == n - 1 if kind == "end" else draw(st.booleans()) if kind == "mixed" else v < 4
        (U if free else D).append((p, v))
    order = draw(st.sampled_from(["along", "against", "shuffled"]))
    idx = list(range(n)) if order == "along" else list(range(n))[::-1] if order == "against" else list(draw(st.permutations(range(n))))
    return {"n": n, "directed": [list(e) for e in D], "undirected": [list(e) for e in U], "order": idx,
            "labels": draw(st.sampled_from(hg.LABEL_KINDS))}


SUITE.sub("long_chains", strategy=long_chains(), quick=120, thorough=3000, shards=6, thorough_shards=8)(check)
