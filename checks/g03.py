"""G03: relatives, degrees, topological order, acyclicity of arbitrary directed graphs."""
from itertools import product

from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("G03", "random directed graphs of 1-9 (some of 12-60) nodes (half of them cyclic), chains and loops of up to 1600 nodes, all directed graphs of up to 3 nodes, built with "
              "insertions, overwrites and removals in random order, asked again after further edits of the same object; oracle: sets of edges and iterated removal of parentless "
              "nodes; non-trivial: at least three edges and either a cycle or two different valid orders")


@st.composite
def digraphs(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9]))
    order = list(draw(st.permutations(range(n))))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    p = draw(st.sampled_from([2, 4, 6, 9]))
    flip = draw(st.sampled_from([0, 0, 2, 5]))
    perm = draw(st.permutations(range(n)))
    edges = []
    for i, j in pairs:
        if draw(st.integers(0, 9)) < p:
            e = [perm[i], perm[j]]
            edges.append(e[::-1] if draw(st.integers(0, 9)) < flip else e)
    edges = [list(e) for e in draw(st.permutations(edges))]
    dropped = [k for k in range(len(edges)) if draw(st.integers(0, 9)) == 0]
    reversed_ = [k for k in range(len(edges)) if draw(st.integers(0, 9)) == 0]
    return {"n": n, "order": order, "edges": edges, "drop": dropped, "overwrite": reversed_,
            "later": draw(st.lists(st.tuples(st.sampled_from(["reverse", "overwrite", "move", "move", "drop", "node"]), st.integers(0, 40)).map(list),
                                   max_size=4)),
            "labels": draw(st.sampled_from(hg.LABEL_KINDS))}


def check(case, ctx):
    from cdmir.graph import Edge
    L = lambda i: hg.label(case["labels"], i)
    n = case["n"]
    g = hg.build_dag(case)
    edges = [tuple(e) for e in case["edges"]]
    for k in case.get("overwrite", []):
        u, v = edges[k]
        g.add_edge(Edge(L(v), L(u)), overwrite=True)
        edges[k] = (v, u)
    for k in case.get("drop", []):
        g.remove_edge(L(edges[k][0]), L(edges[k][1]))
    edges = [e for k, e in enumerate(edges) if k not in case.get("drop", [])]
    judge(case, ctx, g, edges)
    # the same object after further edits: edges reversed or moved, nodes taken out and put back
    for kind, k in case.get("later", []):
        if kind == "node":
            u = k % n
            g.remove_node(L(u))
            g.add_node(L(u))
            edges = [e for e in edges if u not in e]
        elif not edges:
            continue
        else:
            u, v = edges.pop(k % len(edges))
            if kind == "reverse":
                g.remove_edge(L(u), L(v))
                g.add_edge(Edge(L(v), L(u)))
                edges.append((v, u))
            elif kind == "overwrite":
                g.add_edge(Edge(L(v), L(u)), overwrite=True)
                edges.append((v, u))
            else:
                g.remove_edge(L(u), L(v))
                free = [(a, b) for a in range(n) for b in range(n) if a != b and (a, b) not in edges and (b, a) not in edges and (a, b) != (u, v)]
                if kind == "move" and free:
                    a, b = free[k % len(free)]
                    g.add_edge(Edge(L(a), L(b)))
                    edges.append((a, b))
        judge(case, ctx, g, edges)


def judge(case, ctx, g, edges):
    L = lambda i: hg.label(case["labels"], i)
    n = case["n"]
    before = hg.snapshot(g)
    pa = hg.parents_of(n, edges)
    for v in range(n):
        wp = {L(u) for u in pa[v]}
        wc = {L(w) for u, w in edges if u == v}
        gp, gc = list(g.get_parents(L(v))), list(g.get_children(L(v)))
        ctx.require(len(gp) == len(wp) and set(gp) == wp, "parents of %r: %r, expected %r", L(v), gp, wp)
        ctx.require(len(gc) == len(wc) and set(gc) == wc, "children of %r: %r, expected %r", L(v), gc, wc)
        ctx.require(g.in_degree(L(v)) == len(wp), "in_degree(%r)=%r", L(v), g.in_degree(L(v)))
        ctx.require(g.out_degree(L(v)) == len(wc), "out_degree(%r)=%r", L(v), g.out_degree(L(v)))
    done, changed = set(), True
    while changed:
        changed = False
        for v in range(n):
            if v not in done and pa[v] <= done:
                done.add(v)
                changed = True
    back = {L(i): i for i in range(n)}
    topo = [back[x] for x in g.topo_sort()]
    ctx.require(len(set(topo)) == len(topo), "topo_sort repeats a node: %r", topo)
    ctx.require(set(topo) == done, "topo_sort covers %r, expected %r", topo, done)
    pos = {v: i for i, v in enumerate(topo)}
    for u, v in edges:
        if v in pos:
            ctx.require(pos[u] < pos[v], "topo_sort places %r after its child %r", L(u), L(v))
    acyc = len(done) == n
    ctx.require(bool(g.is_acyclic()) == acyc, "is_acyclic()=%r, expected %r (edges %r)", g.is_acyclic(), acyc, edges)
    ctx.require(hg.snapshot(g) == before, "queries modified the graph")
    ctx.label("acyclic" if acyc else "cyclic")
    ctx.nontrivial(len(edges) >= 3 and (not acyc or len(edges) < n * (n - 1) // 2))


SUITE.sub("random", strategy=digraphs(), quick=8000, thorough=100000, shards=4, thorough_shards=8)(check)


def small(tier):
    for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
        for pick in product((0, 1, 2), repeat=len(pairs)):
            es = [[i, j] if p == 1 else [j, i] for (i, j), p in zip(pairs, pick) if p]
            yield {"n": n, "order": list(range(n)), "edges": es, "labels": "str"}


SUITE.sub("all_small", cases=small)(check)


@st.composite
def big_digraphs(draw):
    import random
    d = draw(hg.big_dags([12, 20, 31, 60], degrees=(1, 2, 4)))
    r = random.Random(d["seed"] + 3)
    e = d["edges"]
    for _ in range(draw(st.sampled_from([0, 0, 1, 3]))):  # some edges turned round: cycles far from the sources
        if e:
            k = r.randrange(len(e))
            e[k] = e[k][::-1]
    return dict(d, drop=[k for k in range(len(e)) if r.random() < .05], overwrite=[k for k in range(len(e)) if r.random() < .03],
                later=[[r.choice(["reverse", "overwrite", "move", "drop", "node"]), r.randrange(1000)] for _ in range(r.randrange(3))])


SUITE.sub("large", strategy=big_digraphs(), quick=240, thorough=6000, shards=4, thorough_shards=8)(check)


def deep(tier):
    for n in (400, 1600) if tier == "quick" else (400, 1600, 6000):
        for kind in ("chain", "reversed", "loop", "tail of a loop", "star"):
            yield {"n": n if kind != "star" else min(n, 400), "kind": kind}


@SUITE.sub("deep", cases=deep)
def check_deep(case, ctx):
    from cdmir.graph import DiGraph, Edge
    n, kind = case["n"], case["kind"]
    g = DiGraph(range(n)[::-1] if kind == "reversed" else range(n))
    if kind == "star":
        g.add_edges(Edge(i, n - 1) for i in range(n - 1))
    else:
        g.add_edges(Edge(i, i + 1) for i in range(n - 1))
        if kind == "loop":
            g.add_edge(Edge(n - 1, 0))
        if kind == "tail of a loop":
            g.add_edge(Edge(n // 2, n // 2 - 2))
    topo = list(g.topo_sort())
    if kind == "star":
        ctx.require(sorted(topo) == list(range(n)) and topo[-1] == n - 1, "order of a star: ends with %r", topo[-1])
        ctx.require(g.in_degree(n - 1) == n - 1 and g.out_degree(n - 1) == 0, "degrees of a star's centre")
    else:
        want = {"loop": 0, "tail of a loop": n // 2 - 2}.get(kind, n)
        ctx.require(topo == list(range(want)), "topological order of a %s of %d nodes: %d nodes, %r...", kind, n, len(topo), topo[:5])
    ctx.require(bool(g.is_acyclic()) == (kind not in ("loop", "tail of a loop")), "is_acyclic of a %s of %d nodes: %r", kind, n, g.is_acyclic())
    ctx.nontrivial(True)
