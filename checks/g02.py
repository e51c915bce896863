"""G02: d-separation and reachability against the moralised-ancestral-graph criterion."""
from itertools import combinations

from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("G02", "random DAGs of 2-8 (some of 9-32) nodes (six label kinds, random insertion orders, nodes/edges also removed again) with "
              "random queries, repeated after edits of the same object, plus every query on every DAG of up to 4 nodes and single paths through 300-1500 nodes; oracle: separation in the moral graph of the "
              "ancestral set, and path blocking for small graphs; non-trivial: a non-empty conditioning set on a pair that "
              "is connected when nothing is conditioned on, or a collider opened by conditioning",
              ["query nodes are distinct and outside the conditioning set"])


@st.composite
def queries(draw):
    d = draw(hg.named_dags(min_n=2, max_n=8))
    n = d["n"]
    qs = []
    for _ in range(draw(st.integers(1, 5))):
        p = draw(st.permutations(range(n)))
        k = draw(st.integers(0, n - 2))
        qs.append([p[0], p[1], list(p[2:2 + k])])
    d["queries"] = qs
    d["container"] = draw(st.sampled_from(["tuple", "list", "set", "iter", "gen", "dup", "frozenset", "dict"]))
    d["churn"] = draw(st.booleans())
    d["later"] = draw(st.lists(st.integers(0, 60), max_size=3))
    return d


def wrap(kind, z):
    if kind == "tuple":
        return tuple(z)
    if kind == "list":
        return list(z)
    if kind == "set":
        return set(z)
    if kind == "frozenset":
        return frozenset(z)
    if kind == "iter":
        return iter(list(z))
    if kind == "gen":
        return (x for x in list(z))
    if kind == "dup":
        return list(z) + list(z)[::-1]
    return {x: None for x in z}


def paths_blocked(n, edges, x, y, z):
    """The definition itself: every simple path has a blocked node."""
    es = {tuple(e) for e in edges}
    adj = {u: {v for a, v in es if a == u} | {a for a, v in es if v == u} for u in range(n)}
    ch = {u: {v for a, v in es if a == u} for u in range(n)}

    def desc(u):
        out, stack = {u}, [u]
        while stack:
            for w in ch[stack.pop()]:
                if w not in out:
                    out.add(w)
                    stack.append(w)
        return out

    dz = {u: bool(desc(u) & set(z)) for u in range(n)}

    def active(path):
        for a, b, c in zip(path, path[1:], path[2:]):
            collider = (a, b) in es and (c, b) in es
            if collider and not dz[b] or not collider and b in z:
                return False
        return True

    def walk(path):
        u = path[-1]
        if u == y:
            return active(path)
        return any(walk(path + [w]) for w in adj[u] if w not in path)

    return not walk([x])


def churn(g, case):
    """Edit the graph forth and back: the history must not show."""
    from cdmir.graph import Edge
    L = lambda i: hg.label(case["labels"], i)
    g.add_node("extra")
    for i in range(case["n"]):
        g.add_edge(Edge("extra", L(i)))
    g.remove_node("extra")
    for u, v in case["edges"][::2]:
        g.remove_edge(L(u), L(v))
        g.add_edge(Edge(L(v), L(u)))
        g.add_edge(Edge(L(u), L(v)), overwrite=True)


@SUITE.sub("queries", strategy=queries(), quick=8000, thorough=100000, shards=4, thorough_shards=8)
def check_queries(case, ctx):
    n, edges = case["n"], case["edges"]
    g = hg.build_dag(case)
    if case["churn"]:
        churn(g, case)
    ask(case, ctx, g, edges)
    # the same queries on the same object after moving edges (along a topological order, so it stays acyclic)
    from cdmir.graph import Edge
    L = lambda i: hg.label(case["labels"], i)
    edges = [tuple(e) for e in edges]
    for k in case.get("later", []):
        order = hg.topo(n, edges)
        free = [(order[i], order[j]) for i in range(n) for j in range(i + 1, n) if (order[i], order[j]) not in edges]
        if k % 3 and edges:
            u, v = edges.pop(k % len(edges))
            g.remove_edge(L(u), L(v))
        if k % 2 and free:
            u, v = free[k % len(free)]
            g.add_edge(Edge(L(u), L(v)))
            edges.append((u, v))
        ask(case, ctx, g, edges)


def ask(case, ctx, g, edges):
    n = case["n"]
    L = lambda i: hg.label(case["labels"], i)
    before = hg.snapshot(g)
    for x, y, z in case["queries"]:
        want = hg.d_separated(n, edges, x, y, z)
        if n <= 6:
            ctx.require(want == paths_blocked(n, edges, x, y, z), "oracle disagreement (harness)")
        zl = [L(i) for i in z]
        kind = case["container"]
        got = g.is_d_separate(L(x), L(y), wrap(kind, zl))
        ctx.require(got == want, "is_d_separate(%r,%r|%r as %s)=%r, expected %r", L(x), L(y), zl, kind, got, want)
        got = g.is_d_separate(L(y), L(x), tuple(reversed(zl)))
        ctx.require(got == want, "is_d_separate(%r,%r|%r)=%r, expected %r", L(y), L(x), zl[::-1], got, want)
        reach = list(g.get_reachable_nodes(L(x), wrap(kind, zl)))
        exp = {L(v) for v in range(n) if v not in z and (v == x or not hg.d_separated(n, edges, x, v, z))}
        ctx.require(set(reach) == exp, "get_reachable_nodes(%r|%r)=%r, expected %r", L(x), zl, reach, exp)
        if not z:
            ctx.require(g.is_d_separate(L(x), L(y)) == want, "is_d_separate without a set is wrong")
            ctx.require(set(g.get_reachable_nodes(L(x))) == exp, "get_reachable_nodes without a set is wrong")
        marg = hg.d_separated(n, edges, x, y, [])
        ctx.label("separated" if want else "connected")
        ctx.label("opened by conditioning", marg and not want)
        ctx.nontrivial(bool(z) and (not marg or not want))
    ctx.require(hg.snapshot(g) == before, "queries modified the graph")


def small(tier):
    for n in (2, 3, 4):
        for e in hg.all_dags(n):
            if n < 4 or tier == "thorough" or hash(tuple(map(tuple, e))) % 3 == 0:
                yield {"n": n, "edges": [list(x) for x in e]}
    if tier == "thorough":
        for k, e in enumerate(hg.all_dags(5)):
            yield {"n": 5, "edges": [list(x) for x in e]}


@SUITE.sub("every_query_small", cases=small, shards=2, thorough_shards=8)
def every(case, ctx):
    n, edges = case["n"], case["edges"]
    g = hg.build_dag(case)
    ctx.nontrivial(len(edges) >= 2)
    for x, y in combinations(range(n), 2):
        rest = [v for v in range(n) if v not in (x, y)]
        for k in range(len(rest) + 1):
            for z in combinations(rest, k):
                want = hg.d_separated(n, edges, x, y, z)
                for a, b in ((x, y), (y, x)):
                    got = g.is_d_separate(a, b, z)
                    ctx.require(got == want, "is_d_separate(%r,%r|%r)=%r, expected %r", a, b, z, got, want)


@st.composite
def big_queries(draw):
    import random
    d = draw(hg.big_dags([12, 9, 17, 25, 32], degrees=(1, 2, 3)))
    r = random.Random(d["seed"] + 5)
    n = d["n"]
    d["queries"] = []
    for _ in range(3):
        p = r.sample(range(n), n)
        d["queries"].append([p[0], p[1], p[2:2 + r.choice([0, 1, 2, 4, n // 2, n - 2])]])
    d["container"] = draw(st.sampled_from(["tuple", "list", "set", "iter", "gen", "dup", "frozenset", "dict"]))
    d["churn"], d["later"] = draw(st.booleans()), [r.randrange(60) for _ in range(r.randrange(3))]
    return d


SUITE.sub("large", strategy=big_queries(), quick=400, thorough=10000, shards=4, thorough_shards=8)(check_queries)


def deep(tier):
    for n in (300, 1500) if tier == "quick" else (300, 1500, 6000):
        for shape in ("chain", "fork", "collider"):
            yield {"n": n, "shape": shape}


@SUITE.sub("deep", cases=deep)
def check_deep(case, ctx):
    """One path through all nodes: a chain, two chains from one cause, two chains into one effect."""
    from cdmir.graph import DiGraph, Edge
    n, shape = case["n"], case["shape"]
    mid = n // 2
    g = DiGraph(range(n))
    for i in range(n - 1):
        back = shape == "fork" and i < mid or shape == "collider" and i >= mid
        g.add_edge(Edge(i + 1, i) if back else Edge(i, i + 1))
    third, late = n // 3, 3 * n // 4
    if shape == "collider":
        want = [([], True), ([mid], False), ([third], True), ([mid, third], True), ([0], None)]
    else:
        want = [([], False), ([mid], True), ([third], True), ([late], True)]
    for z, w in want:
        if w is None:
            continue
        for x, y in ((0, n - 1), (n - 1, 0)):
            ctx.require(bool(g.is_d_separate(x, y, z)) == w, "%s of %d nodes: is_d_separate(%d,%d|%r) is not %r", shape, n, x, y, z, w)
    reach = set(g.get_reachable_nodes(0))
    exp = set(range(mid + 1)) if shape == "collider" else set(range(n))
    ctx.require(reach == exp, "%s of %d nodes: %d nodes reached from one end, expected %d", shape, n, len(reach), len(exp))
    ctx.nontrivial(True)
