"""G06: collider rule and Meek closure, sound and complete."""
from itertools import combinations, permutations

from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("G06", "random extendable PDAGs of 3-7 (some of 8-13) nodes: a DAG's pattern plus random background-knowledge orientations "
              "taken from the DAG, with shape-biased generators for the rarer rules, and every extendable PDAG of up to 3 nodes "
              "(thorough: 4); oracle: intersection of all consistent extensions (from 8 nodes on: an edge is free if both directions extend); collider rule on skeletons with separating-set "
              "tables of DAGs; non-trivial: the closure adds an arrow, or must leave an edge undirected next to arrows")


def closure_case(case, ctx):
    n = case["n"]
    D = {tuple(e) for e in case["directed"]}
    U = {frozenset(e) for e in case["undirected"]}
    if n > 7:
        common = hg.implied(n, sorted(D), [tuple(sorted(e)) for e in sorted(map(sorted, U))])
    else:
        ext = hg.extensions(n, D, [tuple(sorted(e)) for e in sorted(map(sorted, U))])
        common = set(frozenset.intersection(*ext)) if ext else None
    if common is None:
        from harness.core import Reject
        raise Reject()
    g = hg.build_pdag(case)
    nodes = list(g.nodes)
    g.orient_by_meek_rules(verbose=bool(case.get("verbose")))
    ctx.require(list(g.nodes) == nodes, "nodes changed")
    d, u = hg.read_pdag(ctx, g, case)
    ctx.require(hg.skeleton(d) | u == hg.skeleton(D) | U, "adjacencies changed")
    ctx.require(d <= common, "arrows %r are contradicted by a consistent extension (from directed %r, undirected %r)",
                sorted(d - common), sorted(D), sorted(map(sorted, U)))
    ctx.require(common <= d, "implied arrows %r were not oriented (from directed %r, undirected %r)",
                sorted(common - d), sorted(D), sorted(map(sorted, U)))
    again = hg.snapshot(g)
    g.orient_by_meek_rules()
    ctx.require(hg.snapshot(g) == again, "a second application changes the graph")
    ctx.label("adds an arrow", bool(common - D))
    ctx.label("leaves undirected", bool(u))
    ctx.nontrivial(bool(common - D) or (bool(u) and bool(D)))


@st.composite
def bk(draw):
    kind = draw(st.sampled_from(["any", "any", "chordal", "r3", "r4"]))
    if kind == "any":
        return dict(draw(hg.pdags(min_n=3, max_n=draw(st.sampled_from([4, 5, 6, 7])), extendable=True)),
                    verbose=draw(st.booleans()))
    if kind == "chordal":
        # nearly complete graph, arrows known for a random subset: rules 2 and 4
        n = draw(st.integers(4, 6))
        perm = draw(st.permutations(range(n)))
        miss = {tuple(sorted(draw(st.permutations(range(n)))[:2])) for _ in range(draw(st.integers(0, 3)))}
        edges = [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if tuple(sorted((i, j))) not in miss]
        keep = {(p, v) for pair, v in hg.v_structures(edges) for p in pair}
        for e in edges:
            if draw(st.integers(0, 3)) == 0:
                keep.add(e)
        kept = {frozenset(e) for e in keep}
        return {"n": n, "directed": [list(e) for e in sorted(keep)],
                "undirected": [list(e) for e in edges if frozenset(e) not in kept],
                "order": list(draw(st.permutations(range(n)))), "labels": draw(st.sampled_from(hg.LABEL_KINDS))}
    n = 4
    if kind == "r3":
        # u - v, u - x, u - w, v -> w <- x, with or without v - x adjacent
        D = [(1, 2), (3, 2)]
        U = [(0, 1), (0, 3), (0, 2)]
        if draw(st.booleans()):
            (D if draw(st.booleans()) else U).append((1, 3))
    else:
        # chain a -> b -> c, with d adjacent to all of them and a, c not adjacent
        D = [(0, 1), (1, 2)] if draw(st.booleans()) else [(1, 2)]
        U = [(3, 0), (3, 2)] + ([] if (0, 1) in D else [(0, 1)])
        (D if draw(st.booleans()) else U).append(draw(st.sampled_from([(3, 1), (1, 3)])))
        if draw(st.integers(0, 3)) == 0:
            U.append((0, 2))
    for _ in range(draw(st.integers(0, 2))):
        v = n
        n += 1
        for w in range(v):
            r = draw(st.integers(0, 5))
            if r == 0:
                D.append((v, w))
            elif r == 1:
                D.append((w, v))
            elif r == 2:
                U.append((v, w))
    p = draw(st.permutations(range(n)))
    return {"n": n, "directed": [[p[a], p[b]] for a, b in D], "undirected": [[p[a], p[b]] for a, b in U],
            "order": list(draw(st.permutations(range(n)))), "labels": draw(st.sampled_from(hg.LABEL_KINDS))}


SUITE.sub("closure", strategy=bk(), quick=8000, thorough=80000, shards=8)(closure_case)


def small(tier):
    for n in (2, 3) if tier == "quick" else (2, 3, 4):
        for d, u in hg.all_pdags(n):
            yield {"n": n, "directed": [list(x) for x in d], "undirected": [list(x) for x in u], "labels": "int"}


SUITE.sub("every_small_pdag", cases=small, shards=1, thorough_shards=8)(closure_case)


@st.composite
def tables(draw):
    d = draw(hg.named_dags(min_n=3, max_n=7))
    d["pick"] = draw(st.lists(st.integers(0, 1000), min_size=21, max_size=21))
    d["verbose"] = draw(st.booleans())
    return d


@SUITE.sub("collider_rule", strategy=tables(), quick=1600, thorough=30000, shards=4, thorough_shards=8)
def collider(case, ctx):
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    sk = hg.skeleton(edges)
    L = lambda i: hg.label(case["labels"], i)
    g = hg.build_pdag(dict(case, directed=[], undirected=[sorted(e) for e in sk]))
    sep = {}
    for k, (x, y) in enumerate(combinations(range(n), 2)):
        s = set()
        if frozenset((x, y)) not in sk:
            rest = [v for v in range(n) if v not in (x, y)]
            ok = [z for r in range(len(rest) + 1) for z in combinations(rest, r) if hg.d_separated(n, edges, x, y, z)]
            s = set(ok[case["pick"][k] % len(ok)])
        sep[(L(x), L(y))] = {L(v) for v in s}
        sep[(L(y), L(x))] = {L(v) for v in s}
    keep = {k: set(v) for k, v in sep.items()}
    g.rule0(sep, case["verbose"])
    ctx.require(sep == keep, "the separating-set table was modified")
    d, u = hg.read_pdag(ctx, g, case)
    want = {(p, v) for pair, v in hg.v_structures(edges, sk) for p in pair}
    ctx.require(d == want, "collider rule oriented %r, expected %r", sorted(d), sorted(want))
    ctx.require(hg.skeleton(d) | u == sk, "collider rule changed adjacencies")
    g.orient_by_meek_rules(case["verbose"])
    d, u = hg.read_pdag(ctx, g, case)
    wd, wu = hg.cpdag(n, edges)
    ctx.require(d == wd and u == wu, "pattern closure %r, expected %r", sorted(d), sorted(wd))
    ctx.nontrivial(bool(want))


@st.composite
def big(draw):
    c = draw(hg.big_pdags([8, 10, 13], degrees=(2, 3, 5, 8), kinds=("pattern", "bk", "bk")))
    return dict(c, verbose=draw(st.booleans()))


SUITE.sub("large", strategy=big(), quick=400, thorough=8000, shards=6, thorough_shards=8)(closure_case)


@st.composite
def long_chains(draw):
    # trees in which one known arrow forces edge after edge, listed for, against or across its direction
    n = draw(st.sampled_from([10, 14, 18, 22]))
    kind = draw(st.sampled_from(["path", "path", "comb", "tree"]))
    par = [max(0, v - 1) if kind == "path" else
           (v - 1 if v % 3 else max(0, v - 3)) if kind == "comb" else
           max(0, v - 1 - draw(st.integers(0, 2))) for v in range(1, n)]
    edges = [(par[v - 1], v) for v in range(1, n)]
    known = draw(st.sampled_from([0, 0, 1, n // 2]))
    d = [edges[known]]
    order = draw(st.sampled_from(["for", "against", "shuffled", "zigzag"]))
    idx = list(range(n))
    if order == "against":
        idx = idx[::-1]
    elif order == "shuffled":
        idx = list(draw(st.permutations(idx)))
    elif order == "zigzag":
        idx = idx[::2][::-1] + idx[1::2]
    return {"n": n, "directed": [list(e) for e in d], "undirected": [list(e) for e in edges if e not in d],
            "order": idx, "labels": draw(st.sampled_from(hg.LABEL_KINDS)), "verbose": False}


SUITE.sub("long_chains", strategy=long_chains(), quick=240, thorough=4000, shards=4, thorough_shards=8)(closure_case)
