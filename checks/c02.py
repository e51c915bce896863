"""C02: the adjacency searches against a level-wise reference, for arbitrary test results."""
from itertools import combinations

import numpy as np
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("C02", "arbitrary p-value tables over all (pair, conditioning set) triples of 2-6 variables - explicit sparse lists of accepted "
              "triples or random tables with a per-level acceptance rate - with p-values below, at and above the level; random variable "
              "names and two variable orders; oracle: level-wise reference search on the table, and for both strategies the soundness "
              "and completeness of the removals with respect to the table; non-trivial: at least one pair removed by a non-empty set and "
              "one pair kept",
              ["the p-value of a triple does not depend on the order of the pair or of the conditioning set"])


@st.composite
def cases(draw):
    n = draw(st.integers(2, 6))
    case = {"n": n, "alpha": draw(st.sampled_from([0.05, 0.01, 0.5, 0.25, 0.9])),
            "labels": draw(st.sampled_from(["int", "rev", "str", "tuple", "mixed", "float", "odd"])),
            "order": list(draw(st.permutations(range(n))))}
    if draw(st.booleans()):
        case["accept"] = draw(st.lists(st.tuples(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(0, 2 ** n - 1)), max_size=12))
    else:
        case["seed"] = draw(st.integers(0, 10 ** 6))
        case["rates"] = draw(st.lists(st.sampled_from([0.0, 0.05, 0.15, 0.3, 0.6]), min_size=6, max_size=6))
    case["via_pc"] = draw(st.booleans())
    return case


class Table:
    """pvalue[(pair, z)] over indices 0..n-1."""

    def __init__(self, case):
        n, alpha = case["n"], case["alpha"]
        self.n, self.alpha, self.p = n, alpha, {}
        rng = np.random.RandomState(case.get("seed", 7))
        low = [0.0, alpha / 2, np.nextafter(alpha, 0)]
        high = [alpha, np.nextafter(alpha, 1), (1 + alpha) / 2, 1.0]
        acc = {(frozenset(t[:2]), frozenset(k for k in range(n) if t[2] >> k & 1) - set(t[:2])) for t in case.get("accept", [])}
        for a, b in combinations(range(n), 2):
            rest = [k for k in range(n) if k not in (a, b)]
            for s in range(len(rest) + 1):
                for z in combinations(rest, s):
                    key = (frozenset((a, b)), frozenset(z))
                    yes = key in acc if "accept" in case else rng.rand() < case["rates"][s]
                    self.p[key] = float((high if yes else low)[rng.randint(len(high if yes else low))])

    def accepts(self, a, b, z):
        return self.p[(frozenset((a, b)), frozenset(z))] >= self.alpha


def reference(tab):
    n = tab.n
    adj = {i: set(range(n)) - {i} for i in range(n)}
    sep = {}
    for size in range(n - 1):
        frozen = {i: set(adj[i]) for i in range(n)}
        for a, b in combinations(range(n), 2):
            if b not in frozen[a]:
                continue
            pools = [frozen[a] - {b}, frozen[b] - {a}]
            hits = [set(z) for pool in pools for z in combinations(sorted(pool), size) if tab.accepts(a, b, z)]
            if hits:
                adj[a].discard(b)
                adj[b].discard(a)
                sep[frozenset((a, b))] = set().union(*hits)
    return {frozenset((a, b)) for a in adj for b in adj[a]}, sep


def run(case, order, method):
    """Returns skeleton pairs and separating sets in index terms."""
    from cdmir.utils.independence import ConditionalIndependentTest
    from cdmir.discovery.constraint import PC
    from cdmir.discovery.constraint.adjacency_search import adjacency_search, fast_adjacency_search
    tab = Table(case)
    L = lambda i: hg.label(case["labels"], i)
    names = [L(i) for i in order]
    back = {L(i): i for i in order}

    class TableTest(ConditionalIndependentTest):
        def cal_stats(self, x, y, z=None):
            ids = [order[x], order[y]]
            return tab.p[(frozenset(ids), frozenset(order[k] for k in (z or [])))], 0.0

    fn = {"default": adjacency_search, "fast": fast_adjacency_search}[method]
    data = np.zeros((3, case["n"]))
    if case["via_pc"]:
        pc = PC(alpha=case["alpha"], adjacency_search_method=fn) if method == "fast" else PC(alpha=case["alpha"])
        pc.fit(data, var_names=names, indep_cls=TableTest)
        g, sep, final = pc.skeleton, pc.sep_set, pc.causal_graph
    else:
        g, sep = fn(TableTest(data, names), names, case["alpha"])
        final = g
    return tab, g, sep, final, names, back


def check_common(case, ctx, g, sep, final, names, back):
    ctx.require(list(g.nodes) == names, "nodes %r, expected %r", list(g.nodes), names)
    d, u = hg.read_pdag(ctx, g, case)
    ctx.require(not d, "the skeleton has directed edges %r", d)
    fd, fu = set(), set()
    pairs = set()
    for x in names:
        for y in final.get_neighbours(x):
            pairs.add(frozenset((back[x], back[y])))
    ctx.require(pairs == u, "adjacencies of the final graph %r differ from the skeleton %r", pairs, u)
    seps = {}
    for a in range(case["n"]):
        for b in range(case["n"]):
            if a != b:
                key = (hg.label(case["labels"], a), hg.label(case["labels"], b))
                ctx.require(key in sep, "no separating-set entry for %r", key)
                seps[(a, b)] = {back[x] for x in sep[key]}
    for (a, b), z in seps.items():
        ctx.require(z == seps[(b, a)], "separating sets of (%d,%d) and (%d,%d) differ: %r, %r", a, b, b, a, z, seps[(b, a)])
        ctx.require(not z or frozenset((a, b)) not in u, "adjacent pair %d,%d records %r", a, b, z)
        ctx.require(not z & {a, b}, "separating set of %d,%d contains one of them", a, b)
    return u, seps


def reference_fast_facts(case, ctx, tab, u, seps):
    """What any level-wise search over current neighbours guarantees, whatever the order of removals."""
    n = case["n"]
    nb = {i: {j for j in range(n) if frozenset((i, j)) in u} for i in range(n)}
    for a, b in combinations(range(n), 2):
        if frozenset((a, b)) in u:
            for pool in (nb[a] - {b}, nb[b] - {a}):
                for s in range(len(pool) + 1):
                    for z in combinations(sorted(pool), s):
                        ctx.require(not tab.accepts(a, b, z), "pair %d,%d kept although %r was accepted", a, b, z)
        else:
            z = seps[(a, b)]
            if not z:
                ctx.require(tab.accepts(a, b, ()), "pair %d,%d removed unconditionally without an accepted test", a, b)
                continue
            ok = False
            for s in range(1, len(z) + 1):
                parts = [set(c) for c in combinations(sorted(z), s) if tab.accepts(a, b, c)]
                ok = ok or set().union(*parts) == z
            ctx.require(ok, "the set %r recorded for %d,%d is no union of accepted sets of one size", z, a, b)
            ctx.require(not tab.accepts(a, b, ()), "pair %d,%d is independent given nothing but records %r", a, b, z)


@SUITE.sub("default", strategy=cases(), quick=2400, thorough=60000, shards=6)
def default(case, ctx):
    want, wsep = reference(Table(case))
    for order in (case["order"], list(range(case["n"]))):
        tab, g, sep, final, names, back = run(case, order, "default")
        u, seps = check_common(case, ctx, g, sep, final, names, back)
        ctx.require(u == want, "skeleton %r, expected %r", sorted(map(sorted, u)), sorted(map(sorted, want)))
        for a, b in combinations(range(case["n"]), 2):
            w = wsep.get(frozenset((a, b)), set())
            ctx.require(seps[(a, b)] == w, "separating set of %d,%d is %r, expected %r", a, b, seps[(a, b)], w)
        reference_fast_facts(case, ctx, tab, u, seps)
    ctx.nontrivial(bool(want) and any(wsep.values()))
    ctx.label("n=%d" % case["n"])
    ctx.label("union of several sets", any(len(z) > 1 for z in wsep.values()))


@SUITE.sub("fast", strategy=cases(), quick=1600, thorough=40000, shards=4)
def fast(case, ctx):
    tab, g, sep, final, names, back = run(case, case["order"], "fast")
    u, seps = check_common(case, ctx, g, sep, final, names, back)
    reference_fast_facts(case, ctx, tab, u, seps)
    ctx.nontrivial(bool(u) and any(seps.values()))


def every_table(tier):
    """All yes/no tables over 3 variables (6 triples), for each variable order of a few."""
    tri = [(a, b, m) for a, b in combinations(range(3), 2) for m in (0, 1 << (3 - a - b))]
    for mask in range(2 ** len(tri)):
        for order in ([0, 1, 2], [2, 0, 1], [1, 2, 0]):
            for via in (False, True):
                yield {"n": 3, "alpha": 0.05, "labels": "str", "order": order, "via_pc": via,
                       "accept": [list(t) for k, t in enumerate(tri) if mask >> k & 1]}


@SUITE.sub("every_table_of_three", cases=every_table, shards=2)
def every(case, ctx):
    default(case, ctx)
    fast(case, ctx)
