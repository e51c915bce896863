"""E01: greedy equivalence search against a search over explicit equivalence classes."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Reject, Suite, same

SUITE = Suite("E01", "tables from random linear or discrete DAG models of 2-5 variables and random noise tables, BIC with random penalty, BDeu, "
              "exact population scores of random linear models of 3-5 variables, random parent limits, random set functions (every set function gives a score-equivalent score), and arbitrary (not score-equivalent) "
              "random score tables; oracle: greedy search over equivalence classes enumerated explicitly (all members, all single-edge "
              "changes), which needs no insert/delete operators; brute-force CPDAG membership; non-trivial: the result has at least two edges",
              ["steps whose best and second-best class differ by less than 1e-7 are skipped as ties; with population scores a faithful model "
               "is drawn by rejecting parameters under which some dependent pair has partial correlation below 0.03"])


class Classes:
    """Markov equivalence classes by explicit enumeration."""
    cache = {}

    @classmethod
    def members(cls, n, dag):
        key = (n, frozenset(dag))
        if key not in cls.cache:
            ms = hg.members(n, sorted(dag))
            for m in ms:
                cls.cache[(n, frozenset(m))] = ms
        return cls.cache[key]


def total(score, n, dag):
    pa = hg.parents_of(n, dag)
    return sum(score(v, frozenset(pa[v])) for v in range(n))


def reference(n, score, limit):
    """-> (member DAG, score); raises Reject on a tie."""
    cur = frozenset()
    val = total(score, n, cur)
    for phase in ("add", "delete"):
        while True:
            ms = Classes.members(n, cur)
            compelled = frozenset.intersection(*ms) if ms else frozenset()
            npar = [sum(1 for e in compelled if e[1] == v) for v in range(n)]
            skel = hg.skeleton(cur)
            cand = {}
            for m in ms:
                if phase == "add":
                    for a in range(n):
                        for b in range(n):
                            if a != b and frozenset((a, b)) not in skel and npar[b] <= limit:
                                g = m | {(a, b)}
                                if hg.is_acyclic(n, g):
                                    cand[frozenset(g)] = None
                else:
                    for e in m:
                        cand[frozenset(m - {e})] = None
            best = {}
            for g in cand:
                key = (frozenset(hg.skeleton(g)), frozenset(hg.v_structures(g)))
                if key not in best:
                    best[key] = (total(score, n, g), g)
            ranked = sorted(best.values(), key=lambda t: -t[0])
            if not ranked:
                break
            if abs(ranked[0][0] - val) < 1e-7 or (len(ranked) > 1 and ranked[0][0] > val and ranked[0][0] - ranked[1][0] < 1e-7):
                raise Reject()
            if ranked[0][0] <= val:
                break
            val, cur = ranked[0]
    return cur, val


def read(ctx, ges, n):
    g = ges.get_causal_graph()
    names = ["x%d" % i for i in range(n)]
    ctx.require(list(g.nodes) == names, "nodes %r, expected %r", list(g.nodes), names)
    return hg.read_pdag(ctx, g, {"n": n, "labels": "xi"})


def member_of(n, d, u):
    ex = hg.extensions(n, sorted(d), sorted(tuple(sorted(e)) for e in u), 1)
    return ex[0] if ex else None


def valid_cpdag(ctx, n, d, u):
    m = member_of(n, d, u)
    ctx.require(m is not None, "the result (directed %r, undirected %r) has no consistent extension", sorted(d), sorted(map(sorted, u)))
    wd, wu = hg.cpdag(n, m)
    ctx.require((d, u) == (wd, wu), "the result (directed %r, undirected %r) is no CPDAG; its class has %r, %r", sorted(d), sorted(map(sorted, u)), sorted(wd), sorted(map(sorted, wu)))
    return m


@st.composite
def data_cases(draw):
    n = draw(st.sampled_from([4, 3, 5, 2]))
    d = draw(hg.dags(min_n=n, max_n=n))
    d.update(seed=draw(st.integers(0, 10 ** 6)), rows=draw(st.sampled_from([40, 15, 150, 800])), strength=draw(st.sampled_from([1.0, 0.4, 2.0, 0.0])),
             score=draw(st.sampled_from(["bic", "bic", "bic", "bdeu"])), lam=draw(st.sampled_from([None, 0.2, 2, 0.0])),
             max_p=draw(st.sampled_from([None, None, 10, 0, 1, 2])), frame=draw(st.booleans()))
    if d["score"] == "bdeu":
        d["rows"] = min(d["rows"], 150)
    return d


def make_data(case):
    rng = np.random.RandomState(case["seed"])
    n, rows = case["n"], case["rows"]
    X = rng.randn(rows, n)
    for v in hg.topo(n, [tuple(e) for e in case["edges"]]):
        for a, b in case["edges"]:
            if b == v:
                X[:, v] += case["strength"] * rng.choice([-1, 1]) * rng.uniform(.5, 1.5) * X[:, a]
    if case["score"] == "bdeu":
        X = np.digitize(X, [-.5, .5]).astype(int)
    return X


def make_score(case, X):
    from cdmir.utils.local_score import BDeuScore, BICScore
    data = tables.frame(X, ["c%d" % (17 * k % 23) for k in range(X.shape[1])]) if case["frame"] else tables.array(X)
    if case["score"] == "bdeu":
        return BDeuScore(data, sample_prior=2)
    return BICScore(data) if case["lam"] is None else BICScore(data, lambda_value=case["lam"])


@SUITE.sub("same_as_class_search", strategy=data_cases(), quick=320, thorough=8000, shards=8)
def same_search(case, ctx):
    from checks.s02 import bdeu
    from checks.s01 import bic
    from cdmir.discovery.score_based import GES
    n = case["n"]
    X = make_data(case)
    keep = X.copy()
    memo = {}

    def score(v, parents):
        if (v, parents) not in memo:
            if case["score"] == "bdeu":
                memo[(v, parents)] = bdeu(X, v, sorted(parents), 2, 1)[0]
            else:
                memo[(v, parents)] = bic(X, v, sorted(parents), 1 if case["lam"] is None else case["lam"])
        return memo[(v, parents)]

    want, val = reference(n, score, n / 2 if case["max_p"] is None else case["max_p"])
    ges = GES(make_score(case, X)) if case["max_p"] is None else GES(make_score(case, X), max_p=case["max_p"])
    ges.fit()
    d, u = read(ctx, ges, n)
    m = valid_cpdag(ctx, n, d, u)
    ctx.close(float(ges.get_score()), total(score, n, m), "reported score, against the sum of local scores of the result", rtol=1e-8, atol=1e-5)
    for x in Classes.members(n, m)[:20]:
        for e in x:
            ctx.require(total(score, n, x - {e}) <= total(score, n, x) + 1e-6, "deleting %r from member %r improves the score", e, sorted(x))
    ctx.require((d, u) == hg.cpdag(n, want), "result (directed %r, undirected %r, score %r), the class search ends in %r (score %r)",
                sorted(d), sorted(map(sorted, u)), ges.get_score(), hg.cpdag(n, want), val)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    ges.fit()
    ctx.require(read(ctx, ges, n) == (d, u) and ges.get_score() == ges.get_score(), "fitting again changes the result")
    ctx.close(float(ges.get_score()), val, "score after fitting again", rtol=1e-8, atol=1e-5)
    ctx.nontrivial(len(m) >= 2)
    ctx.label("n=%d" % n)
    ctx.label("limit %s" % case["max_p"])
    ctx.label(case["score"])


@st.composite
def population(draw):
    n = draw(st.sampled_from([4, 5, 3]))
    d = draw(hg.dags(min_n=n, max_n=n))
    d["seed"] = draw(st.integers(0, 10 ** 6))
    return d


@SUITE.sub("population_scores", strategy=population(), quick=250, thorough=5000, shards=8)
def perfect(case, ctx):
    from itertools import combinations
    from cdmir.discovery.score_based import GES
    from cdmir.utils.local_score import BaseLocalScoreFunction
    n, edges = case["n"], [tuple(e) for e in case["edges"]]
    rng = np.random.RandomState(case["seed"])
    for _ in range(30):
        B = np.zeros((n, n))
        for a, b in edges:
            B[a, b] = rng.choice([-1, 1]) * rng.uniform(.4, 1.2)
        I = np.linalg.inv(np.eye(n) - B)
        S = I.T @ np.diag(rng.uniform(.5, 2, n)) @ I

        def var(v, P):
            P = sorted(P)
            return S[v, v] - (S[v, P] @ np.linalg.solve(S[np.ix_(P, P)], S[P, v]) if P else 0.0)
        weakest = 1.0
        for a, b in combinations(range(n), 2):
            rest = [k for k in range(n) if k not in (a, b)]
            for s in range(len(rest) + 1):
                for z in combinations(rest, s):
                    if not hg.d_separated(n, edges, a, b, set(z)):
                        weakest = min(weakest, math.sqrt(max(0, 1 - var(a, set(z) | {b}) / var(a, set(z)))))
        if weakest > .03:
            break
    else:
        raise Reject()
    N = 1e6  # penalty far below the weakest dependence, far above rounding

    class Population(BaseLocalScoreFunction):
        def __call__(self, i, parent_i, *args, **kwargs):
            P = {int(p) for p in parent_i}
            return -(N * math.log(var(int(i), P)) + math.log(N) * len(P))
    ges = GES(Population(np.zeros((2, n))), max_p=n)
    ges.fit()
    d, u = read(ctx, ges, n)
    ctx.require((d, u) == hg.cpdag(n, edges), "result (directed %r, undirected %r), the generating DAG has %r", sorted(d), sorted(map(sorted, u)), hg.cpdag(n, edges))
    ctx.close(float(ges.get_score()), sum(Population(np.zeros((2, n)))(v, hg.parents_of(n, edges)[v]) for v in range(n)), "reported score", rtol=1e-9, atol=1e-2)
    ctx.nontrivial(len(edges) >= 2)
    ctx.label("n=%d" % n)


@st.composite
def equivalent(draw):
    return {"n": draw(st.sampled_from([4, 5, 3, 5, 6])), "seed": draw(st.integers(0, 10 ** 6)), "bias": draw(st.sampled_from([0.0, 0.2, 0.5, -0.2, -0.5, -1.0])),
            "max_p": draw(st.sampled_from([None, 10, 10, 1, 2]))}


@SUITE.sub("equivalent_scores", strategy=equivalent(), quick=1500, thorough=20000, shards=8)
def equivalent_scores(case, ctx):
    """s(i, P) = h(P + i) - h(P) is score equivalent for every function h of sets: landscapes no data would give."""
    from cdmir.discovery.score_based import GES
    from cdmir.utils.local_score import BaseLocalScoreFunction
    n = case["n"]
    rng = np.random.RandomState(case["seed"])
    h = rng.randn(2 ** n)
    for k in range(2 ** n):
        h[k] += case["bias"] * bin(k).count("1") ** 2 / 2

    def score(v, parents):
        code = sum(1 << int(p) for p in set(parents))
        return float(h[code | 1 << int(v)] - h[code])
    limit = n / 2 if case["max_p"] is None else case["max_p"]
    if n == 6 and case["bias"] > 0:
        raise Reject()  # dense classes of six nodes have too many members to enumerate here
    want, val = reference(n, score, limit)

    class Table(BaseLocalScoreFunction):
        def __call__(self, i, parent_i, *args, **kwargs):
            return score(i, parent_i)
    ges = GES(Table(np.zeros((2, n))), max_p=case["max_p"])
    ges.fit()
    d, u = read(ctx, ges, n)
    m = valid_cpdag(ctx, n, d, u)
    ctx.close(float(ges.get_score()), total(score, n, m), "reported score, against the sum of local scores of the result", rtol=1e-9, atol=1e-8)
    ctx.require((d, u) == hg.cpdag(n, want), "result (directed %r, undirected %r, score %r), the class search ends in %r (score %r)",
                sorted(d), sorted(map(sorted, u)), ges.get_score(), hg.cpdag(n, want), val)
    ctx.nontrivial(len(m) >= 2)
    ctx.label("n=%d" % n)
    ctx.label("edges %d" % len(m))


def operator_search(n, score, limit):
    """The same greedy search by Chickering's Insert and Delete operators, for sizes whose classes are too large to enumerate."""
    from itertools import chain, combinations

    def subsets(s):
        s = sorted(s)
        return chain.from_iterable(combinations(s, k) for k in range(len(s) + 1))

    def delta(b, base, a):
        return score(b, frozenset(base | {a})) - score(b, frozenset(base - {a}))
    cur, val, steps = frozenset(), total(score, n, frozenset()), 0
    for phase in ("add", "delete"):
        while True:
            d, u = hg.cpdag(n, cur)
            pa = [{x for x, y in d if y == v} for v in range(n)]
            nb = [{w for e in u if v in e for w in e if w != v} for v in range(n)]
            ch = [{y for x, y in d if x == v} for v in range(n)]
            adj = [pa[v] | nb[v] | ch[v] for v in range(n)]

            def clique(s):
                return all(y in adj[x] for x, y in combinations(sorted(s), 2))

            def open_path(src, dst, blocked):
                seen, todo = {src}, [src]
                while todo:
                    for y in nb[todo[-1]] | ch[todo.pop()]:
                        if y == dst:
                            return True
                        if y not in seen and y not in blocked:
                            seen.add(y)
                            todo.append(y)
                return False
            found = []
            for a in range(n):
                for b in range(n):
                    if a == b:
                        continue
                    na = nb[b] & adj[a]
                    if phase == "add" and b not in adj[a] and len(pa[b]) <= limit:
                        for T in subsets(nb[b] - adj[a]):
                            s = na | set(T)
                            if clique(s) and not open_path(b, a, s):
                                found.append((delta(b, pa[b] | s, a), a, b, T))
                    elif phase == "delete" and (b in ch[a] or b in nb[a]):
                        for H in subsets(na):
                            if clique(na - set(H)):
                                found.append((-delta(b, pa[b] | (na - set(H)), a), a, b, H))
            found.sort(key=lambda t: -t[0])
            if not found or found[0][0] < -1e-7:
                break
            results, near = {}, [t for t in found if t[0] > found[0][0] - 1e-7]
            if abs(found[0][0]) < 1e-7:
                raise Reject()
            for gain, a, b, T in near:  # several operators reach the same class; different classes are a tie
                nd, nu = set(d), set(u)
                if phase == "add":
                    nd |= {(a, b)} | {(t, b) for t in T}
                    nu -= {frozenset((t, b)) for t in T}
                else:
                    nd -= {(a, b)}
                    nu -= {frozenset((a, b))} | {frozenset((h, x)) for h in T for x in (a, b)}
                    nd |= {(x, h) for h in T for x in (a, b)}
                m = member_of(n, nd, nu)
                assert m is not None, "oracle: an operator without a consistent extension"
                results[(frozenset(hg.skeleton(m)), frozenset(hg.v_structures(m)))] = m
            if len(results) > 1:
                raise Reject()
            cur, val, steps = frozenset(m), val + found[0][0], steps + 1
    return cur, val


@st.composite
def larger(draw):
    return {"n": draw(st.sampled_from([6, 7, 7, 8, 6])), "seed": draw(st.integers(0, 10 ** 6)), "bias": draw(st.sampled_from([0.0, 0.1, 0.2, -0.2, -0.5])),
            "small": draw(st.sampled_from([0, 0, 300])), "max_p": draw(st.sampled_from([None, 10, 10, 2]))}


@SUITE.sub("larger_graphs", strategy=larger(), quick=700, thorough=15000, shards=8, thorough_shards=8)
def larger_graphs(case, ctx):
    """Six to eight variables, set-function scores, against the operator search (which is itself compared with the enumeration)."""
    from cdmir.discovery.score_based import GES
    from cdmir.utils.local_score import BaseLocalScoreFunction
    n = case["n"]
    rng = np.random.RandomState(case["seed"])
    h = rng.randn(2 ** n)
    for k in range(2 ** n):
        h[k] += case["bias"] * bin(k).count("1") ** 2 / 2

    def score(v, parents):
        code = sum(1 << int(p) for p in set(parents))
        return float(h[code | 1 << int(v)] - h[code])
    limit = n / 2 if case["max_p"] is None else case["max_p"]
    if case["small"]:
        k = 4 + case["seed"] % 2
        mine, full = operator_search(k, score, limit), reference(k, score, limit)
        assert hg.cpdag(k, mine[0]) == hg.cpdag(k, full[0]) and abs(mine[1] - full[1]) < 1e-7, "oracle: the two searches differ"
    want, val = operator_search(n, score, limit)

    class Table(BaseLocalScoreFunction):
        def __call__(self, i, parent_i, *args, **kwargs):
            return score(i, parent_i)
    ges = GES(Table(np.zeros((2, n))), max_p=case["max_p"])
    ges.fit()
    d, u = read(ctx, ges, n)
    m = valid_cpdag(ctx, n, d, u)
    ctx.close(float(ges.get_score()), total(score, n, m), "reported score, against the sum of local scores of the result", rtol=1e-9, atol=1e-8)
    ctx.require((d, u) == hg.cpdag(n, want), "result (directed %r, undirected %r, score %r), the search by valid operators ends in %r (score %r)",
                sorted(d), sorted(map(sorted, u)), ges.get_score(), hg.cpdag(n, want), val)
    ctx.nontrivial(len(m) >= n)
    ctx.label("n=%d" % n)
    ctx.label("edges>=%d" % (len(m) // 5 * 5))


@st.composite
def arbitrary(draw):
    return {"n": draw(st.sampled_from([3, 4, 2, 5])), "seed": draw(st.integers(0, 10 ** 6)), "bias": draw(st.sampled_from([0.0, 0.4, 0.8, -0.5])),
            "max_p": draw(st.sampled_from([None, 0, 1, 2, 5]))}


@SUITE.sub("arbitrary_scores", strategy=arbitrary(), quick=400, thorough=10000, shards=4)
def any_score(case, ctx):
    """Scores that are not score-equivalent: the result is still a CPDAG and refitting is stable."""
    from cdmir.discovery.score_based import GES
    from cdmir.utils.local_score import BaseLocalScoreFunction
    n = case["n"]
    rng = np.random.RandomState(case["seed"])
    tab = rng.randn(n, 2 ** n)
    for k in range(2 ** n):
        tab[:, k] += case["bias"] * bin(k).count("1")

    class Table(BaseLocalScoreFunction):
        def __call__(self, i, parent_i, *args, **kwargs):
            return float(tab[int(i), sum(1 << int(p) for p in set(parent_i))])
    ges = GES(Table(np.zeros((2, n))), max_p=case["max_p"])
    ctx.raises(Exception, ges.get_causal_graph, "asking for the graph before fitting")
    ctx.raises(Exception, ges.get_score, "asking for the score before fitting")
    ges.fit()
    d, u = read(ctx, ges, n)
    m = valid_cpdag(ctx, n, d, u)
    ctx.require(np.isfinite(ges.get_score()) and ges.get_score() >= tab[:, 0].sum() - 1e-9, "score %r below that of the empty graph", ges.get_score())
    first = float(ges.get_score())
    again = GES(Table(np.zeros((2, n))), max_p=case["max_p"])
    again.fit()
    ctx.require(read(ctx, again, n) == (d, u) and same(again.get_score(), first), "a second run gives another result")
    ctx.raises(Exception, lambda: GES(lambda i, p: 0.0), "a score that is no local score object")
    ctx.nontrivial(len(m) >= 2)
    ctx.label("n=%d" % n)
