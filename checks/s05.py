"""S05: local scores are a pure function of the query; the graph score is their sum."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite

SUITE = Suite("S05", "histories of 2-20 queries on one score object (BIC, BDeu, general and multi-dimensional cross-validated and marginal, and a score whose value "
              "encodes the query) over 2-13 variables, parents as list, tuple, set, array, range or one-shot iterator, with repeats, "
              "near-repeats (child and parent swapped, a parent dropped, the same digits split into other indices) and lists edited by the caller afterwards; random DAGs with six kinds of node names as both graph classes; "
              "up to four objects on different data and settings asked in turns; oracle: a fresh object, the closed form for objects side by side, respectively the sum over the known parents; non-trivial: a query is repeated in another form, "
              "respectively the graph has an edge")


def splits(family, d):
    """Every family [child, parents...] whose indices read off the same digits."""
    digits, out = "".join(map(str, family)), []

    def grow(at, w):
        if at == len(digits):
            if len(set(w)) == len(w):
                out.append(w)
            return
        for k in (1, 2):
            part = digits[at:at + k]
            if len(part) == k and (k == 1 or part[0] != "0") and int(part) < d:
                grow(at + k, w + [int(part)])
    grow(0, [])
    return out


@st.composite
def histories(draw, max_d=13):
    d = min(max_d, draw(st.sampled_from([3, 4, 5, 13, 12, 2])))
    qs = []
    for _ in range(draw(st.sampled_from([6, 12, 3, 20, 2]))):
        mode = draw(st.sampled_from(["new", "again", "again", "near"])) if qs else "new"
        if mode == "new":
            perm = list(draw(st.permutations(range(d))))
            q = {"i": perm[0], "p": perm[1:1 + draw(st.sampled_from([1, 2, 0, 3]))]}
        else:
            b = qs[draw(st.integers(0, len(qs) - 1))]
            q = {"i": b["i"], "p": list(draw(st.permutations(b["p"])))}
            if mode == "near" and q["p"]:
                how = draw(st.sampled_from(["swap", "drop", "digits"]))
                if how == "swap":
                    q = {"i": q["p"][0], "p": [q["i"]] + q["p"][1:]}
                elif how == "drop":
                    q["p"] = q["p"][1:]
                else:  # the same digits, split into indices elsewhere
                    both = [w for w in splits([q["i"]] + sorted(q["p"]), d) if w != [q["i"]] + sorted(q["p"])]
                    if both:
                        w = draw(st.sampled_from(both))
                        q = {"i": w[0], "p": w[1:]}
                    else:
                        q = {"i": 0, "p": [1, 2][:d - 1]}
        q["form"] = draw(st.sampled_from(["list", "tuple", "set", "array", "iter", "gen", "edited"]))
        q["bad"] = draw(st.sampled_from([None, None, None, "parent", "variable"]))
        qs.append(q)
    return {"d": d, "queries": qs, "seed": draw(st.integers(0, 10 ** 6)), "frame": draw(st.booleans())}


def wrap(p, form):
    return {"list": lambda: list(p), "edited": lambda: list(p), "tuple": lambda: tuple(p), "set": lambda: set(p),
            "array": lambda: np.array(p, dtype=int), "iter": lambda: iter(list(p)), "gen": lambda: (v for v in list(p))}[form]()


def refuses(f):
    try:
        f()
    except Exception:
        return True
    return False


def play(case, ctx, make, data, tol=1e-9, bad=False):
    keep = data.copy()
    s = make()
    seen, again = {}, False
    for k, q in enumerate(case["queries"]):
        if bad and q.get("bad"):  # what a fresh object refuses is refused however often it is asked, and leaves no trace
            n = case["d"] + 1 + k % 2
            wrong = (lambda o: o(q["i"], list(q["p"]) + [n])) if q["bad"] == "parent" else (lambda o: o(n, list(q["p"])))
            if refuses(lambda: wrong(make())):
                ctx.require(refuses(lambda: wrong(s)) and refuses(lambda: wrong(s)), "query %d about a column that does not exist was answered", k)
        c = wrap(q["p"], q["form"])
        got = float(s(q["i"], c))
        if q["form"] == "edited":
            c.append(10 ** 6)
        want = float(make()(q["i"], list(q["p"])))
        ctx.close(got, want, "query %d: %r" % (k, q), rtol=tol, atol=tol)
        key = (q["i"], frozenset(q["p"]))
        again = again or (key in seen and seen[key] != (q["p"], q["form"]))
        seen[key] = (q["p"], q["form"])
    ctx.require(data.equals(keep) if isinstance(data, pd.DataFrame) else np.array_equal(data, keep), "the data were modified")
    ctx.nontrivial(again)


def table(case, X):
    return tables.frame(X, ["c%d" % (17 * k % 23) for k in range(X.shape[1])]) if case["frame"] else tables.array(X)


@SUITE.sub("unique_values", strategy=histories(), quick=1500, thorough=40000, shards=4)
def unique(case, ctx):
    from cdmir.utils.local_score import BaseLocalScoreFunction

    class Code(BaseLocalScoreFunction):
        def _score_function(self, i, parent_i):
            return (i + 1) * 2.0 ** 20 + sum(2 ** int(v) for v in parent_i)

        def __call__(self, i, parent_i, *args, **kwargs):
            return self._score(i, parent_i, self._score_function)
    data = table(case, np.zeros((3, case["d"])))
    play(case, ctx, lambda: Code(data), data, 0)


@SUITE.sub("bic", strategy=histories(), quick=600, thorough=15000, shards=3)
def bic(case, ctx):
    from cdmir.utils.local_score import BICScore
    rng = np.random.RandomState(case["seed"])
    data = table(case, rng.randn(40, case["d"]) @ (np.eye(case["d"]) + .5 * np.triu(rng.randn(case["d"], case["d"]), 1)))
    play(case, ctx, lambda: BICScore(data, lambda_value=1 + case["seed"] % 2), data, bad=True)


@SUITE.sub("bdeu", strategy=histories(), quick=80, thorough=1500, shards=6)
def bdeu(case, ctx):
    from cdmir.utils.local_score import BDeuScore
    rng = np.random.RandomState(case["seed"])
    data = table(case, rng.randint(0, 3, (25, case["d"])))
    play(case, ctx, lambda: BDeuScore(data, sample_prior=1 + case["seed"] % 3), data, bad=True)


@SUITE.sub("cross_validated", strategy=histories(max_d=4), quick=120, thorough=2500, shards=6)
def cross_validated(case, ctx):
    from cdmir.utils.local_score import GeneralCVScore, MultiCVScore
    rng = np.random.RandomState(case["seed"])
    data = table(case, rng.randn(24, case["d"]))
    if case["seed"] % 2:
        play(case, ctx, lambda: GeneralCVScore(data, k_fold=3), data, bad=True)
    else:
        play(case, ctx, lambda: MultiCVScore(data, k_fold=4), data, bad=True)


@SUITE.sub("marginal", strategy=histories(max_d=4), quick=120, thorough=2500, shards=6)
def marginal(case, ctx):
    from cdmir.utils.local_score import GeneralMarginalScore, MultiMarginalScore
    rng = np.random.RandomState(case["seed"])
    data = table(case, rng.randn(16, case["d"]))
    play(case, ctx, lambda: (GeneralMarginalScore if case["seed"] % 2 else MultiMarginalScore)(data), data, 1e-6)


@st.composite
def object_cases(draw):
    d = draw(st.sampled_from([3, 4]))
    qs = []
    for _ in range(draw(st.sampled_from([4, 8, 12]))):
        perm = list(draw(st.permutations(range(d))))
        if qs and draw(st.booleans()):
            qs.append(dict(qs[-1], o=draw(st.sampled_from([0, 1, 2, 3]))))
        else:
            qs.append({"o": draw(st.sampled_from([0, 1, 2, 3])), "i": perm[0], "p": perm[1:1 + draw(st.sampled_from([1, 2, 0]))]})
    return {"d": d, "n": draw(st.sampled_from([1200, 12, 60])), "queries": qs, "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(["bic", "bdeu", "code"])), "late": draw(st.booleans())}


def bdeu_value(X, i, p, prior):
    from math import lgamma
    n, r = len(X), [len(set(c)) for c in X.T]
    q = 1
    for v in p:
        q *= r[v]
    total = len(p) * np.log(1 / (n - 1)) + (n - 1 - len(p)) * np.log(1 - 1 / (n - 1))
    groups = {}
    for row in X:
        groups.setdefault(tuple(row[p]), []).append(row[i])
    for g in groups.values():
        total += lgamma(prior / q) - lgamma(len(g) + prior / q)
        total += sum(lgamma(g.count(v) + prior / (q * r[i])) - lgamma(prior / (q * r[i])) for v in set(g))
    return total


def bic_value(X, i, p, penalty):
    Z = (X - X.mean(0)) / X.std(0)
    if not p:
        return 0.0
    res = Z[:, i] - Z[:, p] @ np.linalg.lstsq(Z[:, p], Z[:, i], rcond=None)[0]
    return -(len(X) * np.log(np.mean(res ** 2)) + penalty * len(p) * np.log(len(X)))


@SUITE.sub("several_objects", strategy=object_cases(), quick=250, thorough=6000, shards=6)
def several_objects(case, ctx):
    """Objects on different data, and with different settings, live side by side and are asked in turns."""
    from cdmir.utils.local_score import BDeuScore, BICScore
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    X = rng.randint(0, 3, (n, d)) if case["kind"] == "bdeu" else rng.randn(n, d)
    X[:3] = np.arange(3)[:, None]
    Y = X.copy()
    Y[4:-4] = rng.permutation(Y[4:-4].ravel()).reshape(Y[4:-4].shape)  # printed short, the two tables look alike
    setup = [(X, 1), (Y, 1), (X, 2), (Y, 3)]
    make = {"bic": lambda T, k: BICScore(T, lambda_value=k), "bdeu": lambda T, k: BDeuScore(T, sample_prior=k), "code": lambda T, k: Code(T, k)}[case["kind"]]
    objects = {} if case["late"] else {k: make(*a) for k, a in enumerate(setup)}
    asked = {}
    for k, q in enumerate(case["queries"]):
        T, par = setup[q["o"]]
        if q["o"] not in objects:
            objects[q["o"]] = make(T, par)
        got = float(objects[q["o"]](q["i"], list(q["p"])))
        want = {"bic": bic_value, "bdeu": bdeu_value, "code": code_value}[case["kind"]](T, q["i"], list(q["p"]), par)
        ctx.close(got, want, "query %d: %r" % (k, q), rtol=1e-7, atol=1e-6)
        asked.setdefault((q["i"], tuple(q["p"])), set()).add(q["o"])
    ctx.nontrivial(any(len(v) > 1 for v in asked.values()))
    ctx.label(case["kind"])


def code_value(T, i, p, k):
    return float(T[:, i].sum() * k + sum((v + 2) * np.abs(T[:, v]).sum() for v in p) + T[4:-4, i] @ np.arange(len(T) - 8))


_code = []


def Code(T, k):
    if not _code:
        from cdmir.utils.local_score import BaseLocalScoreFunction

        class Score(BaseLocalScoreFunction):
            def __init__(self, data, k):
                super().__init__(data)
                self.k = k

            def _score_function(self, i, parent_i):
                return code_value(self.data, i, list(parent_i), self.k)

            def __call__(self, i, parent_i, *args, **kwargs):
                return self._score(i, parent_i, self._score_function)
        _code.append(Score)
    return _code[0](T, k)


@st.composite
def graph_cases(draw):
    d = draw(hg.dags(min_n=1, max_n=7))
    d["labels"] = draw(st.sampled_from(["int", "rev", "str", "tuple", "mixed", "float", "odd"]))
    d["order"] = list(draw(st.permutations(range(d["n"]))))
    d["seed"] = draw(st.integers(0, 10 ** 6))
    d["cls"] = draw(st.sampled_from(["DiGraph", "PDAG"]))
    return d


@SUITE.sub("graph_score", strategy=graph_cases(), quick=1500, thorough=40000, shards=4)
def graph_score(case, ctx):
    from cdmir.discovery.score_based.greedy_equivalence_search import Score_G
    from cdmir.graph import DiGraph, Edge, PDAG
    from cdmir.utils.local_score import BaseLocalScoreFunction, BICScore
    n, order = case["n"], case["order"]
    L = lambda i: hg.label(case["labels"], i)
    g = {"DiGraph": DiGraph, "PDAG": PDAG}[case["cls"]]([L(i) for i in order])
    for a, b in case["edges"]:
        g.add_edge(Edge(L(a), L(b)))
    snap = hg.snapshot(g)
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(50, n) @ (np.eye(n) + .5 * np.triu(rng.randn(n, n), 1))  # column k belongs to node order[k]
    pos = {v: k for k, v in enumerate(order)}
    pa = hg.parents_of(n, [tuple(e) for e in case["edges"]])
    calls = []

    class Code(BaseLocalScoreFunction):
        def __call__(self, i, parent_i, *args, **kwargs):
            key = (int(i), tuple(sorted(int(v) for v in parent_i)))
            calls.append(key)
            return self.value(key)

        @staticmethod
        def value(key):
            return (key[0] + 1) * 1000.0 + sum(3 ** v for v in key[1]) * (key[0] + 1)
    want = sum(Code.value((pos[v], tuple(sorted(pos[p] for p in pa[v])))) for v in range(n))
    got = Score_G(g, Code(X))
    ctx.close(float(got), want, "graph score (local scores asked: %r)" % calls, rtol=1e-12)
    if n > 1:
        b = BICScore(X)
        ctx.close(float(Score_G(g, score_func=b)), sum(float(BICScore(X)(pos[v], [pos[p] for p in pa[v]])) for v in range(n)), "graph score under BIC", rtol=1e-8, atol=1e-8)
    ctx.require(hg.snapshot(g) == snap, "scoring modified the graph")
    ctx.nontrivial(bool(case["edges"]))
    ctx.label(case["labels"])
