"""M01: structure metrics against ratios computed from explicit edge sets."""
from itertools import combinations

from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("M01", "triples of random graphs of one class (general marks, directed, partially directed) over 2-8 (some 10-18) shared nodes with six kinds "
              "of labels, edges entered in random order and direction, related graphs obtained by random edits so that overlaps vary; "
              "oracle: precision, recall and F1 from explicit edge sets, pairwise edge comparison, metric axioms; non-trivial: the two graphs "
              "share an edge and differ", ["graphs of fewer than two nodes have no pairs and are outside the ratios' domain"])

CODES = {"Graph": ["--", "->", "<-", "<>", "o-", "-o", "o>", "<o", "oo"], "DiGraph": ["->", "<-"], "PDAG": ["--", "->", "<-", "<>"]}
MARK = {"-": "Tail", ">": "Arrow", "<": "Arrow", "o": "Circle"}


@st.composite
def triples(draw):
    n = draw(st.sampled_from([4, 3, 5, 2, 6, 8]))
    cls = draw(st.sampled_from(["PDAG", "DiGraph", "Graph"]))
    pairs = [list(p) for p in combinations(range(n), 2)]
    code = st.one_of(st.none(), st.sampled_from(CODES[cls]), st.sampled_from(CODES[cls]))
    base = [draw(code) for _ in pairs]
    out = []
    for _ in range(3):
        kind = draw(st.sampled_from(["edit", "edit", "same", "fresh", "empty"]))
        g = {"edit": list(base), "same": list(base), "fresh": [draw(code) for _ in pairs] if kind == "fresh" else None, "empty": [None] * len(pairs)}[kind]
        if kind == "edit":
            for k in draw(st.lists(st.integers(0, len(pairs) - 1), min_size=1, max_size=4)):
                g[k] = draw(code)
        out.append(g)
    return {"n": n, "cls": cls, "labels": draw(st.sampled_from(hg.LABEL_KINDS)), "graphs": out, "flip": draw(st.integers(0, 2 ** 16 - 1)),
            "order": draw(st.permutations(range(len(pairs)))), "nodes": draw(st.permutations(range(n)))}


def build(case, codes, which):
    import cdmir.graph as cg
    from cdmir.graph import Edge, Mark
    L = lambda i: hg.label(case["labels"], i)  # noqa: E731
    g = getattr(cg, case["cls"])([L(i) for i in case["nodes"]])
    pairs = list(combinations(range(case["n"]), 2))
    order = case["order"] if which % 2 else list(reversed(case["order"]))
    for k in order:
        c = codes[k]
        if c is None:
            continue
        a, b = pairs[k]
        ma, mb = getattr(Mark, MARK[c[0]]), getattr(Mark, MARK[c[1]])
        if c == "<-" if case["cls"] == "DiGraph" else (case["flip"] >> ((k + which) % 16)) & 1:
            g.add_edge(Edge(L(b), L(a), mb, ma))
        else:
            g.add_edge(Edge(L(a), L(b), ma, mb))
    return g


def sets(case, codes):
    skel, arrows, directed = set(), set(), set()
    for (a, b), c in zip(combinations(range(case["n"]), 2), codes):
        if c is None:
            continue
        skel.add((a, b))
        if c[1] == ">":
            arrows.add((a, b))
        if c[0] == "<":
            arrows.add((b, a))
        if c == "->":
            directed.add((a, b))
        if c == "<-":
            directed.add((b, a))
    return skel, arrows, directed


def ratios(true, est):
    tp = len(true & est)
    p = tp / len(est) if est else 0.0
    r = tp / len(true) if true else 0.0
    return {"precision": p, "recall": r, "f1": 2 * p * r / (p + r) if p + r else 0.0}


@SUITE.sub("ratios_and_distance", strategy=triples(), quick=1000, thorough=40000, shards=8)
def metrics(case, ctx):
    from cdmir.utils.metrics import arrow_evaluation, directed_edge_evaluation, graph_equal, shd, skeleton_evaluation
    gs = [build(case, c, k) for k, c in enumerate(case["graphs"])]
    snaps = [hg.snapshot(g) for g in gs]
    S = [sets(case, c) for c in case["graphs"]]
    D = {}
    for i in range(3):
        for j in range(3):
            for k, f in enumerate((skeleton_evaluation, arrow_evaluation, directed_edge_evaluation)):
                got, want = f(gs[i], gs[j]), ratios(S[i][k], S[j][k])
                ctx.require(set(got) >= set(want), "%s returns keys %r", f.__name__, sorted(got))
                for key in want:
                    ctx.close(float(got[key]), want[key], "%s(graph %d, graph %d)[%s] of %r against %r" % (f.__name__, i, j, key, case["graphs"][i], case["graphs"][j]))
            D[i, j] = shd(gs[i], gs[j])
            diff = sum(a != b for a, b in zip(case["graphs"][i], case["graphs"][j]))
            ctx.require(D[i, j] == diff, "shd %r, expected %d for %r against %r", D[i, j], diff, case["graphs"][i], case["graphs"][j])
            ctx.require(bool(graph_equal(gs[i], gs[j])) == (diff == 0), "graph_equal %r for %r against %r", graph_equal(gs[i], gs[j]), case["graphs"][i], case["graphs"][j])
    for i in range(3):
        for j in range(3):
            ctx.require(D[i, j] == D[j, i] and (D[i, j] == 0) == (case["graphs"][i] == case["graphs"][j]), "shd is no metric: %r", D)
            for k in range(3):
                ctx.require(D[i, k] <= D[i, j] + D[j, k], "shd violates the triangle inequality: %r", D)
    ctx.require([hg.snapshot(g) for g in gs] == snaps, "a metric modified a graph")
    ctx.nontrivial(any(S[i][0] & S[j][0] and D[i, j] for i in range(3) for j in range(i)))
    ctx.label(case["cls"])


@SUITE.sub("mismatches", strategy=triples(), quick=200, thorough=2000, shards=2)
def mismatch(case, ctx):
    import cdmir.graph as cg
    from cdmir.utils.metrics import arrow_evaluation, directed_edge_evaluation, graph_equal, shd, skeleton_evaluation
    fs = (skeleton_evaluation, arrow_evaluation, directed_edge_evaluation, graph_equal, shd)
    g = build(case, case["graphs"][0], 0)
    L = lambda i: hg.label(case["labels"], i)  # noqa: E731
    nodes = [L(i) for i in case["nodes"]]
    others = [("another class", getattr(cg, c)(nodes)) for c in CODES if c != case["cls"]]
    cls = getattr(cg, case["cls"])
    others += [("nodes in another order", cls(nodes[1:] + nodes[:1])), ("a missing node", cls(nodes[:-1])), ("an extra node", cls(nodes + ["extra"])),
               ("another node", cls(nodes[:-1] + ["other"]))]
    for what, h in others:
        for f in fs:
            for a, b in ((g, h), (h, g)):
                ctx.raises(Exception, lambda: f(a, b), "%s with %s" % (f.__name__, what))
    ctx.nontrivial(any(True for _ in g.edges))


@st.composite
def big(draw):
    import random
    n, cls, seed = draw(st.sampled_from([12, 10, 18])), draw(st.sampled_from(["PDAG", "DiGraph", "Graph"])), draw(st.integers(0, 10 ** 9))
    r = random.Random(seed)
    m = n * (n - 1) // 2
    p = r.choice([.1, .3, .8])
    code = lambda: r.choice(CODES[cls]) if r.random() < p else None  # noqa: E731
    base = [code() for _ in range(m)]
    graphs = [[code() if r.random() < q else c for c in base] for q in (0, r.choice([.02, .2]), r.choice([0, .5]))]
    order, nodes = list(range(m)), list(range(n))
    r.shuffle(order), r.shuffle(nodes)
    return {"n": n, "cls": cls, "labels": draw(st.sampled_from(hg.LABEL_KINDS)), "graphs": graphs, "flip": r.randrange(2 ** 16), "order": order, "nodes": nodes}


SUITE.sub("large", strategy=big(), quick=32, thorough=400, shards=8)(metrics)
