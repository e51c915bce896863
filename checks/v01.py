"""V01: the circular layout and the plotted figure, read back from its artists."""
import math

import numpy as np
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("V01", "random mixed graphs with 0-25 nodes, seven label kinds (integers, floats, tuples, strings, odd ones), all pairs of end marks, Graph, MixedGraph and DiGraph, latent "
              "sets given as nodes or names in several containers, radii, mark ratios, figure sizes, sorted and scaled layouts and layouts that are not circular; oracle: the "
              "figure's circles, texts and arrow patches (end points and arrow style) against the edge list; non-trivial: an edge and at least 3 nodes",
              ["node labels are distinct as strings (positions are keyed by name)"])

KINDS = [k for k in hg.LABEL_KINDS + ["xi"] if k != "mixed"]  # 0 and "0" would share a name


@st.composite
def pictures(draw):
    n = draw(st.sampled_from([4, 3, 5, 2, 8, 1, 14, 25]))
    kind = draw(st.sampled_from(KINDS))
    digraph = draw(st.sampled_from([False, False, True]))
    marks = [[-1, 1]] if digraph else [[a, b] for a in (-1, 1, 2) for b in (-1, 1, 2)]
    edges = []
    p = draw(st.permutations(list(range(n))))
    for a in range(n):
        for b in range(a + 1, n):
            if draw(st.sampled_from([True, False] if n <= 5 else [True, False, False, False])):
                edges.append([p[a], p[b]] + draw(st.sampled_from(marks)))
    return {"n": n, "labels": kind, "order": draw(st.permutations(list(range(n)))), "digraph": digraph, "edges": edges,
            "latent": [v for v in range(n) if draw(st.sampled_from([False, True, False]))], "latent_as": draw(st.sampled_from(["set", "list", "tuple", "names", "name set", "none"])),
            "radius": draw(st.sampled_from([None, .04, .02, .06])), "ratio": draw(st.sampled_from([None, 1 / 6, .3])), "size": draw(st.sampled_from([None, [3, 3], [6, 4]])),
            "layout": draw(st.sampled_from(["default", "sorted", "scaled", "own"]))}


def build(case):
    from cdmir.graph import DiGraph, Edge, Graph, Mark
    lab = [hg.label(case["labels"], i) for i in range(case["n"])]
    g = (DiGraph if case["digraph"] else Graph)([lab[i] for i in case["order"]])
    for a, b, x, y in case["edges"]:
        g.add_edge(Edge(lab[a], lab[b], Mark(x), Mark(y)))
    return g, lab


@st.composite
def rings(draw):
    n = draw(st.sampled_from([3, 1, 2, 5, 12, 0, 7, 40]))
    return {"n": n, "labels": draw(st.sampled_from(KINDS)), "order": draw(st.permutations(list(range(n)))), "scale": draw(st.sampled_from([None, .45, 1.0, .1, 3.5])),
            "sort": draw(st.sampled_from([None, True, False])), "edges": [], "digraph": False}


@SUITE.sub("layout", strategy=rings(), quick=600, thorough=10000, shards=4)
def layout(case, ctx):
    from cdmir.visual import circular_layout
    g, lab = build(case)
    kw = {}
    if case["scale"] is not None:
        kw["scale"] = case["scale"]
    if case["sort"] is not None:
        kw["sort_node"] = case["sort"]
    names = [str(v) for v in g.nodes]
    before = hg.snapshot(g)
    pos = circular_layout(g, **kw)
    ctx.require(hg.snapshot(g) == before, "the layout changed the graph")
    n, scale = case["n"], case["scale"] if case["scale"] is not None else .45
    ctx.require(set(pos) == set(names) and len(pos) == n, "positions for %r, nodes %r", sorted(pos), sorted(names))
    order = sorted(names) if case["sort"] else names
    z = np.array([complex(*pos[v]) for v in order])
    ctx.require(np.all(np.abs(np.abs(z) - scale) < 1e-9), "distances from the centre %r, expected %r", np.abs(z).tolist(), scale)
    if n >= 2:
        step = np.roll(z, -1) / z
        ctx.require(np.abs(step - np.exp(2j * math.pi / n)).max() < 1e-9 or np.abs(step - np.exp(-2j * math.pi / n)).max() < 1e-9,
                    "angles between consecutive nodes %r, expected one turn over %d", np.degrees(np.angle(step)).tolist(), n)
    ctx.nontrivial(n >= 3)


def ends(patch):
    """-> ((point, has arrowhead), (point, has arrowhead)) of an arrow patch"""
    style = patch.get_arrowstyle()
    a, b = patch._posA_posB
    arrow = style.arrow
    return (tuple(a), arrow.startswith(("<", "|-", "]"))), (tuple(b), arrow.endswith((">", "-|", "[")))


def dist(p, q):
    return math.hypot(p[0] - q[0], p[1] - q[1])


@SUITE.sub("figure", strategy=pictures(), quick=600, thorough=12000, shards=8)
def figure(case, ctx):
    import matplotlib.pyplot as plt
    from matplotlib import colors, patches
    from cdmir.visual import circular_layout, plot_graph
    g, lab = build(case)
    names = {v: str(v) for v in g.nodes}
    before = hg.snapshot(g)
    if case["layout"] == "own":
        place = lambda graph: {str(v): (.11 * k - .4, .07 * (k * k % 7) - .2) for k, v in enumerate(graph.nodes)}
    elif case["layout"] == "sorted":
        place = lambda graph: circular_layout(graph, sort_node=True)
    elif case["layout"] == "scaled":
        place = lambda graph: circular_layout(graph, scale=.3)
    else:
        place = circular_layout
    pos = {v: tuple(c + .5 for c in place(g)[names[v]]) for v in g.nodes}
    kw = {}
    latent = [lab[v] for v in case["latent"]]
    how = case["latent_as"]
    if how == "none":
        latent = []
    else:
        kw["is_latent"] = {"set": set, "list": list, "tuple": tuple, "names": lambda s: [str(v) for v in s], "name set": lambda s: {str(v) for v in s}}[how](latent)
    if case["radius"] is not None:
        kw["node_radius"] = case["radius"]
    if case["ratio"] is not None:
        kw["edge_circle_mark_ratio"] = case["ratio"]
    if case["size"] is not None:
        kw["figsize"] = tuple(case["size"])
    r = case["radius"] or .04
    cr = r * (case["ratio"] or 1 / 6)
    try:
        fig = plot_graph(g, place, **kw)
        ctx.require(hg.snapshot(g) == before, "plotting changed the graph")
        ctx.require(len(fig.axes) == 1, "%d axes", len(fig.axes))
        ax = fig.axes[0]
        circles = [p for p in ax.patches if isinstance(p, patches.Circle)]
        discs = [c for c in circles if abs(c.radius - r) < 1e-9]
        small = [c for c in circles if abs(c.radius - r) >= 1e-9]
        arrows = [p for p in ax.patches if isinstance(p, patches.FancyArrowPatch)]
        texts = [(t.get_text(), t.get_position()) for t in ax.texts]
        ctx.require(len(discs) == case["n"], "%d discs for %d nodes", len(discs), case["n"])
        ctx.require(len(texts) == case["n"], "%d labels for %d nodes", len(texts), case["n"])
        face = {}
        for v in g.nodes:
            at = [c for c in discs if dist(c.center, pos[v]) < 1e-9]
            ctx.require(len(at) == 1, "%d discs at the place of node %r", len(at), v)
            ctx.require([t for t, q in texts if dist(q, pos[v]) < 1e-9] == [names[v]], "labels at the place of node %r: %r", v, [t for t, q in texts if dist(q, pos[v]) < 1e-9])
            face[v] = tuple(at[0].get_facecolor())
        lat = {face[v] for v in g.nodes if v in latent}
        obs = {face[v] for v in g.nodes if v not in latent}
        ctx.require(len(lat) <= 1 and len(obs) <= 1 and not lat & obs, "latent nodes %r are filled %r, the others %r", latent, lat, obs)
        ctx.require(all(fig.get_figwidth() == s[0] and fig.get_figheight() == s[1] for s in [case["size"]] if s), "figure size %r", fig.get_size_inches())
        ctx.require(len(arrows) == len(case["edges"]), "%d lines for %d edges", len(arrows), len(case["edges"]))
        ctx.require(len(small) == sum((x == 2) + (y == 2) for _, _, x, y in case["edges"]), "%d circle marks", len(small))
        left = list(arrows)
        spare = list(small)
        for a, b, x, y in case["edges"]:
            pa, pb = pos[lab[a]], pos[lab[b]]
            L = dist(pa, pb)

            def along(p, q, t):
                return (p[0] + (q[0] - p[0]) * t / L, p[1] + (q[1] - p[1]) * t / L)

            want_a, want_b = along(pa, pb, r + (2 * cr if x == 2 else 0)), along(pb, pa, r + (2 * cr if y == 2 else 0))
            found = None
            for p in left:
                (s, hs), (e, he) = ends(p)
                if dist(s, want_a) < 1e-9 and dist(e, want_b) < 1e-9:
                    found = (p, hs, he)
                elif dist(e, want_a) < 1e-9 and dist(s, want_b) < 1e-9:
                    found = (p, he, hs)
                if found:
                    break
            ctx.require(found is not None, "no line joins %r and %r: lines %r, expected ends %r %r", lab[a], lab[b], [ends(p) for p in left][:6], want_a, want_b)
            left.remove(found[0])
            ctx.require(found[1:] == (x == 1, y == 1), "arrowheads %r on the edge %r-%r with marks %r", found[1:], lab[a], lab[b], (x, y))
            for mark, p, q, who in ((x, pa, pb, a), (y, pb, pa, b)):
                if mark == 2:
                    at = [c for c in spare if dist(c.center, along(p, q, r + cr)) < 1e-9 and abs(c.radius - cr) < 1e-9]
                    ctx.require(at, "no circle mark at node %r of the edge %r-%r", lab[who], lab[a], lab[b])
                    spare.remove(at[0])
    finally:
        plt.close("all")
    ctx.nontrivial(bool(case["edges"]) and case["n"] >= 3)
    ctx.label("labels " + case["labels"])
    ctx.label("latent", bool(latent))
