"""G01: model-based stateful test of the graph store (Graph, DiGraph, PDAG)."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import Suite
from harness.graphs import LABEL_KINDS, label

SUITE = Suite("G01", "random sequences of 1-40 edit calls (valid and invalid) on each graph class over 6 nodes, and of 30-200 calls over 8-45 nodes, over six kinds of "
              "node labels, checked against a dictionary model after all, some or only the last of the calls through every public query; "
              "non-trivial: at least one successful edge edit followed by a removal, overwrite or rejected call")

MARKS = {"T": -1, "A": 1, "C": 2}
ALLOWED = {"Graph": ["T", "A", "C"], "DiGraph": None, "PDAG": ["T", "A"]}

node = st.integers(0, 5)
mark = st.sampled_from(["T", "A", "C"])
edge = st.tuples(node, node, mark, mark).map(list)
op = st.one_of(
    st.tuples(st.just("add_node"), node).map(list),
    st.tuples(st.just("add_nodes"), st.lists(node, max_size=3)).map(list),
    st.tuples(st.just("add_edge"), edge, st.booleans()).map(list),
    st.tuples(st.just("add_edge"), edge, st.booleans()).map(list),
    st.tuples(st.just("add_directed"), node, node, st.booleans()).map(list),
    st.tuples(st.just("add_directed"), node, node, st.booleans()).map(list),
    st.tuples(st.just("add_edges"), st.lists(edge, max_size=3), st.booleans()).map(list),
    st.tuples(st.just("remove_node"), node).map(list),
    st.tuples(st.just("remove_nodes"), st.lists(node, max_size=2)).map(list),
    st.tuples(st.just("remove_edge"), node, node).map(list),
    st.tuples(st.just("complete")).map(list),
    st.tuples(st.just("move_node"), node).map(list),
)
program = st.fixed_dictionaries({
    "cls": st.sampled_from(["Graph", "DiGraph", "PDAG"]),
    "labels": st.sampled_from(LABEL_KINDS),
    "init": st.one_of(st.permutations(range(6)).map(list), st.permutations(range(5)).map(list), st.lists(node, max_size=6, unique=True)),
    "dup": st.integers(0, 19).map(lambda i: i == 0),
    "peek": st.sampled_from([[1], [1, 0], [0, 1, 0], [1, 0, 0, 1, 0, 0, 0], [0]]),
    "ops": st.one_of(st.lists(op, min_size=6, max_size=40), st.lists(op, min_size=1, max_size=8)),
})


class Model:
    def __init__(self, nodes):
        self.nodes = list(nodes)
        self.e = {}  # (u, v) -> mark at v ; both directions stored

    def joined(self, u, v):
        return (u, v) in self.e

    def add(self, u, v, mu, mv):
        self.e[(u, v)], self.e[(v, u)] = mv, mu

    def cut(self, u, v):
        del self.e[(u, v)], self.e[(v, u)]

    def drop(self, u):
        self.nodes.remove(u)
        self.e = {k: m for k, m in self.e.items() if u not in k}


def check_state(ctx, g, m, L):
    from cdmir.graph import Edge, Mark
    nodes = [L(i) for i in m.nodes]
    ctx.require(list(g.nodes) == nodes, "nodes %r, expected %r", list(g.nodes), nodes)
    ctx.require(g.number_of_nodes() == len(nodes), "number_of_nodes %r", g.number_of_nodes())
    want, n_edges = [], 0
    for a in range(len(m.nodes)):
        for b in range(a + 1, len(m.nodes)):
            u, v = m.nodes[a], m.nodes[b]
            if m.joined(u, v):
                want.append((L(u), L(v), m.e[(v, u)], m.e[(u, v)]))
                n_edges += 1
    got = [(e.node_u, e.node_v, int(e.mark_u), int(e.mark_v)) for e in g.edges]
    ctx.require(sorted(map(repr, got)) == sorted(map(repr, want)), "edges %r, expected %r", got, want)
    ctx.require(g.number_of_edges() == n_edges, "number_of_edges %r, expected %r", g.number_of_edges(), n_edges)
    M = g.to_numpy()
    ctx.require(M.shape == (len(nodes),) * 2, "matrix shape %r", M.shape)
    for a, u in enumerate(m.nodes):
        nb = list(g.get_neighbours(L(u)))
        wn = [L(v) for v in m.nodes if v != u and m.joined(u, v)]
        ctx.require(sorted(map(repr, nb)) == sorted(map(repr, wn)), "neighbours of %r: %r, expected %r", L(u), nb, wn)
        for b, v in enumerate(m.nodes):
            if u == v:
                ctx.require(M[a, b] == 0, "matrix diagonal of %r is %r", L(u), M[a, b])
                continue
            j = m.joined(u, v)
            mv = m.e.get((u, v), 0)
            mu = m.e.get((v, u), 0)
            ctx.require(g.is_connected(L(u), L(v)) is j, "is_connected(%r,%r) is not %r", L(u), L(v), j)
            e = g.get_edge(L(u), L(v))
            if j:
                ctx.require(e is not None and tuple(e) == (L(u), L(v), mu, mv), "get_edge(%r,%r)=%r, expected marks %r %r",
                            L(u), L(v), e, mu, mv)
            else:
                ctx.require(e is None, "get_edge(%r,%r)=%r for an absent edge", L(u), L(v), e)
            for q, want_q in (("is_arrow", mv == 1), ("is_tail", mv == -1), ("is_circle", mv == 2),
                              ("is_fully_directed", (mu, mv) == (-1, 1)), ("is_fully_undirected", (mu, mv) == (-1, -1))):
                r = getattr(g, q)(L(u), L(v))
                ctx.require(bool(r) == (j and want_q), "%s(%r,%r)=%r", q, L(u), L(v), r)
            ctx.require(M[b, a] == mv, "to_numpy()[%d,%d]=%r, expected %r", b, a, M[b, a], mv)
    T = g.to_numpy(transpose=True)
    ctx.require(np.array_equal(T, M.T), "transposed matrix differs from the transpose")
    df = g.to_dataframe()
    ctx.require(list(df.index) == nodes and list(df.columns) == nodes and np.array_equal(df.to_numpy(), M),
                "dataframe export differs from the matrix")
    text = str(g)
    left = {-1: "-", 1: "<", 2: "o"}
    right = {-1: "-", 1: ">", 2: "o"}
    lines = text.split("\n")
    ctx.require(type(g).__name__ in lines[0], "text header %r", lines[0])
    ctx.require(", ".join(str(x) for x in nodes) in lines, "text does not list the nodes: %r", text)
    for u, v, mu, mv in want:
        fwd = f"{u} {left[mu]}-{right[mv]} {v}"
        ctx.require(any(l.endswith(". " + fwd) for l in lines), "text does not show %r: %r", fwd, text)
    ctx.require(sum(1 for l in lines if l[:1].isdigit() and ". " in l) >= n_edges, "text edge lines: %r", text)


def allowed(cls, mu, mv):
    if cls == "DiGraph":
        return (mu, mv) == ("T", "A")
    return mu in ALLOWED[cls] and mv in ALLOWED[cls]


@SUITE.sub("stateful", strategy=program, quick=5000, thorough=120000, shards=8, thorough_shards=8)
def stateful(case, ctx):
    from cdmir import graph as cg
    cls = getattr(cg, case["cls"])
    from cdmir.graph import Edge, Mark

    def L(i):
        return label(case["labels"], i)

    def E(u, v, mu, mv):
        return Edge(L(u), L(v), Mark(MARKS[mu]), Mark(MARKS[mv]))

    if case["dup"] and case["init"]:
        ctx.raises(AssertionError, lambda: cls([L(i) for i in case["init"] + case["init"][:1]]), "duplicate initial nodes")
    g = cls([L(i) for i in case["init"]]) if case["init"] else cls()
    m = Model(case["init"])
    edited = after = False

    def edge_ok(u, v, mu, mv, over):
        return (allowed(case["cls"], mu, mv) and u in m.nodes and v in m.nodes and (over or not m.joined(u, v)))

    peek = case.get("peek", [1])  # after which calls the graph is looked at
    for step, o in enumerate(case["ops"]):
        name = o[0]
        if name == "add_node":
            if o[1] in m.nodes:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    g.add_node(L(o[1]))
                ctx.require(any(issubclass(x.category, UserWarning) for x in w), "re-adding a node gives no warning")
            else:
                g.add_node(L(o[1]))
                m.nodes.append(o[1])
        elif name == "add_nodes":
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                g.add_nodes([L(i) for i in o[1]])
            for i in o[1]:
                if i not in m.nodes:
                    m.nodes.append(i)
        elif name in ("add_edge", "add_directed"):
            if name == "add_directed":
                (u, v, mu, mv), over = (o[1], o[2], "T", "A"), o[3]
            else:
                (u, v, mu, mv), over = o[1], o[2]
            if u == v:
                continue
            ed = Edge(L(u), L(v)) if name == "add_directed" else E(u, v, mu, mv)
            if edge_ok(u, v, mu, mv, over):
                after |= edited and m.joined(u, v)
                g.add_edge(ed, overwrite=over) if over else g.add_edge(ed)
                m.add(u, v, MARKS[mu], MARKS[mv])
                edited = True
            else:
                after |= edited
                ctx.label("rejected edge")
                ctx.raises(AssertionError, lambda: g.add_edge(ed, overwrite=over), f"invalid edge {ed}")
        elif name == "add_edges":
            es = [e for e in o[1] if e[0] != e[1]]
            stop = None
            for k, (u, v, mu, mv) in enumerate(es):
                if not edge_ok(u, v, mu, mv, o[2]):
                    stop = k
                    break
                m.add(u, v, MARKS[mu], MARKS[mv])
                edited = True
            if stop is None:
                g.add_edges([E(*e) for e in es], overwrite=o[2])
            else:
                # edges before the invalid one may or may not have been stored: make that definite
                ctx.raises(AssertionError, lambda: g.add_edges([E(*e) for e in es], overwrite=o[2]), "invalid edge list")
                for u, v, mu, mv in es[:stop]:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        g.add_edge(E(u, v, mu, mv), overwrite=True)
        elif name == "remove_node":
            if o[1] in m.nodes:
                after |= any(o[1] in k for k in m.e)
                g.remove_node(L(o[1]))
                m.drop(o[1])
            else:
                ctx.raises(AssertionError, lambda: g.remove_node(L(o[1])), "removing a missing node")
        elif name == "remove_nodes":
            xs = [i for i in dict.fromkeys(o[1]) if i in m.nodes]
            g.remove_nodes_from([L(i) for i in xs])
            for i in xs:
                m.drop(i)
        elif name == "remove_edge":
            u, v = o[1], o[2]
            if u == v:
                continue
            if u not in m.nodes or v not in m.nodes:
                ctx.raises(AssertionError, lambda: g.remove_edge(L(u), L(v)), "removing an edge on a missing node")
            elif m.joined(u, v):
                after = True
                g.remove_edge(L(u), L(v))
                m.cut(u, v)
            else:
                with warnings.catch_warnings(record=True) as w:
                    warnings.simplefilter("always")
                    g.remove_edge(L(u), L(v))
                ctx.require(any(issubclass(x.category, UserWarning) for x in w), "removing an absent edge gives no warning")
        elif name == "complete":
            if case["cls"] != "PDAG" or m.e:
                continue
            g.create_complete_undirected_graph()
            for i, u in enumerate(m.nodes):
                for v in m.nodes[i + 1:]:
                    m.add(u, v, -1, -1)
            edited = edited or len(m.nodes) > 1
        elif name == "move_node":
            if o[1] in m.nodes:
                after |= edited
                g.remove_node(L(o[1]))
                m.drop(o[1])
                g.add_node(L(o[1]))
                m.nodes.append(o[1])
        if peek[step % len(peek)]:
            check_state(ctx, g, m, L)
    for q in (lambda: g.is_connected("absent", "absent2"), lambda: g.remove_node("absent")):
        ctx.raises(AssertionError, q, "query about a missing node")
    check_state(ctx, g, m, L)
    ctx.label(case["cls"])
    ctx.nontrivial(edited and after)


@st.composite
def big_programs(draw):
    """Graphs of 8-45 nodes with long edit histories, drawn by seed and looked at once or a few times."""
    import random
    n, steps, seed = draw(st.sampled_from([12, 20, 33, 45, 8])), draw(st.sampled_from([30, 80, 200])), draw(st.integers(0, 10 ** 9))
    r = random.Random(seed)
    node = lambda: r.randrange(n)  # noqa: E731
    ops = []
    for _ in range(steps):
        k = r.random()
        m = lambda: r.choice("TAC")  # noqa: E731
        if k < .35:
            ops.append(["add_directed", node(), node(), r.random() < .5])
        elif k < .6:
            ops.append(["add_edge", [node(), node(), m(), m()], r.random() < .5])
        elif k < .7:
            ops.append(["add_edges", [[node(), node(), r.choice("TA"), "A"] for _ in range(r.randrange(4))], r.random() < .7])
        elif k < .78:
            ops.append(["remove_edge", node(), node()])
        elif k < .86:
            ops.append(["move_node", node()])
        elif k < .9:
            ops.append(["remove_nodes", [node() for _ in range(r.randrange(3))]])
        elif k < .92:
            ops.append(["remove_node", node()])
        elif k < .98:
            ops.append(["add_nodes", [node() for _ in range(r.randrange(6))]])
        else:
            ops.append(["add_node", node()])
    init = list(range(n))
    r.shuffle(init)
    if r.random() < .1:
        ops = [["complete"]] + ops
    return {"cls": draw(st.sampled_from(["Graph", "DiGraph", "PDAG"])), "labels": draw(st.sampled_from(LABEL_KINDS)),
            "init": init[:r.choice([n, n, n - 3])], "dup": False, "peek": draw(st.sampled_from([[0], [0] * 19 + [1]])), "ops": ops}


SUITE.sub("large", strategy=big_programs(), quick=240, thorough=6000, shards=4, thorough_shards=8)(stateful)
