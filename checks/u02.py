"""U02: seeding, conversions and the leaky rectifier of the dataset utilities."""
import importlib
import random

import networkx as nx
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("U02", "histories of seeding and drawing from the three random generators (with and without torch, no seed), random graphs of up to 15 nodes of networkx classes with six kinds of node names and "
              "weights, random square matrices of several types, frames of mixed numeric columns, arrays of 0-3 dimensions for the rectifier; oracle: the standard library's, NumPy's and torch's own seeding, "
              "loops over node pairs and elements, a depth-first search for cycles; non-trivial: a generator is drawn from after seeding, an edge or a negative entry exists", [])


def util():
    return importlib.import_module("cdmir.datasets.utils")


@st.composite
def histories(draw):
    ops = []
    for _ in range(draw(st.sampled_from([4, 8, 2, 14]))):
        ops.append(draw(st.sampled_from(["seed", "seed", "no torch", "none", "np", "random", "torch", "other"])))
    return {"ops": ops, "seeds": [draw(st.sampled_from([0, 1, 7, 123, 2 ** 32 - 1, 99999])) for _ in ops]}


@SUITE.sub("seeding", strategy=histories(), quick=1500, thorough=40000, shards=4)
def seeding(case, ctx):
    import torch
    ut = util()
    ent = importlib.import_module("cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils")
    torch.manual_seed(5)
    a, b, t = np.random.RandomState(), random.Random(), torch.Generator()
    a.set_state(np.random.get_state()); b.setstate(random.getstate()); t.set_state(torch.get_rng_state())
    used = seeded = False
    for op, s in zip(case["ops"], case["seeds"]):
        if op in ("seed", "no torch"):
            ut.set_random_seed(s, **({} if op == "seed" else {"set_torch_seed": False}))
            a.seed(s); b.seed(s)
            if op == "seed":
                t.manual_seed(s)
            seeded = True
        elif op == "other":
            if s % 2:
                ent.set_seed(s)
                t.manual_seed(s)
            else:
                ent.set_random_seed(s)
            a.seed(s); b.seed(s)
            seeded = True
        elif op == "none":
            before = np.random.get_state()[1].tolist(), random.getstate()
            ut.set_random_seed(None)
            ctx.require(np.random.get_state()[1].tolist() != before[0] and random.getstate() != before[1], "seeding without a seed leaves the old state")
            a.set_state(np.random.get_state()); b.setstate(random.getstate())
        elif op == "np":
            ctx.require(np.random.rand() == a.random_sample(), "NumPy's generator is off after %r", case["ops"])
            used = used or seeded
        elif op == "random":
            ctx.require(random.random() == b.random(), "Python's generator is off after %r", case["ops"])
            used = used or seeded
        else:
            ctx.require(torch.rand(1).item() == torch.rand(1, generator=t).item(), "torch's generator is off after %r", case["ops"])
            used = used or seeded
    ctx.require(np.array_equal(torch.get_rng_state().numpy(), t.get_state().numpy()), "torch's generator is off after %r", case["ops"])
    ctx.require(np.random.rand() == a.random_sample() and random.random() == b.random(), "a generator is off after %r", case["ops"])
    ctx.nontrivial(used)


@st.composite
def networks(draw):
    n = draw(st.sampled_from([3, 4, 2, 6, 1]))
    kind = draw(st.sampled_from([k for k in hg.LABEL_KINDS if k != "odd"]))
    directed = draw(st.booleans())
    pairs = [(i, j) for i in range(n) for j in range(n) if (i != j if directed else i < j)] + [(i, i) for i in range(n)]
    edges = [[i, j, draw(st.sampled_from([None, 1.0, -.5, 2.0, 3]))] for i, j in pairs if draw(st.sampled_from([True, False, False]))]
    return {"n": n, "labels": kind, "order": list(draw(st.permutations(range(n)))), "directed": directed, "edges": edges, "type": draw(st.sampled_from(["float", "int", "bool", "float32"]))}


@SUITE.sub("networks", strategy=networks(), quick=1500, thorough=40000, shards=4)
def graph_conversions(case, ctx):
    ut = util()
    ent = importlib.import_module("cdmir.discovery.score_based.entropy_based.entropy_based_discovery.utils")
    n = case["n"]
    names = [hg.label(case["labels"], k) for k in range(n)]
    G = nx.DiGraph() if case["directed"] else nx.Graph()
    G.add_nodes_from(names[k] for k in case["order"])
    at = {k: p for p, k in enumerate(case["order"])}
    want = np.zeros((n, n))
    for i, j, w in case["edges"]:
        G.add_edge(names[i], names[j], **({} if w is None else {"weight": w}))
        want[at[i], at[j]] = 1.0 if w is None else w
        if not case["directed"]:
            want[at[j], at[i]] = want[at[i], at[j]]
    got = ut.nx2np(G)
    ctx.require(isinstance(got, np.ndarray), "nx2np returned %s", type(got))
    ctx.close(got, want, "adjacency matrix in the order of the graph's nodes")
    M = {"float": want, "int": want.astype(int), "bool": want != 0, "float32": want.astype(np.float32)}[case["type"]]
    keep = M.copy()
    for cls in ((nx.DiGraph,) if case["directed"] else (None, nx.Graph, nx.DiGraph)):
        H = ut.np2nx(M, cls) if case["order"][0] % 2 else ut.np2nx(M, create_using=cls)
        ctx.require(type(H) is (cls or nx.Graph), "np2nx(create_using=%s) returned %s", cls, type(H))
        ctx.require(list(H.nodes) == list(range(n)), "nodes %r", list(H.nodes))
        for i in range(n):
            for j in range(n):
                ctx.require(H.has_edge(i, j) == bool(M[i, j]), "edge %d-%d of %r", i, j, M.tolist())
                if M[i, j]:
                    ctx.require(float(H[i][j]["weight"]) == float(M[i, j]), "weight of %d-%d is %r, not %r", i, j, H[i][j]["weight"], M[i, j])
        ctx.close(ut.nx2np(H), M.astype(float), "matrix, graph and back")
    ctx.require(np.array_equal(M, keep), "the matrix was modified")
    if case["directed"]:
        D = want != 0
        reach = D.copy()
        for k in range(n):
            reach |= reach[:, [k]] & reach[[k]]
        ctx.require(bool(ent.is_dag(want)) == (not reach.diagonal().any()), "is_dag(%r)", want.tolist())
    ctx.nontrivial(bool(case["edges"]))
    ctx.label(case["labels"])


@st.composite
def arrays(draw):
    shape = draw(st.sampled_from([[4], [3, 2], [1], [2, 3, 2], [], [0], [0, 2], [2, 5]]))
    size = int(np.prod(shape))
    return {"shape": shape, "values": [draw(st.sampled_from([1.5, -1.5, 0.0, -0.0, 3.0, -7.0, 1e-12, -1e300, 2.0, -1.0])) for _ in range(size)],
            "type": draw(st.sampled_from(["float", "int", "float32", "list"])), "slope": draw(st.sampled_from([.2, 1.0, .01, 2.0])), "default": draw(st.booleans())}


@SUITE.sub("rectifier", strategy=arrays(), quick=1500, thorough=40000, shards=4)
def rectifier(case, ctx):
    ut = util()
    x = np.array(case["values"], float).reshape(case["shape"])
    if case["type"] == "int":
        x = np.clip(x, -1000, 1000).astype(int)
    elif case["type"] == "float32":
        x = np.clip(x, -1000, 1000).astype(np.float32)
    arg = x.tolist() if case["type"] == "list" else x
    x = np.asarray(arg)
    keep = x.copy()
    slope = .2 if case["default"] else case["slope"]
    got = np.asarray(ut.leaky_relu(arg) if case["default"] else ut.leaky_relu(arg, neg_slope=slope))
    want = np.array([v if v > 0 else v * slope for v in x.ravel().astype(float)]).reshape(x.shape)
    ctx.require(got.shape == x.shape, "shape %r from %r", got.shape, x.shape)
    ctx.close(got, want, "leaky rectifier of %r" % (x.tolist(),), rtol=1e-6, atol=0.0)
    ctx.require(np.array_equal(x, keep), "the input was modified")
    for bad in (0, -.1, 0.0):
        ctx.raises(Exception, lambda: ut.leaky_relu(arg, neg_slope=bad), "slope %r" % bad)
    ctx.nontrivial(bool((x < 0).any()))
    ctx.label(case["type"])


@st.composite
def frames(draw):
    r, c = draw(st.sampled_from([3, 1, 6, 0])), draw(st.sampled_from([2, 1, 4]))
    return {"rows": r, "types": [draw(st.sampled_from(["float", "int", "bool"])) for _ in range(c)], "seed": draw(st.integers(0, 10 ** 6)), "index": draw(st.sampled_from(["range", "shuffled", "names"]))}


@SUITE.sub("frames", strategy=frames(), quick=800, thorough=20000, shards=4)
def frames_check(case, ctx):
    ut = util()
    r = np.random.RandomState(case["seed"])
    cols = [r.randn(case["rows"]) if t == "float" else r.randint(-5, 5, case["rows"]) if t == "int" else r.rand(case["rows"]) > .5 for t in case["types"]]
    F = pd.DataFrame({"c%d" % (len(cols) - k): v for k, v in enumerate(cols)})
    if case["index"] == "shuffled":
        F.index = r.permutation(case["rows"])
    elif case["index"] == "names":
        F.index = ["r%d" % k for k in range(case["rows"])]
    keep = F.copy()
    want = np.array([v.astype(float) for v in cols]).T.reshape(case["rows"], len(cols))
    for f in (ut.pd2np, ut.check_data):
        got = f(F)
        ctx.require(type(got) is np.ndarray and got.shape == want.shape, "%s returned %s of shape %r", f.__name__, type(got), np.shape(got))
        ctx.close(got.astype(float), want, f.__name__)
    ctx.require(F.equals(keep), "the frame was modified")
    A = want.copy()
    ctx.require(ut.check_data(A) is A or np.array_equal(ut.check_data(A), want), "check_data changed an array")
    ctx.require(np.array_equal(A, want), "the array was modified")
    for bad in (want.tolist(), None, "x", {"a": 1}, F.iloc[:, 0], 3.5, tuple(want.tolist())):
        ctx.raises(Exception, lambda: ut.check_data(bad), "data given as %s" % type(bad).__name__)
    ctx.nontrivial(case["rows"] > 0)


@st.composite
def large_networks(draw):
    n, directed, kind = draw(st.sampled_from([8, 11, 15])), draw(st.booleans()), draw(st.sampled_from([k for k in hg.LABEL_KINDS if k != "odd"]))
    r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    pos = r.permutation(n)
    keep = draw(st.sampled_from(["dag", "any", "dag"]))
    pairs = [(i, j) for i in range(n) for j in range(n) if (i != j if directed else i < j) and (not directed or keep == "any" or pos[i] < pos[j])]
    edges = [[i, j, [None, 1.0, -.5, 2.0, 3][r.randint(5)]] for i, j in pairs if r.rand() < (.12 if keep == "any" else .35)]
    if directed and keep == "dag" and draw(st.booleans()):  # one edge that may close a long cycle
        i, j = int(np.argmax(pos)), int(np.argmin(pos))
        edges.append([i, j, 1.0])
    return {"n": n, "labels": kind, "order": r.permutation(n).tolist(), "directed": directed, "edges": edges, "type": draw(st.sampled_from(["float", "int", "bool", "float32"]))}


SUITE.sub("large_networks", strategy=large_networks(), quick=200, thorough=5000, shards=4)(graph_conversions)
