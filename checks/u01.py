"""U01: arrays, dataframes and explicit names are the same data."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite, same

SUITE = Suite("U01", "tables of 3-40 rows and 2-6 columns, random hashable names of six kinds and random extra arguments, handed to the adapter "
              "decorator, to test objects and to the PC algorithm as array, dataframe and either with explicit names given as list, "
              "tuple, positionally or by keyword; wrong name counts (including empty) and unsupported containers; oracle: the content and "
              "names expected from the definition, and equality of all results across forms; non-trivial: names differ from positions",
              ["the container rejection list: list, tuple, nested list, Series, dict, None, str, memoryview"])


@st.composite
def cases(draw):
    d = draw(st.integers(2, 6))
    return {"d": d, "rows": draw(st.sampled_from([12, 40, 25])), "seed": draw(st.integers(0, 10 ** 6)),
            "labels": draw(st.sampled_from(["int", "rev", "str", "tuple", "mixed", "float", "odd"])),
            "collabels": draw(st.sampled_from(["str", "rev", "int", "float"])),
            "int": draw(st.booleans()), "container": draw(st.sampled_from(["list", "tuple", "list"])),
            "extra": draw(st.integers(-3, 3)), "wrong": draw(st.sampled_from([-2, -1, 1, 2, "empty"])), "bad": draw(st.integers(0, 7))}


def table(case):
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(case["rows"], case["d"]) @ (np.eye(case["d"]) + .8 * np.triu(rng.randn(case["d"], case["d"]), 1))
    return np.round(X * 4).astype(int) if case["int"] else X


def frame(X, names):
    df = tables.frame(X, salt=repr(names))
    df.columns = pd.Index(names, tupleize_cols=False)
    return df


def forms(case, X):
    """(what, data, names argument or None, expected names, positional)"""
    d = case["d"]
    names = [hg.label(case["labels"], i) for i in range(d)]
    cols = [hg.label(case["collabels"], i) for i in range(d)]
    arg = tuple(names) if case["container"] == "tuple" else list(names)
    return [("array", X, None, list(range(d)), False), ("dataframe", frame(X, cols), None, cols, False),
            ("array with names", X, arg, names, False), ("array with names, positionally", X, arg, names, True),
            ("dataframe with names", frame(X, cols), arg, names, False), ("dataframe with names, positionally", frame(X, cols), arg, names, True),
            ("dataframe with its own names moved", frame(X, names), arg[1:] + arg[:1], names[1:] + names[:1], case["d"] % 2 == 0),
            ("dataframe with its own names moved back", frame(X, names), arg[-1:] + arg[:-1], names[-1:] + names[:-1], case["d"] % 2 == 1),
            ("dataframe, None positionally", frame(X, cols), None, cols, True), ("array, None positionally", X, None, list(range(d)), True)]


BAD = [lambda X: X.tolist(), lambda X: tuple(map(tuple, X)), lambda X: pd.Series(X[:, 0]), lambda X: {"a": X[:, 0]}, lambda X: None,
       lambda X: "data", lambda X: memoryview(np.ascontiguousarray(X)), lambda X: [[1.0, 2.0]]]


@SUITE.sub("decorator", strategy=cases(), quick=1500, thorough=30000, shards=4)
def decorator(case, ctx):
    from cdmir.utils import data_form_converter_for_class_method

    class Probe:
        @data_form_converter_for_class_method
        def run(self, data, var_names=None, extra=5, *rest, **more):
            return self, data, var_names, extra, rest, more

    X = table(case)
    p = Probe()
    e = case["extra"]
    for what, data, arg, names, positional in forms(case, X):
        keep = data.copy()
        if positional:
            calls = [(p.run(data, arg), 5, (), {}), (p.run(data, arg, e), e, (), {}), (p.run(data, arg, e, 7, k=8), e, (7,), {"k": 8})]
        else:
            kw = {} if arg is None else {"var_names": arg}
            calls = [(p.run(data, **kw), 5, (), {}), (p.run(data=data, extra=e, **kw), e, (), {}), (p.run(data, extra=e, k=9, **kw), e, (), {"k": 9})]
        for (me, got, nm, ex, rest, more), we, wr, wm in calls:
            ctx.require(me is p and ex == we and rest == wr and more == wm, "%s: arguments arrive as %r", what, (ex, rest, more))
            ctx.require(type(got) is np.ndarray, "%s: data arrive as %s", what, type(got).__name__)
            ctx.require(got.shape == X.shape and np.array_equal(got, X), "%s: data arrive changed", what)
            ctx.require(list(nm) == names, "%s: names %r, expected %r", what, nm, names)
        same = data.equals(keep) and list(data.columns) == list(keep.columns) if isinstance(data, pd.DataFrame) else np.array_equal(data, keep)
        ctx.require(same, "%s: the input was modified", what)
    reject(case, ctx, X, lambda data, names: p.run(data, names), lambda data, names: p.run(data=data, var_names=names))
    ctx.nontrivial(case["labels"] != "int")
    ctx.label(case["labels"])


def reject(case, ctx, X, *calls):
    d = case["d"]
    k = 0 if case["wrong"] == "empty" else max(0, d + case["wrong"])
    names = ["n%d" % i for i in range(k)]
    for call in calls:
        ctx.raises(Exception, lambda: call(X, names), "%d names for %d columns" % (k, d))
        ctx.raises(Exception, lambda: call(frame(X, ["c%d" % i for i in range(d)]), names), "%d names for a dataframe of %d columns" % (k, d))
        bad = BAD[case["bad"]](X)
        ctx.raises(Exception, lambda: call(bad, None), "data of type %s" % type(bad).__name__)
        ctx.raises(Exception, lambda: call(bad, ["n%d" % i for i in range(d)]), "data of type %s with names" % type(bad).__name__)


@SUITE.sub("test_objects", strategy=cases(), quick=700, thorough=15000, shards=4)
def objects(case, ctx):
    from cdmir.utils.independence import ConditionalIndependentTest, Dsep, FisherZ

    class Columns(ConditionalIndependentTest):
        """Addresses its data by column position."""
        def cal_stats(self, x, y, z=None):
            return float(self._data[0, x]), float(sum(self._data[:, y]) + sum(self._data[-1, k] for k in (z or [])))

    X = table(case)
    d = case["d"]
    rng = np.random.RandomState(case["seed"] + 1)
    queries = []
    for _ in range(4):
        p = [int(v) for v in rng.permutation(d)]
        queries.append((p[0], p[1], p[2:2 + rng.randint(0, d - 1)]))
    edges = [[i, j] for i in range(d) for j in range(i + 1, d) if rng.rand() < .5]
    base = None
    for what, data, arg, names, positional in forms(case, X):
        def make(cls, *more):
            if positional:
                return cls(data, arg, *more)
            return cls(data, **({} if arg is None else {"var_names": arg}), **({"true_graph": more[0]} if more else {}))
        from cdmir.graph import DiGraph
        from cdmir.graph.edge import Edge
        g = DiGraph(names)
        for a, b in edges:
            g.add_edge(Edge(names[a], names[b]))
        out = []
        for t in (make(FisherZ), make(Columns), make(Dsep, g)):
            ctx.require(list(t.var_names) == names, "%s: var_names %r, expected %r", what, t.var_names, names)
            for x, y, z in queries:
                by_name = t.test(names[x], names[y], [names[k] for k in z])
                by_id = t.itest(x, y, z)
                ctx.require(same(by_name, by_id), "%s: by name %r, by index %r", what, by_name, by_id)
                out.append([float(v) for v in by_name])
        if base is None:
            base = out
        ctx.require(same(out, base), "%s: answers %r, those of the plain array %r", what, out, base)
    reject(case, ctx, X, lambda data, names: FisherZ(data, names), lambda data, names: FisherZ(data, var_names=names))
    ctx.nontrivial(case["labels"] != "int")


@SUITE.sub("pc", strategy=cases(), quick=400, thorough=8000, shards=4)
def pc(case, ctx):
    from cdmir.discovery.constraint import PC
    from cdmir.utils.independence import FisherZ
    X = table(case)
    d = case["d"]

    class Options(FisherZ):
        """Takes further arguments of its own."""
        seen = []

        def __init__(self, data, var_names=None, a=1, b=2):
            super().__init__(data, var_names=var_names)
            Options.seen.append((a, b))

    base = None
    for what, data, arg, names, positional in forms(case, X):
        r = PC(alpha=0.1)
        Options.seen.clear()
        if positional:
            r.fit(data, arg, Options, case["extra"], b=9)
        else:
            r.fit(data, indep_cls=Options, a=case["extra"], b=9, **({} if arg is None else {"var_names": arg}))
        ctx.require(Options.seen == [(case["extra"], 9)], "%s: the test got the options %r", what, Options.seen)
        ctx.require(list(r.causal_graph.nodes) == names == list(r.skeleton.nodes), "%s: nodes %r, expected %r", what, list(r.causal_graph.nodes), names)
        out = (np.asarray(r.causal_graph.to_numpy()).tolist(), np.asarray(r.skeleton.to_numpy()).tolist(),
               [sorted(names.index(v) for v in r.sep_set[(names[i], names[j])]) for i in range(d) for j in range(d) if i != j])
        base = base or out
        ctx.require(out == base, "%s: result %r, that of the plain array %r", what, out, base)
    reject(case, ctx, X, lambda data, names: PC().fit(data, names, FisherZ), lambda data, names: PC().fit(data, var_names=names, indep_cls=FisherZ))
    ctx.raises(Exception, lambda: PC().fit(X, indep_cls=dict), "a test class that is no independence test")
    ctx.nontrivial(case["labels"] != "int")
