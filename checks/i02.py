"""I02: cached independence tests answer as if freshly computed."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite

SUITE = Suite("I02", "histories of 2-25 queries on one test object (Fisher-Z, d-separation, kernel test and a recording test whose answer is "
              "unique to each pair and set) over 3-14 variables, by name and by index, in every pair order, conditioning order and "
              "container including generators, sets, dict views and arrays, with repeats and near-repeats (digit-wise similar ids); "
              "oracle: a fresh object asked that one query with a list; non-trivial: some query repeats an earlier one in another form")


def glue(z, x, y, d):
    """A different set whose sorted ids print as the same digits, e.g. {0, 12} and {0, 1, 2}; z when there is none."""
    for v in z:
        if v > 10:
            w = [u for u in z if u != v] + [v // 10, v % 10]
            if len(set(w)) == len(w) and x not in w and y not in w:
                return w
    for a in z:
        for b in z:
            v = 10 * a + b
            if a and a != b and v < d and v not in z and v not in (x, y):
                return [u for u in z if u not in (a, b)] + [v]
    return z


@st.composite
def histories(draw, max_d=14, max_len=25, max_z=5):
    d = draw(st.sampled_from([3, 4, 5, 12, 13, max_d]))
    d = min(d, max_d)
    qs = []
    for _ in range(draw(st.integers(2, max_len))):
        mode = draw(st.sampled_from(["new", "again", "again", "near"])) if qs else "new"
        if mode == "new":
            perm = list(draw(st.permutations(range(d))))
            k = min(draw(st.sampled_from([0, 1, 2, 2, 3, 4])), d - 2, max_z)
            x, y, z = perm[0], perm[1], perm[2:2 + k]
        else:
            q = qs[draw(st.integers(0, len(qs) - 1))]
            x, y, z = q["x"], q["y"], list(draw(st.permutations(q["z"])))
            if draw(st.booleans()):
                x, y = y, x
            if mode == "near":
                what = draw(st.sampled_from(["drop", "shift", "move", "glue", "glue"]))
                if what == "drop" and z:
                    z = z[1:]
                elif what == "shift" and z:
                    c = (z[0] + 10 if z[0] + 10 < d else z[0] + 1) % d
                    if c not in (x, y) and c not in z:
                        z = [c] + z[1:]
                elif what == "move" and z:
                    x, z = z[0], [x] + z[1:]
                elif what == "glue" and d > 10:
                    z = glue(z, x, y, d)
        qs.append({"x": x, "y": y, "z": z, "by": draw(st.sampled_from(["name", "id"])),
                   "form": draw(st.sampled_from(["list", "tuple", "set", "iter", "gen", "array", "keys", "none"])),
                   "bad": draw(st.sampled_from([None, None, None, "name", "condition", "id"]))})
    return {"d": d, "queries": qs, "seed": draw(st.integers(0, 10 ** 6)),
            "labels": draw(st.sampled_from(["int", "rev", "str", "tuple", "mixed", "float", "odd"]))}


def wrap(z, form, ids):
    if form == "none":
        return None if not z else list(z)
    if form == "array" and not ids:
        form = "tuple"
    return {"list": lambda: list(z), "tuple": lambda: tuple(z), "set": lambda: set(z), "iter": lambda: iter(list(z)),
            "gen": lambda: (v for v in list(z)), "array": lambda: np.array(z, dtype=int), "keys": lambda: {v: 0 for v in z}.keys()}[form]()


def ask(t, q, L):
    if q["by"] == "name":
        return t.test(L(q["x"]), L(q["y"]), wrap([L(v) for v in q["z"]], q["form"], False))
    return t.itest(q["x"], q["y"], wrap(q["z"], q["form"], True))


def repeats(qs):
    seen, again = {}, False
    for q in qs:
        key = (frozenset((q["x"], q["y"])), frozenset(q["z"]))
        again = again or (key in seen and seen[key] != (q["x"], q["z"], q["form"], q["by"]))
        seen[key] = (q["x"], q["z"], q["form"], q["by"])
    return again


def refuses(f):
    try:
        f()
    except Exception:
        return True
    return False


def play(case, ctx, fresh, tol, bad=False):
    L = lambda i: hg.label(case["labels"], i)
    t = fresh()
    for k, q in enumerate(case["queries"]):
        if q.get("bad") and bad:  # what a fresh object refuses is refused however often it is asked, and leaves no trace
            n = case["d"] + 1 + q["x"]
            wrong = {"name": lambda o: o.test(L(q["x"]), "no such variable", [L(v) for v in q["z"]]),
                     "condition": lambda o: o.itest(q["x"], q["y"], list(q["z"]) + [n]), "id": lambda o: o.itest(n, q["y"], list(q["z"]))}[q["bad"]]
            if refuses(lambda: wrong(fresh())):
                ctx.require(refuses(lambda: wrong(t)) and refuses(lambda: wrong(t)), "query %d about a variable that does not exist was answered", k)
        got = ask(t, q, L)
        want = fresh().test(L(q["x"]), L(q["y"]), [L(v) for v in q["z"]])
        ctx.close(np.ravel(got), np.ravel(want), "query %d: %r" % (k, q), rtol=tol, atol=tol)
    ctx.nontrivial(repeats(case["queries"]))


@SUITE.sub("unique_answers", strategy=histories(), quick=2500, thorough=60000, shards=4)
def unique(case, ctx):
    """A test whose answer encodes exactly which query it was: any mix-up of cache entries shows."""
    from cdmir.utils.independence import ConditionalIndependentTest

    class Unique(ConditionalIndependentTest):
        def cal_stats(self, x, y, z=None):
            z = sorted(z) if z is not None else []
            code = 0.0
            for v in sorted((x, y)):
                code = code * 16 + v + 1
            return code, float(sum(4 ** v for v in z))

    names = [hg.label(case["labels"], i) for i in range(case["d"])]
    data = np.arange(3.0 * case["d"]).reshape(3, case["d"])
    play(case, ctx, lambda: Unique(data, names), 0)
    ctx.label("two-digit ids", case["d"] > 10)


@SUITE.sub("fisherz", strategy=histories(), quick=600, thorough=15000, shards=4)
def fisherz(case, ctx):
    from cdmir.utils.independence import FisherZ
    rng = np.random.RandomState(case["seed"])
    X = rng.randn(40, case["d"]) @ (np.eye(case["d"]) + .4 * np.triu(rng.randn(case["d"], case["d"]), 1))
    names = [hg.label(case["labels"], i) for i in range(case["d"])]
    play(case, ctx, lambda: FisherZ(X, names), 1e-8, bad=True)


@SUITE.sub("dsep", strategy=histories(max_d=5), quick=600, thorough=15000, shards=2)
def dsep(case, ctx):
    from cdmir.utils.independence import Dsep
    rng = np.random.RandomState(case["seed"])
    n = case["d"]
    perm = rng.permutation(n)
    edges = [[int(perm[i]), int(perm[j])] for i in range(n) for j in range(i + 1, n) if rng.rand() < .4]
    g = hg.build_dag({"n": n, "edges": edges, "labels": case["labels"], "order": list(range(n))})
    names = [hg.label(case["labels"], i) for i in range(n)]
    play(case, ctx, lambda: Dsep(np.zeros((2, n)), names, true_graph=g), 0)
    t = Dsep(np.zeros((2, n)), names, true_graph=g)
    L = lambda i: hg.label(case["labels"], i)
    for q in case["queries"]:
        p = ask(t, q, L)[0]
        ctx.require(p == float(hg.d_separated(n, [tuple(e) for e in edges], q["x"], q["y"], set(q["z"]))),
                    "d-separation test of %r says %r", q, p)


@st.composite
def kernel_histories(draw):
    h = draw(histories(max_d=12, max_len=6, max_z=2))
    for q in h["queries"]:
        q["form"] = draw(st.sampled_from(["scalar", "list", "array", "none"]))
        q["xform"] = draw(st.sampled_from(["scalar", "list", "array"]))
        q["joint"] = draw(st.booleans())
    h["frame"] = draw(st.booleans())
    h["labels"] = "str"
    return h


@SUITE.sub("kernel_test", strategy=kernel_histories(), quick=250, thorough=5000, shards=4)
def kernel_test(case, ctx):
    from cdmir.utils.independence import KCI
    from cdmir.utils.kernel import GaussianKernel
    rng = np.random.RandomState(case["seed"])
    d = case["d"]
    X = rng.randn(18, d) @ (np.eye(d) + .7 * np.triu(rng.randn(d, d), 1))
    data = tables.frame(X, ["v%d" % (17 * i % 23) for i in range(d)]) if case["frame"] else tables.array(X)
    L = lambda i: "v%d" % (17 * i % 23) if case["frame"] else "x%d" % i

    def fresh():
        return KCI(data, GaussianKernel(), GaussianKernel(), GaussianKernel(0.5))

    def form(ids, how, by):
        v = [L(i) for i in ids] if by == "name" and how != "array" else list(ids)
        return v[0] if how == "scalar" and len(v) == 1 else np.array(ids, dtype=int) if how == "array" else v

    t, shared = fresh(), KCI(data, kernel_z=GaussianKernel(0.5))
    for k, q in enumerate(case["queries"]):
        x = [q["x"]]
        z = list(q["z"])
        if q["joint"] and z:
            x, z = x + z[:1], z[1:]
        zz = None if not z and q["form"] == "none" else form(z, "list" if q["form"] == "none" else q["form"], q["by"])
        args = (form(x, q["xform"], q["by"]), form([q["y"]], q["xform"], q["by"])) + (() if zz is None and k % 2 else (zz,))
        want = fresh()(list(x), [q["y"]], list(z) or None)
        for obj, name in ((t, "own kernels"), (shared, "default kernels")):
            got = obj(*args)
            ctx.close(got, want, "query %d %r (%s)" % (k, q, name), rtol=1e-9, atol=1e-12)
        if len(z) > 1:
            ctx.close(t(list(x), [q["y"]], z[::-1]), want, "query %d with the condition reversed" % k, rtol=1e-6, atol=1e-9)
    ctx.nontrivial(repeats(case["queries"]))
