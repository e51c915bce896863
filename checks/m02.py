"""M02: weighted-matrix performance against explicit entry counting."""
import numpy as np
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables as guises
from harness.core import Suite

SUITE = Suite("M02", "random weighted estimates (with exact zeros, values on and either side of the threshold, negative and diagonal entries, "
              "square of size 1-12, float or integer) against random binary truths (with diagonal), thresholds >= 0, and the same as graph "
              "objects; oracle: entry counting; non-trivial: the thresholded estimate and the truth share an entry and differ",
              ["graph objects stand for their [cause, effect] 0/1 matrix"])


def expected(fitted, real, thr, drop):
    n = len(real)
    tp = fp = fn = 0
    for i in range(n):
        for j in range(n):
            if drop and i == j:
                continue
            p, t = abs(fitted[i][j]) > thr, real[i][j] == 1
            tp += p and t
            fp += p and not t
            fn += t and not p
    pr = tp / (tp + fp) if tp + fp else 0.0
    rc = tp / (tp + fn) if tp + fn else 0.0
    return {"F1": 2 * pr * rc / (pr + rc) if pr + rc else 0.0, "Precision": pr, "Recall": rc, "threshold": thr}, tp, fp + fn


@st.composite
def matrices(draw):
    n = draw(st.sampled_from([3, 4, 2, 6, 1, 9, 12]))
    thr = draw(st.sampled_from([0, 0.3, 0.05, 1, 2.5]))
    val = st.sampled_from([0.0, thr, -thr, thr * 1.01 + .01, -thr * 1.01 - .01, thr / 2, 3.0, -3.0, 0.0])
    return {"n": n, "thr": thr, "fitted": [[draw(val) for _ in range(n)] for _ in range(n)], "real": [[draw(st.integers(0, 1)) for _ in range(n)] for _ in range(n)],
            "drop": draw(st.sampled_from([None, True, False])), "kind": draw(st.sampled_from(["float", "int"])), "order": draw(st.sampled_from(["C", "F"]))}


@SUITE.sub("matrices", strategy=matrices(), quick=1600, thorough=60000, shards=8)
def perf(case, ctx):
    from cdmir.utils.metrics.graph_evaluation import get_performance
    f = np.array(case["fitted"], dtype=float, order=case["order"])
    if case["kind"] == "int":
        f = np.round(f).astype(int)
    r = np.array(case["real"], dtype=int if case["kind"] == "int" else float, order=case["order"])
    f, r = guises.array(f), guises.array(r, salt=1)
    kf, kr = f.copy(), r.copy()
    kw = {} if case["drop"] is None else {"drop_diag": case["drop"]}
    if case["thr"] or case["drop"]:
        kw["threshold"] = case["thr"]
    want, tp, wrong = expected(f.tolist(), r.tolist(), case["thr"], case["drop"] is not False)
    got = get_performance(f, r, **kw)
    ctx.require(len(got) == 1, "result has %d rows", len(got))
    for k in want:
        ctx.close(float(got[k].iloc[0]), want[k], "%s of %r against %r (threshold %r, drop_diag %r)" % (k, f.tolist(), r.tolist(), case["thr"], case["drop"]))
    ctx.require(np.array_equal(f, kf) and np.array_equal(r, kr) and f.dtype == kf.dtype, "an input was modified")
    ctx.nontrivial(tp and wrong)
    ctx.label("threshold %s" % case["thr"])
    ctx.label("drop %s" % case["drop"])


@st.composite
def graph_pairs(draw):
    a = draw(hg.named_dags(min_n=2, max_n=draw(st.sampled_from([6, 11]))))
    b = draw(hg.dags(min_n=a["n"], max_n=a["n"]))
    return {"a": a, "b": {**a, "edges": b["edges"]}, "mix": draw(st.sampled_from(["gg", "gm", "mg"])), "seed": draw(st.integers(0, 1000)),
            "thr": draw(st.sampled_from([0, .3]))}


@SUITE.sub("graphs", strategy=graph_pairs(), quick=600, thorough=10000, shards=4)
def graphs(case, ctx):
    from cdmir.utils.metrics.graph_evaluation import get_performance
    n = case["a"]["n"]
    a, b = hg.build_dag(case["a"]), hg.build_dag(case["b"])
    nodes = list(a.nodes)
    ctx.require(list(b.nodes) == nodes, "harness: node order")

    def matrix(g):
        M = np.zeros((n, n), dtype=int)
        for i, u in enumerate(nodes):
            for j, v in enumerate(nodes):
                if i != j and g.is_fully_directed(u, v):
                    M[i, j] = 1
        return M
    A, B = matrix(a), matrix(b)
    snap = hg.snapshot(a), hg.snapshot(b)
    fitted = a if case["mix"][0] == "g" else A * np.random.RandomState(case["seed"]).uniform(.31, 2, (n, n))
    real = b if case["mix"][1] == "g" else B
    want, tp, wrong = expected(A.tolist(), B.tolist(), 0, True)
    got = get_performance(fitted, real, threshold=case["thr"])
    for k in ("F1", "Precision", "Recall"):
        ctx.close(float(got[k].iloc[0]), want[k], "%s of graphs %r against %r (%s)" % (k, case["a"]["edges"], case["b"]["edges"], case["mix"]))
    ctx.require((hg.snapshot(a), hg.snapshot(b)) == snap, "a graph was modified")
    ctx.nontrivial(tp and wrong)
    ctx.label(case["mix"])
