"""I01: Fisher-Z equals the partial-correlation test."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Reject, Suite

SUITE = Suite("I01", "random tables of 4-300 rows and 2-7 columns, wide ones of 10-20 columns, up to 18 conditions and 3000 rows (correlated Gaussian, integer, heavily scaled and shifted, nearly collinear), random pair and "
              "conditioning set down to one degree of freedom; correlation matrices of condition number up to 1e6; oracle: residual "
              "correlation after least squares, and erfc; non-trivial: the conditioning set is not empty and changes the coefficient",
              ["tables whose correlation matrix has a condition number above 1e6 are skipped"])


@st.composite
def cases(draw):
    d = draw(st.sampled_from([3, 4, 5, 6, 7, 2]))
    perm = list(draw(st.permutations(range(d))))
    k = draw(st.sampled_from(list(range(d - 1))[::-1]))
    lo = k + 3
    return {"d": d, "x": perm[0], "y": perm[1], "z": perm[2:2 + k], "seed": draw(st.integers(0, 10 ** 6)),
            "rows": max(draw(st.one_of(st.integers(lo + 1, lo + 4), st.integers(lo, 60), st.sampled_from([100, 300]))), lo),
            "kind": draw(st.sampled_from(["gauss", "int", "scaled", "weak", "strong", "collinear"])),
            "gap": draw(st.sampled_from([0.1, 0.03, 0.01, 0.003, 0.002])),
            "form": draw(st.sampled_from(["list", "tuple", "array", "set", "iter"])),
            "labels": draw(st.sampled_from(["int", "rev", "str", "tuple", "mixed", "float", "odd"])),
            "frame": draw(st.booleans())}


def table(case):
    rng = np.random.RandomState(case["seed"])
    n, d = case["rows"], case["d"]
    X = rng.randn(n, d)
    mix = np.eye(d) + {"weak": 0.1, "strong": 1.5}.get(case["kind"], 0.6) * np.triu(rng.randn(d, d), 1)
    X = X @ mix
    if case["kind"] == "collinear":  # partial correlations up to 1 - 2e-6
        X[:, case["y"]] = X[:, case["x"]] * rng.choice([-1, 1]) + case.get("gap", 0.1) * X[:, case["y"]]
    if case["kind"] == "int":
        X = np.round(X * 3).astype(int)
    if case["kind"] == "scaled":
        X = X * 10.0 ** rng.randint(-4, 5, d) + rng.randint(-5, 6, d)
    return X


def partial(X, x, y, z):
    n = len(X)
    X = np.asarray(X, dtype=float)
    X = (X - X.mean(0)) / X.std(0)
    A = np.hstack([np.ones((n, 1)), X[:, z]])
    rx = X[:, x] - A @ np.linalg.lstsq(A, X[:, x], rcond=None)[0]
    ry = X[:, y] - A @ np.linalg.lstsq(A, X[:, y], rcond=None)[0]
    return float(rx @ ry / math.sqrt((rx @ rx) * (ry @ ry)))


def pvalue(r, n, k):
    a = min(abs(r), 0.9999999)
    z = 0.5 * math.log((1 + a) / (1 - a))
    return math.erfc(math.sqrt(n - k - 3) * z / math.sqrt(2))


def wrap(z, form):
    return {"list": list(z), "tuple": tuple(z), "array": np.array(z, dtype=int), "set": set(z), "iter": iter(list(z))}[form]


@SUITE.sub("formula", strategy=cases(), quick=4000, thorough=100000, shards=8)
def formula(case, ctx):
    from cdmir.utils.independence import FisherZ
    from cdmir.utils.independence.functional import fisherz, fisherz_from_corr
    X = table(case)
    if X.std(0).min() == 0:
        raise Reject()
    x, y, z = case["x"], case["y"], case["z"]
    n, k = len(X), len(z)
    corr = np.corrcoef(X.astype(float), rowvar=False)
    cond = np.linalg.cond(corr[np.ix_([x, y] + z, [x, y] + z)])
    if cond > 1e6:
        raise Reject()
    r = partial(X, x, y, z)
    p = pvalue(r, n, k)
    keep = X.copy()
    names = [hg.label(case["labels"], i) for i in range(case["d"])]

    def judge(out, what):
        ctx.require(len(out) == 2, "%s returned %r", what, out)
        ctx.close(out[1], r, "%s: partial correlation of %d,%d given %r" % (what, x, y, z), rtol=1e-6, atol=1e-7)
        ctx.require(0 <= out[0] <= 1, "%s: p-value %r", what, out[0])
        slack = 1e-13 * cond * math.sqrt(n) / max(1e-7, 1 - abs(r))
        ctx.close(out[0], p, "%s: p-value of %d,%d given %r (n=%d)" % (what, x, y, z, n), rtol=1e-5, atol=1e-9 + min(slack, 1e-4))

    cols = X.astype(float)
    if z:
        judge(fisherz(cols[:, x], cols[:, y], cols[:, z]), "fisherz of columns")
        judge(fisherz(cols[:, y], cols[:, x], cols[:, z[::-1]]), "fisherz with the pair swapped")
        judge(fisherz(cols[:, [x]], cols[:, [y]], cols[:, z]), "fisherz of one-column matrices")
        if k == 1:
            judge(fisherz(cols[:, x], cols[:, y], cols[:, z[0]]), "fisherz with a one-dimensional condition")
    else:
        judge(fisherz(cols[:, x], cols[:, y]), "fisherz without condition")
        judge(fisherz_from_corr(corr, n, x, y), "fisherz_from_corr without condition")
    cc = corr.copy()
    judge(fisherz_from_corr(corr, n, x, y, wrap(z, case["form"])), "fisherz_from_corr")
    judge(fisherz_from_corr(corr, n, y, x, list(z)[::-1]), "fisherz_from_corr with the pair swapped")
    ctx.require(np.array_equal(corr, cc), "fisherz_from_corr modified the correlation matrix")
    if case["frame"]:
        data = tables.frame(X)
        data.columns = pd.Index(names, tupleize_cols=False)
        t = FisherZ(data)
    else:
        t = FisherZ(X, names) if case["labels"] != "int" else FisherZ(X)
    L = lambda i: names[i]
    judge(t.test(L(x), L(y), wrap([], "list") if not z else [L(i) for i in z]), "FisherZ.test by name")
    judge(t.test(L(y), L(x), tuple(L(i) for i in z[::-1])), "FisherZ.test with the pair swapped")
    judge(t.itest(x, y, wrap(z, case["form"])), "FisherZ.itest")
    judge(t.cal_stats(x, y, wrap(z, case["form"])), "FisherZ.cal_stats")
    if not z:
        judge(t.test(L(x), L(y)), "FisherZ.test without condition")
        judge(t.itest(y, x), "FisherZ.itest without condition")
        judge(t.cal_stats(x, y), "FisherZ.cal_stats without condition")
    ctx.require(np.array_equal(X, keep), "the data were modified")
    ctx.nontrivial(bool(z) and abs(partial(X, x, y, []) - r) > 1e-3)
    ctx.label("|z|=%d" % k)
    ctx.label("no degrees of freedom left", n - k - 3 == 0)
    ctx.label("p<.05", p < .05)


@st.composite
def corrs(draw):
    d = draw(st.sampled_from([3, 4, 5, 6, 2]))
    perm = list(draw(st.permutations(range(d))))
    return {"d": d, "perm": perm, "k": draw(st.sampled_from(list(range(d - 1))[::-1])), "n": draw(st.sampled_from([10, 50, 1000, 10 ** 6])),
            "seed": draw(st.integers(0, 10 ** 6)), "spread": draw(st.sampled_from([0, 1, 3, 5]))}


@SUITE.sub("from_matrix", strategy=corrs(), quick=2000, thorough=50000, shards=2)
def from_matrix(case, ctx):
    """Exact correlation matrices: cofactor oracle, symmetry, order independence, monotonicity in n."""
    from cdmir.utils.independence.functional import fisherz_from_corr
    rng = np.random.RandomState(case["seed"])
    d = case["d"]
    Q, _ = np.linalg.qr(rng.randn(d, d))
    S = Q @ np.diag(10.0 ** -rng.uniform(0, case["spread"], d)) @ Q.T
    C = S / np.sqrt(np.outer(np.diag(S), np.diag(S)))
    x, y, z = case["perm"][0], case["perm"][1], case["perm"][2:2 + case["k"]]
    sub = C[np.ix_([x, y] + z, [x, y] + z)]

    def minor(i, j):
        return np.linalg.det(np.delete(np.delete(sub, i, 0), j, 1))
    r = minor(0, 1) / math.sqrt(minor(0, 0) * minor(1, 1))  # = -cofactor(0,1)/sqrt(cofactors)
    p, s = fisherz_from_corr(C, case["n"], x, y, z)
    ctx.close(s, r, "partial correlation", rtol=1e-4, atol=1e-5)
    ctx.close(p, pvalue(s, case["n"], len(z)), "p-value of the returned coefficient", rtol=1e-6, atol=1e-12)
    p2, s2 = fisherz_from_corr(C, case["n"], y, x, z[::-1])
    ctx.close([p2, s2], [p, s], "swapped pair and reversed condition", rtol=1e-4, atol=1e-6)
    bigger = fisherz_from_corr(C, case["n"] * 4, x, y, z)[0]
    ctx.require(bigger <= p + 1e-12, "more samples give a larger p-value (%r > %r)", bigger, p)
    ctx.nontrivial(len(z) > 0 and abs(r) > 0.01)


@st.composite
def wide(draw):
    d = draw(st.sampled_from([10, 12, 15, 20]))
    perm = np.random.RandomState(draw(st.integers(0, 10 ** 6))).permutation(d).tolist()
    k = draw(st.sampled_from([d - 2, 6, 8, 7, 9, 5])) if d > 10 else draw(st.sampled_from([8, 6, 7, 5]))
    return {"d": d, "x": perm[0], "y": perm[1], "z": perm[2:2 + k], "seed": draw(st.integers(0, 10 ** 6)),
            "rows": draw(st.sampled_from([k + 3, k + 5, 60, 250, 1000, 3000])), "kind": draw(st.sampled_from(["gauss", "weak", "int", "scaled"])),
            "form": draw(st.sampled_from(["list", "tuple", "array", "set", "iter"])), "labels": draw(st.sampled_from(["str", "rev", "mixed", "int"])), "frame": draw(st.booleans())}


SUITE.sub("wide", strategy=wide(), quick=600, thorough=15000, shards=8)(formula)
