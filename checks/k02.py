"""K02: centring equals its matrix definition."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Reject, Suite

SUITE = Suite("K02", "symmetric matrices of size 1-40, some of 90-1030 (kernel matrices of all kinds, low rank, constant, arbitrary symmetric, integer valued) "
              "and regularisations from 1e-4 to 10; oracle: HKH and (RKR, R) by explicit matrix products and a linear solve; non-trivial: "
              "the matrix is not already centred and has at least two rows")


@st.composite
def cases(draw):
    return {"n": draw(st.one_of(st.integers(1, 6), st.sampled_from([10, 25, 40]))), "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(["gauss", "gram", "rank1", "constant", "sym", "int", "zero"])),
            "zkind": draw(st.sampled_from(["gauss", "gram", "rank1", "constant", "zero"])),
            "eps": draw(st.sampled_from([1e-4, 1e-3, 0.1, 1.0, 10.0])),
            "layout": draw(st.sampled_from(["C", "F"])), "via": draw(st.sampled_from(["class", "base", "instance"]))}


def matrix(kind, n, rng):
    x = rng.randn(n, 3)
    if kind == "gauss":
        return np.exp(-.5 * ((x[:, None] - x[None]) ** 2).sum(-1))
    if kind == "gram":
        return x @ x.T
    if kind == "rank1":
        return np.outer(x[:, 0], x[:, 0])
    if kind == "constant":
        return np.full((n, n), 2.5)
    if kind == "zero":
        return np.zeros((n, n))
    if kind == "int":
        a = rng.randint(-9, 10, (n, n))
        return a + a.T
    a = rng.randn(n, n) * 10
    return a + a.T


def target(case):
    from cdmir.utils.kernel import BaseKernel, GaussianKernel, LinearKernel
    return {"class": GaussianKernel, "base": BaseKernel, "instance": LinearKernel()}[case["via"]]


@SUITE.sub("centring", strategy=cases(), quick=1500, thorough=40000, shards=4)
def centring(case, ctx):
    n = case["n"]
    K = np.array(matrix(case["kind"], n, np.random.RandomState(case["seed"])), order=case["layout"])
    keep = K.copy()
    got = np.asarray(target(case).center_kernel_matrix(K), dtype=float)
    ctx.require(np.array_equal(K, keep), "the input was modified")
    H = np.eye(n) - np.ones((n, n)) / n
    want = H @ keep @ H
    ctx.close(got, want, "centred matrix", rtol=1e-9, atol=1e-9)
    ctx.close(got.sum(0), np.zeros(n), "column sums", atol=1e-8)
    ctx.close(got.sum(1), np.zeros(n), "row sums", atol=1e-8)
    ctx.close(target(case).center_kernel_matrix(got), got, "centring twice", rtol=1e-9, atol=1e-9)
    ctx.nontrivial(n > 1 and np.abs(want - keep).max() > 1e-6)
    ctx.label(case["kind"])


@SUITE.sub("regression", strategy=cases(), quick=1500, thorough=40000, shards=4)
def regression(case, ctx):
    n, eps = case["n"], case["eps"]
    rng = np.random.RandomState(case["seed"])
    K = np.array(matrix(case["kind"], n, rng), order=case["layout"])
    Kz = np.array(matrix(case["zkind"], n, rng), order=case["layout"])
    k1, k2 = K.copy(), Kz.copy()
    out = target(case).center_kernel_matrix_regression(K, Kz, eps)
    ctx.require(len(out) == 2, "returned %d values", len(out))
    ctx.require(np.array_equal(K, k1) and np.array_equal(Kz, k2), "an input was modified")
    R = np.linalg.solve(Kz + eps * np.eye(n), eps * np.eye(n))
    want = R @ K @ R
    scale = max(1.0, np.abs(K).max())
    ctx.close(np.asarray(out[1], dtype=float), R, "R", rtol=1e-6, atol=1e-7)
    ctx.close(np.asarray(out[0], dtype=float) / scale, want / scale, "RKR", rtol=1e-6, atol=1e-7)
    ctx.nontrivial(n > 1 and np.abs(want - K).max() > 1e-6)
    ctx.label(case["zkind"])


@st.composite
def steep(draw):
    c = draw(cases())
    return dict(c, n=draw(st.sampled_from([5, 12, 20, 3])), zkind=draw(st.sampled_from(["gram", "rank1", "constant", "gauss"])), eps=draw(st.sampled_from([1e-7, 1e-5, 1e-3])), zscale=draw(st.sampled_from([1.0, 100.0, 1e4, 1e6])))


@SUITE.sub("small_epsilon", strategy=steep(), quick=300, thorough=8000, shards=2)
def small_epsilon(case, ctx):
    """The regularisation many orders of magnitude below the kernel's largest eigenvalue."""
    n, eps = case["n"], case["eps"]
    rng = np.random.RandomState(case["seed"])
    K = matrix(case["kind"], n, rng)
    K = K / max(1.0, np.abs(K).max())
    Kz = np.array(matrix(case["zkind"], n, rng) * case["zscale"], order=case["layout"])
    w, v = np.linalg.eigh(Kz)
    if w[-1] / eps > 2e10:
        raise Reject
    R = (v * (eps / (np.maximum(w, 0) + eps))) @ v.T
    got, gotR = target(case).center_kernel_matrix_regression(K, Kz, eps)
    tol = max(1e-6, 1e-14 * n * w[-1] / eps)
    ctx.close(np.asarray(gotR, dtype=float), R, "R with epsilon %g" % eps, atol=tol)
    ctx.close(np.asarray(got, dtype=float), R @ K @ R, "RKR with epsilon %g" % eps, atol=n * tol)
    ctx.nontrivial(w[-1] / eps > 1e8)


@st.composite
def big(draw):
    return {"n": draw(st.sampled_from([130, 257, 90, 300, 520, 1030])), "seed": draw(st.integers(0, 10 ** 6)),
            "kind": draw(st.sampled_from(["gauss", "gram", "sym"])), "zkind": draw(st.sampled_from(["gauss", "gram"])),
            "eps": draw(st.sampled_from([1e-3, 0.1, 1.0])), "layout": draw(st.sampled_from(["C", "F"])), "via": draw(st.sampled_from(["class", "base", "instance"]))}


@SUITE.sub("large", strategy=big(), quick=48, thorough=600, shards=8)
def large(case, ctx):
    centring(case, ctx)
    if case["n"] <= 300:
        regression(case, ctx)
