"""X01: matrix exponentials against scipy's, by value and by derivative."""
import numpy as np
from hypothesis import strategies as st

from harness import tables as guises
from harness.core import Suite

SUITE = Suite("X01", "random square matrices of order 1-8 and 10-50 (dense, symmetric, skew, diagonal, triangular, nilpotent, rank one, zero, permutation-conjugated nilpotent "
              "with cancelling products), one-norms from 1e-9 to 60, single and double precision, batches of mixed norms and shapes; oracle: scipy's double-precision "
              "exponential with an error bound u*n*(1+norm)*max_t |e^tA||e^(1-t)A|, scipy's Frechet derivative, inverse and similarity relations; non-trivial: order at least 2 and norm above 1e-3",
              ["matrices whose exponential is of moderate size (condition factor below 1e9 in double, 1e4 in single precision)"])

KINDS = ["dense", "symmetric", "skew", "diagonal", "triangular", "nilpotent", "cancelling", "rank1", "zero", "negative", "acyclic"]
NORMS = [1.0, 3.0, .1, 1e-2, .3, 10.0, 25.0, 1e-4, 1e-9, 5.0, 60.0, .02, 2.0]


def build(kind, n, norm, seed):
    r = np.random.default_rng(seed)
    A = r.standard_normal((n, n))
    if kind == "symmetric":
        A = A + A.T
    elif kind == "skew":
        A = A - A.T
    elif kind == "diagonal":
        A = np.diag(r.standard_normal(n))
    elif kind == "triangular":
        A = np.tril(A)
    elif kind == "nilpotent":
        A = np.triu(A, 1)
    elif kind == "cancelling":
        u = r.integers(-2, 3, n).astype(float)
        v = r.integers(-2, 3, n).astype(float)
        if n > 1:
            u[0] = 1.0
            v[0] = -(u[1:] @ v[1:])
        else:
            u[:] = 0
        A = np.outer(u, v)
    elif kind == "rank1":
        A = np.outer(r.standard_normal(n), r.standard_normal(n))
    elif kind == "zero":
        return np.zeros((n, n))
    elif kind == "negative":
        A = -(A @ A.T)
    elif kind == "acyclic":
        p = r.permutation(n)
        A = (np.abs(np.triu(A, 1)) * (r.random((n, n)) < .6))[np.ix_(p, p)]
    s = np.abs(A).sum(0).max()
    return A * (norm / s) if s > 0 else A


def one(M):
    return np.abs(M).sum(-2).max(-1)


def hump(A):
    from scipy.linalg import expm
    best = 1.0
    for t in np.linspace(0, 1, 9):
        best = max(best, one(expm(t * A)) * one(expm((1 - t) * A)))
    return best


def routines(dtype):
    import torch
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm32, expm64, expm_pade, expm_taylor
    r = [("expm_taylor", expm_taylor.expm_taylor), ("expm_taylor.expm", expm_taylor.expm), ("expm_pade.expm", expm_pade.expm)]
    r.append(("expm64", expm64.expm64) if dtype == "double" else ("expm32", expm32.expm32))
    return r


UNIT = {"double": 2.0 ** -53, "single": 2.0 ** -24}
LIMIT = {"double": 1e9, "single": 1e4}
GUARD = 100.0


def to_torch(A, dtype):
    import torch
    torch.set_num_threads(1)
    A = np.array(A)
    T = torch.tensor(A, dtype=torch.float64 if dtype == "double" else torch.float32)
    layout = guises.pick(A, ("plain", "plain", "transposed", "strided"), "layout") if A.ndim >= 2 else "plain"
    if layout == "transposed":
        return T.transpose(-1, -2).contiguous().transpose(-1, -2)
    if layout == "strided":
        big = torch.full(A.shape[:-1] + (2 * A.shape[-1],), 7.0, dtype=T.dtype)
        big[..., ::2] = T
        return big[..., ::2]
    return T


@st.composite
def matrices(draw):
    return {"kind": draw(st.sampled_from(KINDS)), "n": draw(st.sampled_from([3, 2, 5, 1, 4, 8])), "norm": draw(st.sampled_from(NORMS)) * draw(st.sampled_from([1.0, 1.3, .7])),
            "seed": draw(st.integers(0, 10 ** 6)), "dtype": draw(st.sampled_from(["double", "single"]))}


def check_value(ctx, name, got, A, dtype, what=""):
    from scipy.linalg import expm
    want = expm(A)
    h = hump(A)
    tol = GUARD * UNIT[dtype] * (1 + one(A)) * h * max(1, len(A) / 8)
    err = one(np.asarray(got, float) - want)
    ctx.require(np.all(np.isfinite(got)) and err <= tol, "%s%s: error %.3g (allowed %.3g) for %r: got %r, expected %r", name, what, err, tol, A.tolist()[:8], np.asarray(got).tolist()[:8], want.tolist()[:8])


@SUITE.sub("value", strategy=matrices(), quick=2500, thorough=60000, shards=8)
def value(case, ctx):
    A = build(case["kind"], case["n"], case["norm"], case["seed"])
    dtype = case["dtype"]
    if dtype == "single":
        A = A.astype(np.float32).astype(float)
    if hump(A) > LIMIT[dtype]:
        A = A * (3.0 / max(one(A), 3.0))
        if dtype == "single":
            A = A.astype(np.float32).astype(float)
    for name, f in routines(dtype):
        T = to_torch(A, dtype)
        keep = T.clone()
        got = f(T)
        ctx.require(got.dtype == T.dtype and tuple(got.shape) == A.shape, "%s returned %r %r", name, got.dtype, got.shape)
        ctx.require(bool((T == keep).all()), "%s changed its input", name)
        check_value(ctx, name, got.numpy(), A, dtype)
    ctx.nontrivial(case["n"] >= 2 and one(A) > 1e-3)
    ctx.label(case["kind"])
    ctx.label("scaled", one(A) > 5)


@st.composite
def batches(draw):
    shape = draw(st.sampled_from([[3], [1], [2, 2], [4], [2, 1, 3], [6]]))
    m = int(np.prod(shape))
    n = draw(st.sampled_from([2, 3, 4, 1]))
    # whole rows of nought would make one element in a batch a zero matrix
    return {"shape": shape, "n": n, "kinds": draw(st.lists(st.sampled_from(KINDS), min_size=m, max_size=m)), "norms": draw(st.lists(st.sampled_from(NORMS), min_size=m, max_size=m)),
            "seed": draw(st.integers(0, 10 ** 6)), "dtype": draw(st.sampled_from(["double", "single"]))}


def stack(case):
    out = []
    for k, (kind, norm) in enumerate(zip(case["kinds"], case["norms"])):
        A = build(kind, case["n"], norm, case["seed"] + k)
        if case["dtype"] == "single":
            A = A.astype(np.float32).astype(float)
        if hump(A) > LIMIT[case["dtype"]]:
            A = A * (3.0 / max(one(A), 3.0))
        out.append(A)
    A = np.array(out).reshape(case["shape"] + [case["n"]] * 2)
    return A.astype(np.float32).astype(float) if case["dtype"] == "single" else A


@SUITE.sub("batch", strategy=batches(), quick=600, thorough=15000, shards=8)
def batch(case, ctx):
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_pade, expm_taylor
    A = stack(case)
    for name, f in (("expm_taylor", expm_taylor.expm_taylor), ("expm_taylor.expm", expm_taylor.expm)):
        T = to_torch(A, case["dtype"])
        keep = T.clone()
        got = f(T)
        ctx.require(tuple(got.shape) == A.shape and got.dtype == T.dtype, "%s returned %r %r for a batch %r", name, got.dtype, tuple(got.shape), A.shape)
        ctx.require(bool((T == keep).all()), "%s changed its input", name)
        for k, (M, G) in enumerate(zip(A.reshape(-1, case["n"], case["n"]), got.numpy().reshape(-1, case["n"], case["n"]))):
            check_value(ctx, name, G, M, case["dtype"], " on element %d of a batch of shape %r" % (k, case["shape"]))
    ctx.nontrivial(case["n"] >= 2 and len(set(case["norms"])) > 1 and max(case["norms"]) > 2)


def check_gradient(ctx, name, f, A, G, dtype, what=""):
    """d<G, e^A>/dA is the Frechet derivative of exp at A' in direction G."""
    from scipy.linalg import expm_frechet
    T = to_torch(A, dtype).requires_grad_(True)
    out = f(T)
    out.backward(to_torch(G, dtype))
    got = T.grad.numpy().astype(float)
    a, g, r = (np.reshape(x, (-1,) + A.shape[-2:]) for x in (A, G, got))
    for k in range(len(a)):
        want = expm_frechet(a[k].T, g[k], compute_expm=False)
        M = np.block([[a[k].T, g[k]], [np.zeros_like(g[k]), a[k].T]])
        tol = GUARD * UNIT[dtype] * (1 + one(M)) * hump(M) * max(1, len(M) / 16)
        err = one(r[k] - want)
        ctx.require(err <= tol, "%s%s: derivative off by %.3g (allowed %.3g) at %r in direction %r: got %r, expected %r", name, what, err, tol, a[k].tolist()[:8], g[k].tolist()[:8], r[k].tolist()[:8], want.tolist()[:8])


@SUITE.sub("derivative", strategy=matrices(), quick=600, thorough=15000, shards=8)
def derivative(case, ctx):
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_pade, expm_taylor
    A = build(case["kind"], case["n"], min(case["norm"], 8.0), case["seed"])
    dtype = case["dtype"]
    if dtype == "single":
        A = A * min(1.0, 3.0 / max(one(A), 1e-300))
        A = A.astype(np.float32).astype(float)
    G = np.random.default_rng(case["seed"] + 1).standard_normal(A.shape).astype(np.float32).astype(float)
    for name, f in (("expm_taylor.expm", expm_taylor.expm), ("expm_pade.expm", expm_pade.expm)):
        check_gradient(ctx, name, f, A, G, dtype)
    ctx.nontrivial(case["n"] >= 2 and one(A) > 1e-3)


@SUITE.sub("batch_derivative", strategy=batches(), quick=200, thorough=5000, shards=8)
def batch_derivative(case, ctx):
    from cdmir.discovery.score_based.entropy_based.pytorch_expm import expm_taylor
    case = dict(case, norms=[min(x, 3.0) for x in case["norms"]])
    A = stack(case)
    G = np.random.default_rng(case["seed"] + 1).standard_normal(A.shape).astype(np.float32).astype(float)
    check_gradient(ctx, "expm_taylor.expm", expm_taylor.expm, A, G, case["dtype"], " (batch)")
    ctx.nontrivial(case["n"] >= 2 and max(case["norms"]) > .1)


@SUITE.sub("shapes", strategy=st.fixed_dictionaries({"shape": st.sampled_from([[2, 3], [3, 1], [2, 2, 3], [4], [1, 2]])}), quick=10, thorough=10)
def shapes(case, ctx):
    T = to_torch(np.ones(case["shape"]), "double")
    for name, f in routines("double"):
        ctx.raises(Exception, lambda: f(T), "%s on shape %r" % (name, case["shape"]))
    ctx.nontrivial()


SUITE.sub("large", strategy=st.tuples(matrices(), st.sampled_from([12, 16, 25, 33, 50]), st.sampled_from([1.0, .3, 3.0, 10.0, .01, 25.0]))
          .map(lambda t: dict(t[0], n=t[1], norm=t[2])), quick=300, thorough=8000, shards=8)(value)
SUITE.sub("large_derivative", strategy=st.tuples(matrices(), st.sampled_from([10, 14, 20])).map(lambda t: dict(t[0], n=t[1])), quick=80, thorough=2000, shards=8)(derivative)


@st.composite
def long_batches(draw):
    m, n = draw(st.sampled_from([9, 12, 21])), draw(st.sampled_from([3, 6, 9]))
    r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    return {"shape": draw(st.sampled_from([[m], [m // 3, 3], [3, 1, m // 3]])), "n": n, "kinds": [KINDS[k] for k in r.randint(len(KINDS), size=m)],
            "norms": [NORMS[k] for k in r.randint(len(NORMS), size=m)], "seed": draw(st.integers(0, 10 ** 6)), "dtype": draw(st.sampled_from(["double", "single"]))}


SUITE.sub("long_batch", strategy=long_batches(), quick=100, thorough=2000, shards=8)(batch)
