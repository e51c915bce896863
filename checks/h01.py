"""H01: tetrad test, GIN surrogate vector, Fisher combination and kernel independence test against their formulas."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.stats import chi2, gamma

from harness import lhm
from harness import tables as guises
from harness.core import Reject, Suite

SUITE = Suite("H01", "random tables of 8-400 rows (Gaussian, heavy-tailed, uniform, one-factor, independent, badly scaled), all orders of four columns, surrogate vectors for 1-5 targets and "
              "instruments, 1-20 p-values including 0 and 1, paired samples for the kernel tests; oracles: determinants and the normal law for the tetrad test, singular values for the surrogate "
              "vector, chi-square law for Fisher's combination, explicit Gram matrices for the kernel statistics; non-trivial: a tetrad p-value in (1e-12, 1), more targets than instruments, "
              "two or more p-values, dependent pairs",
              ["columns are not linearly dependent"])


@st.composite
def quads(draw):
    return {"n": draw(st.sampled_from([50, 20, 8, 150, 400])), "kind": draw(st.sampled_from(lhm.KINDS)), "seed": draw(st.integers(0, 10 ** 6)),
            "as": draw(st.sampled_from(["series", "array", "list"])), "perm": draw(st.permutations([0, 1, 2, 3])), "alpha": draw(st.sampled_from([.01, .05, .2, .5, 1e-4]))}


@SUITE.sub("tetrad", strategy=quads(), quick=800, thorough=20000, shards=8)
def tetrad(case, ctx):
    VT = lhm.module("VanishedTest")
    x = lhm.table(case["kind"], case["n"], 4, np.random.RandomState(case["seed"]))
    S, n = lhm.cov(x), case["n"]
    if np.linalg.cond(S / np.sqrt(np.outer(np.diag(S), np.diag(S)))) > 1e8:
        raise Reject
    df = guises.frame(x, list("abcd"))
    col = {"series": lambda c: df["abcd"[c]], "array": lambda c: x[:, c], "list": lambda c: x[:, c].tolist()}[case["as"]]
    i, j, k, l = case["perm"]
    keep = x.copy()
    p = VT.vanishes_Pval(col(i), col(j), col(k), col(l))
    want = lhm.tetrad_p(S, i, j, k, l, n)
    ctx.close(p, want, "tetrad p-value", rtol=1e-5, atol=1e-10)
    ctx.close(VT.tetradPValue(col(i), col(j), col(k), col(l)), p, "tetradPValue against vanishes_Pval")
    for a, b, c, d in ((j, i, k, l), (i, j, l, k), (k, l, i, j)):
        ctx.close(VT.vanishes_Pval(col(a), col(b), col(c), col(d)), p, "tetrad p-value with the roles swapped", rtol=1e-5, atol=1e-10)
    for alpha in (case["alpha"], p * 1.001, p * .999):
        if 0 < alpha < 1 and abs(alpha - p) > 1e-9 * p:
            ctx.require(bool(VT.vanishes(col(i), col(j), col(k), col(l), alpha)) == (p > alpha), "vanishes at level %r with p-value %r", alpha, p)
    if abs(p - .01) > 1e-6:
        ctx.require(bool(VT.vanishes(col(i), col(j), col(k), col(l))) == (p > .01), "vanishes at the default level with p-value %r", p)
    ctx.require(np.array_equal(x, keep) and np.array_equal(df.to_numpy(), keep), "the tetrad test changed the data")
    ctx.nontrivial(1e-12 < want < 1)
    ctx.label(case["kind"])
    ctx.label("not rejected at .01", want > .01)


@st.composite
def tables(draw):
    p = draw(st.sampled_from([5, 4, 7, 3, 2]))
    cols = draw(st.permutations(list(range(p))))
    a = draw(st.sampled_from(list(range(p - 1, 0, -1))))
    b = draw(st.integers(1, p - a)) if draw(st.booleans()) else min(max(a - 1, 1), p - a)
    names = draw(st.sampled_from(["x", "int", "rev"]))
    return {"n": draw(st.sampled_from([30, 100, 300])), "kind": draw(st.sampled_from(lhm.KINDS[:5])), "seed": draw(st.integers(0, 10 ** 6)), "p": p, "X": cols[:a], "Z": cols[a:a + b],
            "overlap": draw(st.booleans()), "names": names}


def named(case, x):
    names = {"x": ["x%d" % i for i in range(case["p"])], "int": list(range(case["p"])), "rev": ["v%d" % (9 - i) for i in range(case["p"])]}[case["names"]]
    return guises.frame(x, names), names


@SUITE.sub("vector", strategy=tables(), quick=600, thorough=15000, shards=4)
def vector(case, ctx):
    GIN2 = lhm.module("GIN2")
    x = lhm.table(case["kind"], case["n"], case["p"], np.random.RandomState(case["seed"]))
    df, names = named(case, x)
    X, Z = list(case["X"]), list(case["Z"])
    if case["overlap"] and len(X) > len(Z) + 1:
        Z = Z + X[:1]
    nx, nz = [names[i] for i in X], [names[i] for i in Z]
    kx, kz = list(nx), list(nz)
    w = np.asarray(GIN2.getomega(df, nx, nz), float)
    ctx.require(np.array_equal(df.to_numpy(), x) and list(df.columns) == names and nx == kx and nz == kz, "computing the surrogate vector changed its inputs")
    ctx.require(w.size == len(X), "vector of %d entries for %d targets", w.size, len(X))
    w = w.ravel()
    ctx.close(np.linalg.norm(w), 1, "length of the surrogate vector", rtol=1e-8)
    C = lhm.cov(x)[np.ix_(X, Z)]
    r = np.linalg.norm(w @ C)
    s = np.linalg.svd(C, compute_uv=False)
    least = 0 if len(X) > len(Z) else s[-1]
    ctx.require(abs(r - least) <= 1e-8 * s[0], "the surrogate has covariance of norm %r with the instruments, possible is %r", r, least)
    if len(X) > len(Z):
        y = df[nx].to_numpy() @ w
        z = df[nz].to_numpy()
        ctx.require(np.abs(lhm.cov(np.column_stack([y, z]))[0, 1:]).max() <= 1e-7 * s[0] + 1e-12, "the surrogate combination is correlated with an instrument")
    ctx.nontrivial(len(X) > len(Z))
    ctx.label("targets %d" % len(X))


PV = st.one_of(st.sampled_from([0.0, 1.0, .5, .01, 1e-5, 1e-300, .99]), st.floats(0, 1, allow_nan=False))


@SUITE.sub("fisher", strategy=st.fixed_dictionaries({"p": st.lists(PV, min_size=1, max_size=20), "alpha": st.sampled_from([.01, .05, .5]), "as": st.sampled_from(["list", "tuple", "array"])}),
           quick=800, thorough=20000, shards=2, examples=[{"p": [0.0], "alpha": .01, "as": "list"}, {"p": [.5, 0.0, 1.0], "alpha": .05, "as": "array"}])
def fisher(case, ctx):
    F = lhm.module("indTest.FisherTest")
    ps = [p if p > 1e-300 or p == 0 else 0.0 for p in case["p"]]
    arg = {"list": list, "tuple": tuple, "array": np.array}[case["as"]](ps)
    flag, p = F.FisherTest(arg, case["alpha"])
    stat = -2 * math.fsum(math.log(1e-5 if q == 0 else q) for q in ps)
    want = chi2.sf(stat, 2 * len(ps))
    ctx.close(p, want, "combined p-value of %r" % (ps,), rtol=1e-6, atol=1e-12)
    ctx.require(bool(flag) == (p > case["alpha"]), "decision %r at level %r with combined p-value %r", flag, case["alpha"], p)
    ctx.require(list(arg) == ps, "combining changed the p-values")
    f2, p2 = F.FisherTest(list(reversed(ps)), case["alpha"])
    ctx.close(p2, p, "combined p-value in another order", rtol=1e-9, atol=1e-12)
    if abs(p - .01) > 1e-9:
        ctx.require(bool(F.FisherTest(arg)[0]) == (p > .01), "decision at the default level with combined p-value %r", p)
    ctx.nontrivial(len(ps) >= 2)


def width(x):
    d = ((x[:, None, :] - x[None, :, :]) ** 2).sum(-1)
    u = d[np.triu_indices(len(x), 1)]
    return np.sqrt(.5 * np.median(u[u > 0]))


def gram(x):
    d = ((x[:, None, :] - x[None, :, :]) ** 2).sum(-1)
    return np.exp(-d / 2 / width(x) ** 2)


def centre(K):
    return K - K.mean(axis=0) - K.mean(axis=1)[:, None] + K.mean()


@st.composite
def pairs(draw):
    return {"n": draw(st.sampled_from([30, 12, 60, 7])), "kind": draw(st.sampled_from(["indep", "linear", "square", "heavy", "discrete", "rare x", "rare y"])), "seed": draw(st.integers(0, 10 ** 6)),
            "dim": draw(st.sampled_from([1, 1, 2])), "alpha": draw(st.sampled_from([.05, .01, .3])), "module": draw(st.sampled_from(["HSIC", "indTest.HSIC"]))}


def pair(case):
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["dim"]
    x, e = rng.normal(size=(n, d)), rng.normal(size=(n, 1))
    y = {"indep": e, "linear": x[:, :1] + e, "square": x[:, :1] ** 2 + .3 * e, "rare x": e, "rare y": e, "heavy": rng.standard_cauchy((n, 1)), "discrete": np.round(x[:, :1]) + np.round(e)}[case["kind"]]
    if case["kind"] in ("rare x", "rare y"):  # most points coincide: few positive distances
        few = (rng.rand(n, 1) < .15) * (1 + rng.exponential(size=(n, 1)))
        x, y = (few + np.zeros((1, d)), x[:, :1] + few) if case["kind"] == "rare x" else (x, few)
        if (few > 0).sum() < 2:
            raise Reject
    if case["kind"] == "discrete":
        x = np.round(x)
        if len(np.unique(x, axis=0)) < 2 or len(np.unique(y)) < 2:
            raise Reject
    return x, y


@SUITE.sub("kernel test", strategy=pairs(), quick=500, thorough=10000, shards=4)
def kernel(case, ctx):
    H = lhm.module(case["module"])
    x, y = pair(case)
    n, alpha = len(x), case["alpha"]
    kx, ky = x.copy(), y.copy()
    stat, thresh = H.hsic_gam(x, y, alpha)
    K, L = gram(x), gram(y)
    Kc, Lc = centre(K), centre(L)
    want = (Kc * Lc).sum() / n
    ctx.close(stat, want, "kernel independence statistic", rtol=1e-6, atol=1e-10)
    v = (Kc * Lc / 6) ** 2
    var = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    off = lambda A: (A.sum() - np.trace(A)) / n / (n - 1)
    mean = (1 + off(K) * off(L) - off(K) - off(L)) / n
    want_t = gamma.ppf(1 - alpha, mean ** 2 / var, scale=var * n / mean)
    ctx.close(thresh, want_t, "threshold of the gamma approximation", rtol=1e-6, atol=1e-10)
    s2, t2 = H.hsic_gam(y, x, alpha)
    ctx.close([s2, t2], [stat, thresh], "kernel independence test with the samples exchanged", rtol=1e-7, atol=1e-10)
    p = np.random.RandomState(1).permutation(n)
    s3, t3 = H.hsic_gam(x[p], y[p], alpha)
    ctx.close([s3, t3], [stat, thresh], "kernel independence test with the samples reordered", rtol=1e-7, atol=1e-10)
    if case["dim"] == 1 and abs(stat - thresh) > 1e-9:
        f = H.test if case["module"] == "HSIC" else H.independent
        ctx.require(f(x[:, 0], y[:, 0], alpha) == (stat < thresh), "decision at level %r with statistic %r and threshold %r", alpha, stat, thresh)
    ctx.require(np.array_equal(x, kx) and np.array_equal(y, ky), "the kernel test changed the data")
    ctx.nontrivial(case["kind"] != "indep")
    ctx.label("dependent", stat > thresh)


@SUITE.sub("kernel statistics", strategy=pairs(), quick=400, thorough=10000, shards=2)
def statistics(case, ctx):
    O = lhm.module("indTest.HSICTestObject").HSICTestObject
    x, y = pair(case)
    n = len(x)
    K, L = gram(x), gram(y)

    def u(a, b):
        a, b = a - np.diag(np.diag(a)), b - np.diag(np.diag(b))
        one = np.ones(n)
        return ((a * b).sum() + one @ a @ one * (one @ b @ one) / ((n - 1) * (n - 2)) - 2 / (n - 2) * (one @ a @ b @ one)) / (n * (n - 3))

    v = lambda a, b: (centre(a) * centre(b)).sum()
    ctx.close(O.HSIC_V_statistic(K.copy(), L.copy()), v(K, L), "biased kernel statistic", rtol=1e-7, atol=1e-9)
    ctx.close(O.HSIC_U_statistic(K.copy(), L.copy()), u(K, L), "unbiased kernel statistic", rtol=1e-7, atol=1e-9)
    ctx.close(O.HSIC_U_statistic(L.copy(), K.copy()), u(K, L), "unbiased kernel statistic with the samples exchanged", rtol=1e-7, atol=1e-9)
    ctx.close(O.dCor_HSIC_statistic(K.copy(), L.copy()), v(K, L) / math.sqrt(v(K, K) * v(L, L)), "distance correlation", rtol=1e-7, atol=1e-9)
    uu = u(K, K) * u(L, L)
    if uu > 1e-12:
        ctx.close(O.dCor_HSIC_statistic(K.copy(), L.copy(), unbiased=True), u(K, L) / math.sqrt(uu), "unbiased distance correlation", rtol=1e-6, atol=1e-8)
    rng = np.random.RandomState(case["seed"] + 1)
    f, g = rng.normal(size=(n, 4)), rng.normal(size=(n, 3)) + x[:, :1]
    cf, cg = f - f.mean(axis=0), g - g.mean(axis=0)
    c = lambda a, b: ((a.T @ b / n) ** 2).sum()
    kf, kg = f.copy(), g.copy()
    ctx.close(O.HSIC_V_statistic_rff(f, g), c(cf, cg), "statistic of random features", rtol=1e-7, atol=1e-10)
    ctx.close(O.dCor_HSIC_statistic_rff(f, g), c(cf, cg) / math.sqrt(c(cf, cf) * c(cg, cg)), "distance correlation of random features", rtol=1e-7, atol=1e-10)
    ctx.require(np.array_equal(f, kf) and np.array_equal(g, kg), "the kernel statistics changed the features")
    ctx.nontrivial(case["kind"] != "indep")


# many samples: blocked or thinned computations would show
SUITE.sub("tetrad many rows", strategy=st.tuples(quads(), st.sampled_from([1100, 2500, 6000])).map(lambda t: dict(t[0], n=t[1])), quick=120, thorough=3000, shards=8)(tetrad)
SUITE.sub("vector many rows", strategy=st.tuples(tables(), st.sampled_from([1100, 2500, 6000])).map(lambda t: dict(t[0], n=t[1])), quick=100, thorough=3000, shards=4)(vector)
SUITE.sub("kernel test many rows", strategy=st.tuples(pairs(), st.sampled_from([120, 210, 530])).map(lambda t: dict(t[0], n=t[1])), quick=48, thorough=1000, shards=8)(kernel)
SUITE.sub("kernel statistics many rows", strategy=st.tuples(pairs(), st.sampled_from([120, 210, 530])).map(lambda t: dict(t[0], n=t[1])), quick=48, thorough=1000, shards=8)(statistics)
