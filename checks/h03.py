"""H03: nearest-neighbour entropy and mutual information, the GIN decision and the latent causal order."""
import math

import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy import ndimage
from scipy.special import digamma, gammaln
from scipy.stats import gamma

from harness import lhm
from harness import tables
from harness.core import Reject, Suite

SUITE = Suite("H03", "samples of 15-200 points in 1-3 dimensions (Gaussian, uniform, clustered, correlated, repeated points), 1-10 neighbours; GIN decisions on one-factor and general tables at "
              "levels around the p-value; causal orders of 2-3 latent clusters with non-Gaussian noise; oracles: sorted distance matrices, explicit Gram matrices with the gamma law, "
              "translation and exchange relations, the generating order; non-trivial: at least 2 neighbours, dependent samples, two or more clusters",
              ["the root cluster is asserted (the whole order for two clusters) for clusters of two variables, uniform or exponential noise, strong loadings and 1500 samples"])


@st.composite
def clouds(draw):
    n = draw(st.sampled_from([40, 15, 100, 200]))
    return {"n": n, "d": draw(st.sampled_from([1, 2, 3])), "k": draw(st.sampled_from([3, 1, 5, 10])), "kind": draw(st.sampled_from(["gauss", "uniform", "clusters", "corr", "repeated"])),
            "seed": draw(st.integers(0, 10 ** 6)), "scale": draw(st.sampled_from([1.0, 10.0, .1])), "shift": draw(st.sampled_from([0.0, 3.0, -50.0]))}


def cloud(case, d):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    x = rng.normal(size=(n, d))
    k = case["kind"]
    if k == "uniform":
        x = rng.uniform(size=(n, d))
    elif k == "clusters":
        x = x * .1 + rng.randint(0, 3, (n, 1)) * 5
    elif k == "corr":
        x = x + 2 * rng.normal(size=(n, 1))
    elif k == "repeated":
        x = np.round(x, 1)
    return x * case["scale"] + case["shift"]


def kth(x, k):
    d = np.sqrt(((x[:, None, :] - x[None, :, :]) ** 2).sum(-1))
    return np.sort(d, axis=1)[:, k]


def entropy(x, k):
    n, d = x.shape
    return d * np.mean(np.log(kth(x, k) + np.finfo(float).eps)) + d / 2 * math.log(math.pi) - gammaln(d / 2 + 1) + digamma(n) - digamma(k)


@SUITE.sub("entropy", strategy=clouds(), quick=500, thorough=10000, shards=8)
def entropies(case, ctx):
    M = lhm.module("mutual")
    x = cloud(case, case["d"])
    keep = x.copy()
    k = case["k"]
    r = kth(x, k)
    tied = r.min() < 1e-9 * case["scale"]  # log(0 + eps): the last bit of a distance shows
    ctx.close(M.nearest_distances(x, k), r, "distances to the %d-th neighbour" % k, rtol=1e-6, atol=2e-6 * case["scale"])
    if not tied:
        ctx.close(M.entropy(x, k), entropy(x, k), "entropy with %d neighbours" % k, rtol=1e-6, atol=1e-5)
        ctx.close(M.entropy(x * 2, k), M.entropy(x, k) + case["d"] * math.log(2), "entropy of the doubled sample", rtol=1e-6, atol=1e-5)
        ctx.close(M.entropy(x[::-1], k), M.entropy(x, k), "entropy of the reordered sample", rtol=1e-9, atol=1e-6)
        parts = [x[:, [i]] for i in range(case["d"])] + [np.random.RandomState(case["seed"] + 1).normal(size=(case["n"], 1))]
        if min(kth(p, k).min() for p in parts) > 1e-9 * case["scale"]:
            want = sum(entropy(p, k) for p in parts) - entropy(np.hstack(parts), k)
            ctx.close(M.mutual_information(tuple(parts), k=k), want, "mutual information of %d variables" % len(parts), rtol=1e-6, atol=1e-5)
            ctx.close(M.mutual_information(tuple(parts[::-1]), k=k), want, "mutual information in another order", rtol=1e-6, atol=1e-5)
    ctx.raises(Exception, lambda: M.mutual_information((x,), k=k), "mutual information of one variable")
    C = np.cov(x, rowvar=False)
    want = .5 * math.log(2 * math.pi * math.e * C) if case["d"] == 1 else .5 * (case["d"] * math.log(2 * math.pi * math.e) + np.linalg.slogdet(C)[1])
    ctx.close(M.entropy_gaussian(float(C) if case["d"] == 1 else C), want, "Gaussian entropy", rtol=1e-8, atol=1e-8)
    u = (x[:, 0] - x[:, 0].mean()) / x[:, 0].std()
    hu = (1 + math.log(2 * math.pi)) / 2 - 79.047 * (np.mean(np.log(np.cosh(u))) - .37457) ** 2 - 7.4129 * np.mean(u * np.exp(-u ** 2 / 2)) ** 2
    ctx.close(M.entropy2(u), hu, "maximum-entropy approximation", rtol=1e-9, atol=1e-9)
    ctx.require(np.array_equal(x, keep), "an entropy estimate changed the data")
    ctx.nontrivial(k >= 2)
    ctx.label(case["kind"])


@SUITE.sub("histogram", strategy=clouds(), quick=200, thorough=3000, shards=4)
def histogram(case, ctx):
    M = lhm.module("mutual")
    z = cloud(case, 2)
    x, y = z[:, 0].copy(), z[:, 1].copy()
    kx, ky = x.copy(), y.copy()
    sigma = [1, 2, .5][case["k"] % 3]
    h = ndimage.gaussian_filter(np.histogram2d(x, y, bins=(256, 256))[0], sigma=sigma, mode="constant") + np.finfo(float).eps
    h /= h.sum()
    a, b = h.sum(axis=1), h.sum(axis=0)
    H = lambda p: -(p * np.log(p)).sum()
    ctx.close(M.mutual_information_2d(x, y, sigma=sigma), H(a) + H(b) - H(h), "histogram mutual information", rtol=1e-6, atol=1e-8)
    ctx.close(M.mutual_information_2d(x, y, sigma=sigma, normalized=True), (H(a) + H(b)) / H(h) - 1, "normalised histogram mutual information", rtol=1e-6, atol=1e-8)
    ctx.close(M.mutual_information_2d(y, x, sigma=sigma), M.mutual_information_2d(x, y, sigma=sigma), "histogram mutual information of the exchanged pair", rtol=1e-6, atol=1e-7)
    ctx.require(np.array_equal(x, kx) and np.array_equal(y, ky), "the histogram estimate changed the data")
    ctx.nontrivial(case["kind"] != "gauss")


@st.composite
def gins(draw):
    return {"n": draw(st.sampled_from([80, 40, 150])), "p": draw(st.sampled_from([4, 5, 6, 8])), "kind": draw(st.sampled_from(["one factor", "two factors", "heavy", "uniform"])),
            "nx": draw(st.sampled_from([2, 3, 1])), "nz": draw(st.sampled_from([1, 2, 3, 4])), "seed": draw(st.integers(0, 10 ** 6)), "names": draw(st.sampled_from(["x", "int"])), "alpha": draw(st.sampled_from([.05, .01, .3]))}


def gin_table(case):
    rng = np.random.RandomState(case["seed"])
    n, p = case["n"], case["p"]
    if case["kind"] in ("one factor", "two factors"):
        f = rng.uniform(-1, 1, (n, 2))
        f[:, 1] += f[:, 0]
        load = rng.uniform(.5, 2, p)
        cols = np.zeros(p, int) if case["kind"] == "one factor" else (np.arange(p) >= p // 2).astype(int)
        x = f[:, cols] * load + .5 * rng.uniform(-1, 1, (n, p))
    else:
        x = lhm.table(case["kind"], n, p, rng)
    names = ["x%d" % i for i in range(p)] if case["names"] == "x" else list(range(p))
    return tables.frame(x, names), names


def hsic_p(x, y):
    """gamma p-value; median width over the first 100 points."""
    def gram(v):
        d = (v[:, None] - v[None, :]) ** 2
        h = d[:100, :100]
        u = h[np.triu_indices(len(h), 1)]
        return np.exp(-d / np.median(u[u > 0]))
    n = len(x)
    K, L = gram(x), gram(y)
    c = lambda A: A - A.mean(axis=0) - A.mean(axis=1)[:, None] + A.mean()
    Kc, Lc = c(K), c(L)
    v = (Kc * Lc / 6) ** 2
    var = (v.sum() - np.trace(v)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    off = lambda A: (A.sum() - np.trace(A)) / n / (n - 1)
    mean = (1 + off(K) * off(L) - off(K) - off(L)) / n
    return gamma.sf((Kc * Lc).sum() / n, mean ** 2 / var, scale=var * n / mean)


def surrogate(df, X, Z):
    C = lhm.cov(df.to_numpy())
    cols = list(df.columns)
    A = C[np.ix_([cols.index(z) for z in Z], [cols.index(x) for x in X])]
    s = np.linalg.svd(A, compute_uv=False)
    null = len(X) - int((s > 1e-9 * s[0]).sum())
    if null > 1 or (null == 0 and len(s) > 1 and s[-2] < 1.001 * s[-1]):
        raise Reject  # the surrogate is not unique
    w = np.linalg.svd(A)[2][-1]
    return df[X].to_numpy() @ w


@SUITE.sub("decision", strategy=gins(), quick=400, thorough=6000, shards=8)
def decision(case, ctx):
    G = lhm.module("GIN2")
    df, names = gin_table(case)
    order = np.random.RandomState(case["seed"] + 7).permutation(case["p"])
    X, Z = [names[i] for i in order[:case["nx"]]], [names[i] for i in order[case["nx"]:case["nx"] + case["nz"]]]
    keep = df.copy()
    y = surrogate(df, X, Z)
    ps = [hsic_p(y, df[z].to_numpy()) for z in Z]
    for alpha in [case["alpha"], min(ps) * .9, min(ps) * 1.1, max(ps) * .9]:
        if alpha > 0 and alpha < 1 and min(abs(q - alpha) for q in ps) > 1e-3 * alpha:
            got = G.GIN(X, Z, df, alpha)
            ctx.require(bool(got) == all(q > alpha for q in ps), "GIN(%r, %r) at level %r is %r, p-values %r", X, Z, alpha, got, ps)
    if min(abs(q - .05) for q in ps) > 1e-4:
        ctx.require(bool(G.GIN(X, Z, df)) == all(q > .05 for q in ps), "GIN(%r, %r) at the default level, p-values %r", X, Z, ps)
    k = 10
    mi = lambda a, b: abs(entropy(a[:, None], k) + entropy(b[:, None], k) - entropy(np.column_stack([a, b]), k))
    ctx.close(G.GIN_MI(X, Z, df), np.mean([mi(y, df[z].to_numpy()) for z in Z]), "mean mutual information of the surrogate with the instruments", rtol=1e-5, atol=1e-5)
    ID = lhm.module("independence")
    ctx.close(ID.independent(y, df[Z[0]].to_numpy()), mi(y, df[Z[0]].to_numpy()), "dependence measure", rtol=1e-5, atol=1e-5)
    ctx.require(df.equals(keep), "testing generalised independent noise changed the data")
    ctx.nontrivial(case["nx"] > case["nz"])
    ctx.label("rejected at .05", min(ps) < .05)


@st.composite
def orders(draw):
    k = draw(st.sampled_from([2, 3, 2]))
    return {"k": k, "size": draw(st.sampled_from([2, 2, 2, 4, 3])), "seed": draw(st.integers(0, 10 ** 6)), "listing": draw(st.permutations(list(range(k)))), "noise": draw(st.sampled_from(["uniform", "exp"]))}


@SUITE.sub("order", strategy=orders(), quick=240, thorough=2500, shards=8)
def order(case, ctx):
    ICO = lhm.module("Infer_Causal_Order")
    rng = np.random.RandomState(case["seed"])
    n, k = 1500, case["k"]
    e = lambda *s: (rng.uniform(-1, 1, s) * np.sqrt(3) if case["noise"] == "uniform" else rng.exponential(size=s) - 1)
    sign = lambda: rng.choice([-1, 1])
    L = []
    for v in range(k):
        L.append(e(n) + (rng.uniform(.9, 1.4) * sign() * L[-1] if L else 0))
    cols, clusters = {}, []
    for v in range(k):
        clusters.append(["x%d" % (v * case["size"] + i) for i in range(case["size"])])
        for name in clusters[-1]:
            cols[name] = rng.uniform(.8, 1.4) * sign() * L[v] + .15 * e(n)
    df = tables.frame(pd.DataFrame(cols))
    keep = df.copy()
    arg = {"1": [list(clusters[i]) for i in case["listing"]]}
    got = ICO.LearnCausalOrder(arg, df)
    ctx.require(arg == {"1": [list(clusters[i]) for i in case["listing"]]} and df.equals(keep), "learning the order changed its inputs")
    ctx.require(sorted(got) == sorted(clusters), "order %r is not a permutation of the clusters", got)
    if case["size"] > 2:  # the surrogate may then be a contrast within one cluster, which tells nothing about the order
        return
    ctx.require(got[0] == clusters[0] and (k > 2 or got == clusters), "learned order %r, generated %r", got, clusters)  # later steps rest on ever smaller differences
    root = ICO.FindRoot([list(clusters[i]) for i in case["listing"]], df, [])
    ctx.require(root == clusters[0], "learned root %r, generated %r", root, clusters[0])
    ctx.nontrivial()
    ctx.label("clusters %d" % k)


# many samples: blocked or thinned computations would show
SUITE.sub("entropy many rows", strategy=st.tuples(clouds(), st.sampled_from([450, 1025, 1500])).map(lambda t: dict(t[0], n=t[1])), quick=32, thorough=600, shards=8)(entropies)
SUITE.sub("histogram many rows", strategy=st.tuples(clouds(), st.sampled_from([1500, 3000])).map(lambda t: dict(t[0], n=t[1])), quick=16, thorough=300, shards=4)(histogram)
SUITE.sub("decision many rows", strategy=st.tuples(gins(), st.sampled_from([260, 520, 1010])).map(lambda t: dict(t[0], n=t[1])), quick=40, thorough=600, shards=8)(decision)
