"""H05: the kernel independence-test objects (permutation, block, spectral): statistics, null samples and p-values."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from harness import lhm
from harness.core import Suite

SUITE = Suite("H05", "samples of 4-7 rows (permutations: every reordering is known), 3-6 blocks of 4-7 rows, and feature matrices; own kernels, equal or different for the two sides, with fixed or median widths; data passed in, generated or streamed; "
              "oracle: the U- and V-statistics by their matrix definitions on the caller's kernels, the set of statistics over all reorderings, the counting p-value, the normal tail of the block statistic, the eigenvalues of the centred matrices; "
              "non-trivial: the two samples depend on each other or the widths differ", ["random features with the unbiased statistic, and blocks with random features, are not defined by the library"])


def objects():
    return [getattr(lhm.module("indTest." + n), n) for n in ("HSICTestObject", "HSICPermutationTestObject", "HSICBlockTestObject", "HSICSpectralTestObject")]


class Kernel:
    """A Gaussian kernel with the interface the test objects document (kernel, set_width, get_sigma_median_heuristic, rff_*)."""

    def __init__(self, width=1.0, factor=1.0):
        self.width, self.factor, self.dim = width, factor, None

    def kernel(self, X, Y=None):
        Y = X if Y is None else Y
        return np.exp(-((np.asarray(X)[:, None] - np.asarray(Y)[None]) ** 2).sum(-1) / (2 * self.width ** 2))

    def set_width(self, w):
        self.width = w

    def get_sigma_median_heuristic(self, X):
        D = np.sqrt(((X[:, None] - X[None]) ** 2).sum(-1))
        return self.factor * float(np.median(D[D > 0]))

    def rff_generate(self, m, dim=1):
        self.dim = (m, dim)
        r = np.random.RandomState(7)
        self.W, self.b = r.randn(dim, m), r.uniform(0, 6, m)

    def rff_expand(self, X):
        return np.cos(X @ self.W / self.width + self.b) * math.sqrt(2 / self.dim[0])


def U(K, L):
    n = len(K)
    K, L = K - np.diag(np.diag(K)), L - np.diag(np.diag(L))
    return ((K * L).sum() + K.sum() * L.sum() / ((n - 1) * (n - 2)) - 2 / (n - 2) * (K @ L).sum()) / (n * (n - 3))


def V(K, L):
    c = lambda A: A - A.mean(0) - A.mean(1)[:, None] + A.mean()
    return (c(K) * c(L)).sum()


def FV(f, g):
    return ((((f - f.mean(0)).T @ (g - g.mean(0))) / len(f)) ** 2).sum()


def sample(case, n):
    r = np.random.RandomState(case["seed"])
    x = r.randn(n, case["dim"])
    y = r.randn(n, case["dim2"])
    if case["dep"]:
        y[:, 0] += 1.5 * x[:, -1] + (x[:, 0] ** 2 if case["dep"] == 2 else 0)
    return x * 1.7, y - 2


def kernels(case):
    return Kernel(case["wx"], 1.3), Kernel(case["wy"], .7)


def widths(case, x, y):
    a, b = kernels(case)
    return (a.get_sigma_median_heuristic(x) if case["mx"] else case["wx"]), (b.get_sigma_median_heuristic(y) if case["my"] else case["wy"])


@st.composite
def setups(draw, sizes=(5, 4, 6)):
    return {"n": draw(st.sampled_from(sizes)), "seed": draw(st.integers(0, 10 ** 6)), "dim": draw(st.sampled_from([1, 2, 3])), "dim2": draw(st.sampled_from([1, 2])), "dep": draw(st.sampled_from([1, 0, 2])),
            "wx": draw(st.sampled_from([1.0, .4, 2.5])), "wy": draw(st.sampled_from([.8, 1.0, 3.0])), "mx": draw(st.booleans()), "my": draw(st.booleans()), "unbiased": draw(st.booleans()),
            "given": draw(st.sampled_from(["arguments", "generator"])), "m": draw(st.sampled_from([30, 1, 7])), "blocks": draw(st.sampled_from([4, 3, 6])), "rest": draw(st.sampled_from([0, 1, 3])),
            "how": draw(st.sampled_from(["direct", "across", "permutation"]))}


def make(cls, case, x, y, **kw):
    kx, ky = kernels(case)
    gen = []

    def generator(n, *more):
        gen.append((n,) + more)
        return x.copy(), y.copy()

    t = cls(len(x), data_generator=generator if case["given"] == "generator" else None, kernelX=kx, kernelY=ky, kernelX_use_median=case["mx"], kernelY_use_median=case["my"], **kw)
    return t, (() if case["given"] == "generator" else (x, y)), gen


def reorderings(stat, K, L):
    n = len(K)
    return np.array([stat(K, L[np.ix_(p, p)]) for p in itertools.permutations(range(n))])


def member(values, table, tol=1e-8):
    table = np.sort(table)
    k = np.clip(np.searchsorted(table, values), 1, len(table) - 1)
    return np.minimum(abs(table[k] - values), abs(table[k - 1] - values)) <= tol * max(1, abs(table).max())


@SUITE.sub("reordering", strategy=setups(), quick=500, thorough=10000, shards=4)
def reordering(case, ctx):
    T, P, _, _ = objects()
    x, y = sample(case, case["n"])
    a, b = widths(case, x, y)
    K, L = Kernel(a).kernel(x), Kernel(b).kernel(y)
    stat = U if case["unbiased"] else V
    every = reorderings(stat, K, L)
    for f in (T.HSIC_U_statistic, T.HSIC_V_statistic, T.dCor_HSIC_statistic):
        A, B = K.copy(), L.copy()
        f(A, B)
        ctx.require(np.array_equal(A, K) and np.array_equal(B, L), "a kernel matrix was modified")
    t, args, gen = make(T, case, x, y)
    if not args:
        t.generate_data()
    keep = x.copy(), y.copy()
    s, null, vx, vy, Mx, My, _ = t.HSIC_with_shuffles(*args, unbiased=case["unbiased"], num_shuffles=case["m"], estimate_nullvar=case["how"] == "direct")
    ctx.close(s, stat(K, L), "statistic", rtol=1e-7, atol=1e-10)
    null = np.asarray(null, float)
    ctx.require(null.shape == (case["m"],) and member(null, every).all(), "a null sample is not the statistic of a reordering")
    if case["m"] == 30 and case["n"] > 4:
        ctx.require(len(set(np.round(null, 9))) > 1, "every null sample is the same")
    ctx.close(Mx, K, "first kernel matrix")
    ctx.close(My, L, "second kernel matrix")
    if case["how"] == "direct":
        ctx.close([vx, vy], [2 * U(K, K), 2 * U(L, L)], "variance of the null", rtol=1e-7, atol=1e-10)
    for name, got, want in (("SubHSIC_statistic", None, lambda A: U(A, L) if case["unbiased"] else V(A, L)), ("SubdCor_HSIC_statistic", None, None)):
        parts = []
        for d in range(case["dim"]):
            w = Kernel(1, 1.3).get_sigma_median_heuristic(x[:, [d]]) if case["mx"] else case["wx"]
            A = Kernel(w).kernel(x[:, [d]])
            if want:
                parts.append(want(A))
            else:
                q = stat(A, A) * stat(L, L)
                parts.append(stat(A, L) / math.sqrt(q) if q > 1e-9 else math.nan)
        if not any(map(math.isnan, parts)):
            ctx.close(getattr(t, name)(*args, unbiased=case["unbiased"]), sum(parts) / len(parts), name, rtol=1e-6, atol=1e-9)
    ctx.require(np.array_equal(x, keep[0]) and np.array_equal(y, keep[1]), "the data were modified")
    # the permutation test
    t, args, gen = make(P, case, x, y, num_shuffles=case["m"], unbiased=case["unbiased"])
    ps = [t.compute_pvalue(*args) for _ in range(4)]
    m, larger = case["m"], (every > stat(K, L) + 1e-9).mean()
    for p in ps:
        ctx.require(1 / (1 + m) - 1e-12 <= p <= 1 + 1e-12 and abs(p * (1 + m) - round(p * (1 + m))) < 1e-7, "p-value %r of %d reorderings", p, m)
    if m == 30:
        mean = (np.mean(ps) * (1 + m) - 1) / m
        ties = ((np.abs(every - stat(K, L)) <= 1e-9).mean())
        sd = math.sqrt(.25 / (4 * m)) + .02
        ctx.require(larger - 5.5 * sd <= mean <= larger + ties + 5.5 * sd, "p-values %r, but %r of all reorderings have a larger statistic", ps, larger)
    ctx.require(all(g[0] == case["n"] for g in gen), "the generator was asked for %r samples", gen)
    ctx.nontrivial(bool(case["dep"]) or a != b)
    ctx.label(case["given"])


@SUITE.sub("blocks", strategy=setups((5, 4, 6, 7)), quick=600, thorough=12000, shards=4)
def blocks(case, ctx):
    _, _, B, _ = objects()
    size, count = case["n"], case["blocks"]
    if case["how"] == "permutation":
        size, count = 4, 3
    n = size * count + min(case["rest"], size - 1)
    x, y = sample(case, n)
    a, b = widths(case, x, y)
    stats, vx, vy, tables = [], [], [], []
    for k in range(count):
        s = slice(k * size, (k + 1) * size)
        K, L = Kernel(a).kernel(x[s]), Kernel(b).kernel(y[s])
        stats.append(U(K, L)), vx.append(2 * U(K, K)), vy.append(2 * U(L, L))
        if case["how"] == "permutation":
            tables.append(np.unique(np.round(reorderings(U, K, L), 12)))
    from scipy.stats import norm
    p = lambda var: float(norm.sf(math.sqrt(n * size) * np.mean(stats) / math.sqrt(var))) if var > 1e-12 else None
    streams = [False, True] if not (case["mx"] or case["my"]) else [False]
    for stream in streams:
        t, args, gen = make(B, case, x, y, blocksize=size, nullvarmethod=case["how"], streaming=stream)
        if stream:
            pos = [0]

            def slices(*sizes):
                s = slice(pos[0], pos[0] + size)
                pos[0] += size
                ctx.require(all(v == size for v in sizes), "a block of %r was asked for, not %d", sizes, size)
                return x[s], y[s]
            t.data_generator, args = slices, ()
        with np.errstate(all="ignore"):
            got = float(t.compute_pvalue(*args))
        if case["how"] == "permutation":
            if not math.isfinite(got):
                ctx.require(any(np.var(c) <= 1e-12 for c in itertools.product(*tables)), "p-value %r, but the null samples of the blocks differ", got)
            options = np.array([p(size ** 2 * np.var(c)) if np.var(c) > 1e-14 else math.nan for c in itertools.product(*tables)], float)
            options = options[np.isfinite(options)]
            if math.isfinite(got) and len(options):
                ctx.require(np.abs(options - got).min() < 1e-5, "p-value %r does not come from any reordering of the blocks", got)
        else:
            want = p(2 * np.mean(vx) * np.mean(vy) if case["how"] == "direct" else np.var(stats))
            if want is not None:
                ctx.close(got, want, "p-value of the block test (%s, streamed: %s)" % (case["how"], stream), rtol=1e-5, atol=1e-9)
    t, args, gen = make(B, case, x, y, blocksize=size, nullvarmethod="none of these")
    ctx.raises(Exception, lambda: t.compute_pvalue(*args), "an unknown way to estimate the variance")
    ctx.nontrivial(bool(case["dep"]) or a != b)
    ctx.label(case["how"])
    ctx.label("rows left over", n % size)


@SUITE.sub("spectrum", strategy=setups((12, 8, 20)), quick=500, thorough=10000, shards=4)
def spectrum(case, ctx):
    _, P, _, S = objects()
    x, y = sample(case, case["n"])
    n = case["n"]
    a, b = widths(case, x, y)
    K, L = Kernel(a).kernel(x), Kernel(b).kernel(y)
    features = case["how"] == "across"
    kw = dict(rff=True, num_rfx=6, num_rfy=4) if features else {}
    unbiased = case["unbiased"] and not features
    t, args, gen = make(S, case, x, y, num_nullsims=400, unbiased=unbiased, **kw)
    c = lambda A: A - A.mean(0) - A.mean(1)[:, None] + A.mean()
    if features:
        f, g = Kernel(a), Kernel(b)
        f.rff_generate(6, x.shape[1]), g.rff_generate(4, y.shape[1])
        F, G = f.rff_expand(x), g.rff_expand(y)
        lx, ly = np.linalg.eigvalsh(np.cov(F.T)), np.linalg.eigvalsh(np.cov(G.T))
        stat, M = FV(F, G), (F, G)
    else:
        lx, ly = np.linalg.eigvalsh(c(K)), np.linalg.eigvalsh(c(L))
        stat, M = (U(K, L) if unbiased else V(K, L)), (K, L)
    got = t.get_spectrum_on_data(M[0].copy(), M[1].copy())
    ctx.close(np.sort(got[0]), lx, "first spectrum", rtol=1e-6, atol=1e-8)
    ctx.close(np.sort(got[1]), ly, "second spectrum", rtol=1e-6, atol=1e-8)
    null = np.asarray(t.get_null_samples_with_spectral_approach(M[0].copy(), M[1].copy()), float)
    ctx.require(null.shape == (400,), "%r null samples", null.shape)
    mean = 0 if unbiased else lx.sum() * ly.sum()
    sd = math.sqrt(2 * (lx ** 2).sum() * (ly ** 2).sum())
    ctx.require(abs(null.mean() - mean) <= 8 * sd / 20, "mean %r of the null samples instead of %r (deviation %r)", null.mean(), mean, sd)
    ctx.require(.3 * sd <= null.std() <= 3 * sd, "deviation %r of the null samples instead of %r", null.std(), sd)
    r, _, _, _, Mx, My, _ = t.HSICmethod(*args, unbiased=unbiased) if args else (t.generate_data(), t.HSICmethod(unbiased=unbiased))[1]
    ctx.close(r, stat, "statistic", rtol=1e-7, atol=1e-10)
    if features:
        ctx.close(Mx, F, "first features")
        ctx.close(My, G, "second features")
        _, p2, *_ = t.HSICmethod(*args, unbiased=False, num_shuffles=5) if args else t.HSICmethod(unbiased=False, num_shuffles=5)
        ctx.require(np.shape(p2) == (5,) and np.all(np.asarray(p2) >= 0), "null samples of features %r", p2)
    p = float(t.compute_pvalue(*args))
    ctx.require(1 / 401 - 1e-12 <= p <= 1 + 1e-12 and abs(p * 401 - round(p * 401)) < 1e-6, "p-value %r of 400 simulations", p)
    r = np.random.RandomState(3)
    z = r.randn(20000 if n <= 20 else 2500, len(lx), len(ly)) ** 2 - (1 if unbiased else 0)
    want = (np.einsum("i,kij,j->k", lx, z, ly) > n * stat * (n ** 2 if unbiased else 1)).mean()
    ctx.require(abs(p - want) <= 6 * math.sqrt(max(want * (1 - want), .002) / (400 if n <= 20 else 340)) + .01, "p-value %r instead of %r", p, want)
    # features, reordered: the statistic of some reordering
    if features and n == 8:
        small = slice(0, 5)
        q, args, _ = make(P, dict(case, given="arguments", mx=False, my=False), x[small], y[small], num_shuffles=20, unbiased=False, rff=True, num_rfx=6, num_rfy=4)
        s, null, *_ = q.HSICmethod(*args, unbiased=False, num_shuffles=20)
        f, g = Kernel(case["wx"]), Kernel(case["wy"])
        f.rff_generate(6, x.shape[1]), g.rff_generate(4, y.shape[1])
        F, G = f.rff_expand(x[small]), g.rff_expand(y[small])
        ctx.close(s, FV(F, G), "statistic of features", rtol=1e-7, atol=1e-10)
        ctx.require(member(np.asarray(null), np.array([FV(F, G[list(o)]) for o in itertools.permutations(range(5))])).all(), "a null sample is not the statistic of a reordering of the features")
        p = float(q.compute_pvalue(*args))
        ctx.require(abs(p * 21 - round(p * 21)) < 1e-6 and p >= 1 / 21 - 1e-12, "p-value %r of 20 reorderings", p)
    ctx.nontrivial(bool(case["dep"]) or a != b)
    ctx.label("features" if features else "matrices")


@SUITE.sub("induced", strategy=setups((12, 20)), quick=200, thorough=4000, shards=2)
def induced(case, ctx):
    """A Nystroem approximation on the whole sample reproduces the kernel matrix."""
    T, _, _, S = objects()
    x, y = sample(case, case["n"])
    kx, ky = kernels(case)
    z, w = x[:9], y[:9]
    t = T(len(x), data_generator=lambda n: (z[:n].copy(), w[:n].copy()), kernelX=kx, kernelY=ky, induce_set=True, num_inducex=9, num_inducey=9)
    f, g = t.compute_induced_kernel_matrix_on_data(x, y)
    for got, k, a, b in ((f, kx, x, z), (g, ky, y, w)):
        want = k.kernel(a, b) @ np.linalg.inv(k.kernel(b) + 1e-6 * np.eye(9)) @ k.kernel(b, a)
        ctx.close(np.real(got) @ np.real(got).T, want, "approximated kernel matrix", rtol=1e-3, atol=1e-3)
    s, null, *_ = t.HSICmethod(x, y, unbiased=False, num_shuffles=3)
    ctx.close(s, FV(np.real(f), np.real(g)), "statistic on the induced features", rtol=1e-3, atol=1e-6)
    q = S(len(x), kernelX=kx, kernelY=ky, induce_set=True, num_inducex=6, num_inducey=6, num_nullsims=50)
    p = float(q.compute_pvalue(x, y))
    ctx.require(1 / 51 - 1e-9 <= p <= 1 + 1e-9, "p-value %r", p)
    ctx.nontrivial(bool(case["dep"]))


# many samples: blocked or thinned computations would show
SUITE.sub("spectrum many rows", strategy=st.tuples(setups((12,)), st.sampled_from([45, 70])).map(lambda t: dict(t[0], n=t[1])), quick=16, thorough=300, shards=8)(spectrum)
SUITE.sub("larger blocks", strategy=st.tuples(setups((5,)), st.sampled_from([20, 33]), st.sampled_from(["direct", "across"])).map(lambda t: dict(t[0], n=t[1], how=t[2])), quick=48, thorough=1000, shards=4)(blocks)
