"""I03: kernel independence tests against the published formulas."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st
from scipy.special import gammainc, gammaincinv

from harness import tables
from harness.core import Suite

SUITE = Suite("I03", "random tables of 8-60 rows (a few of 201 and 1001) and 2-6 columns, dependent and independent, one- and "
              "two-dimensional arguments, Gaussian (fixed or data-driven width), linear and polynomial kernels, random regularisation; "
              "oracle: own kernel matrices, explicit centring matrices, statistic, moments through the Hadamard product of the "
              "truncated kernels, regularised incomplete gamma function; spectral mode against an own Monte-Carlo null; non-trivial: p-value "
              "strictly between 0.001 and 0.999",
              ["only the explicit-kernel form of the conditional test has a formula oracle; the Gaussian-process form is checked for range, "
               "repeatability and power only"])

KERNELS = ["g1", "g1", "g.3", "median", "kci", "hsic", "lin", "poly"]


@st.composite
def cases(draw, cond=False):
    d = draw(st.sampled_from([4, 5, 3, 6]))
    perm = list(draw(st.permutations(range(d))))
    nx = 2 if d > 4 and draw(st.booleans()) else 1
    ny = 2 if d > 5 and draw(st.booleans()) else 1
    rest = perm[nx + ny:]
    c = {"d": d, "x": perm[:nx], "y": perm[nx:nx + ny], "seed": draw(st.integers(0, 10 ** 6)),
         "rows": draw(st.sampled_from([20, 30, 8, 12, 45, 60, 201])), "dep": draw(st.sampled_from(["none", "weak", "strong", "nonlinear"])),
         "kx": draw(st.sampled_from(KERNELS)), "ky": draw(st.sampled_from(KERNELS)), "frame": draw(st.booleans())}
    if cond:
        c["z"] = rest[:draw(st.sampled_from([1, 1, 2]))]
        c["kz"] = draw(st.sampled_from(["g1", "g.3", "median", "kci", "lin"]))
        c["eps"] = draw(st.sampled_from([None, None, [0.01, 0.01], [0.05, 0.2]]))
        c["rows"] = min(c["rows"], 60)
    return c


def table(case):
    rng = np.random.RandomState(case["seed"])
    n, d = case["rows"], case["d"]
    X = rng.randn(n, d)
    if case["seed"] % 3 == 1:
        X = rng.uniform(-1, 1, (n, d))
    if case["dep"] in ("weak", "strong"):
        X = X @ (np.eye(d) + (0.4 if case["dep"] == "weak" else 1.5) * np.triu(rng.randn(d, d), 1))
    if case["dep"] == "nonlinear":
        for k in range(1, d):
            X[:, k] = np.sin(2 * X[:, k - 1]) + 0.4 * X[:, k]
    if case["seed"] % 4 == 2:
        X = np.round(X * 5).astype(int)
        X[0, :], X[1, :] = 7, -9
    return X


def make_kernel(name):
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
    E = GaussianKernel.WidthStrategyEnum
    return {"g1": lambda: GaussianKernel(), "g.3": lambda: GaussianKernel(0.3), "median": lambda: GaussianKernel(width_strategy=E.median),
            "kci": lambda: GaussianKernel(width_strategy=E.empirical_kci), "hsic": lambda: GaussianKernel(width_strategy=E.empirical_hsic),
            "lin": lambda: LinearKernel(), "poly": lambda: PolynomialKernel(2, 1.0)}[name]()


def gram(name, x):
    x = np.asarray(x, dtype=float)
    n, d = x.shape
    dot = x @ x.T
    if name == "lin":
        return dot
    if name == "poly":
        return (1 + dot) ** 2
    sq = ((x[:, None, :] - x[None, :, :]) ** 2).sum(-1)
    if name == "median":
        dist = np.sqrt(sq)
        w = 1 / (2 * np.median(dist[dist > 0]) ** 2)
    elif name == "kci":
        w = 1 / (1.2 if n < 200 else .7 if n < 1200 else .4) ** 2 / d
    elif name == "hsic":
        w = 1 / (.8 if n < 200 else .5 if n < 1200 else .3) ** 2 * d
    else:
        w = {"g1": 1.0, "g.3": 0.3}[name]
    return np.exp(-.5 * w * sq)


def std(x):
    x = np.asarray(x, dtype=float)
    s = x.std(0, ddof=1)
    return np.where(s > 0, (x - x.mean(0)) / np.where(s > 0, s, 1), 0.0)


def centred(K):
    H = np.eye(len(K)) - 1.0 / len(K)
    return H @ K @ H


def gamma_p(stat, mean, var):
    return 1 - gammainc(mean ** 2 / var, stat * mean / var)


def unconditional(case, X):
    Kx, Ky = centred(gram(case["kx"], std(X[:, case["x"]]))), centred(gram(case["ky"], std(X[:, case["y"]])))
    n = len(X)
    stat = (Kx * Ky).sum()
    return Kx, Ky, stat, gamma_p(stat, np.trace(Kx) * np.trace(Ky) / n, 2 * (Kx ** 2).sum() * (Ky ** 2).sum() / n ** 2)


def truncated(K, thr=1e-5):
    w, v = np.linalg.eigh((K + K.T) / 2)
    keep = w > w.max() * thr
    return (v[:, keep] * w[keep]) @ v[:, keep].T


def conditional(case, X):
    sx, sy, sz = std(X[:, case["x"]]), std(X[:, case["y"]]), std(X[:, case["z"]])
    Kx = centred(gram(case["kx"], np.hstack([sx, .5 * sz])))
    Ky = centred(gram(case["ky"], sy))
    Kz = centred(gram(case["kz"], sz))
    ex, ey = case["eps"] or (1e-3, 1e-3)
    R = lambda e: np.linalg.solve(Kz + e * np.eye(len(X)), e * np.eye(len(X)))
    KxR, KyR = R(ex) @ Kx @ R(ex), R(ey) @ Ky @ R(ey)
    stat = (KxR * KyR).sum()
    M = truncated(KxR) * truncated(KyR)
    return KxR, KyR, stat, gamma_p(stat, np.trace(M), 2 * (M ** 2).sum())


def build(case, X, **kw):
    from cdmir.utils.independence import KCI
    data = tables.frame(X, ["c%d" % (17 * i % 23) for i in range(X.shape[1])]) if case["frame"] else tables.array(X)
    if case["kx"] != "g1" or case["seed"] % 2:
        kw["kernel_x"] = make_kernel(case["kx"])
    if case["ky"] != "g1" or case["seed"] % 2:
        kw["kernel_y"] = make_kernel(case["ky"])
    return KCI(data, **kw), data


def ids(case, cols, k):
    """The same columns as positions, names, list or array."""
    names = ["c%d" % (17 * i % 23) if case["frame"] else "x%d" % i for i in cols]
    forms = [list(cols), names, np.array(cols)] + ([cols[0], names[0]] if len(cols) == 1 else [])
    return forms[k % len(forms)]


def transform(case, X, rng):
    d = X.shape[1]
    return X * rng.choice([0.01, 3.0, -20.0], d) + rng.choice([0, 5.0, -40.0], d)


@SUITE.sub("unconditional", strategy=cases(), quick=700, thorough=15000, shards=4)
def uncond(case, ctx):
    X = table(case)
    keep = X.copy()
    _, _, stat, p = unconditional(case, X)
    t, data = build(case, X)
    for k in range(5):
        got = t(ids(case, case["x"], k), ids(case, case["y"], k + 1), *([None] if k == 2 else [[]] if k == 3 else []))
        ctx.require(len(got) == 2 and 0 <= got[0] <= 1, "returned %r", got)
        ctx.close(got[1], stat, "statistic", rtol=1e-7, atol=1e-9)
        ctx.close(got[0], p, "p-value", rtol=1e-6, atol=1e-8)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    swap = dict(case, kx=case["ky"], ky=case["kx"])
    s, _ = build(swap, X)
    ctx.close(s(case["y"], case["x"]), (p, stat), "swapped arguments", rtol=1e-6, atol=1e-8)
    rng = np.random.RandomState(case["seed"] + 5)
    v, _ = build(case, X[rng.permutation(len(X))])
    ctx.close(v(case["x"], case["y"]), (p, stat), "permuted rows", rtol=1e-6, atol=1e-8)
    if case["kx"] != "poly" and case["ky"] != "poly" and not ("lin" in (case["kx"], case["ky"]) and max(len(case["x"]), len(case["y"])) > 1):
        v, _ = build(case, transform(case, X, rng))
        ctx.close(v(case["x"], case["y"]), (p, stat), "rescaled columns", rtol=1e-5, atol=1e-6)
    ctx.nontrivial(.001 < p < .999)
    ctx.label("p<.05", p < .05)
    ctx.label(case["kx"])


@SUITE.sub("conditional", strategy=cases(cond=True), quick=500, thorough=10000, shards=6)
def cond(case, ctx):
    X = table(case)
    keep = X.copy()
    _, _, stat, p = conditional(case, X)
    kw = {"kernel_z": make_kernel(case["kz"])}
    if case["eps"]:
        kw.update(epsilon_x=case["eps"][0], epsilon_y=case["eps"][1])
    t, data = build(case, X, **kw)
    for k in range(3):
        got = t(ids(case, case["x"], k), ids(case, case["y"], k + 1), ids(case, case["z"], k + 2))
        ctx.require(len(got) == 2 and -1e-12 <= got[0] <= 1 + 1e-12, "returned %r", got)
        ctx.close(got[1], stat, "statistic", rtol=1e-5, atol=1e-10)
        ctx.close(got[0], p, "p-value", rtol=1e-3, atol=1e-4)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    # the same object still answers the unconditional question
    ctx.close(t(case["x"], case["y"])[1], unconditional(case, X)[2], "unconditional statistic of the same object", rtol=1e-7, atol=1e-9)
    rng = np.random.RandomState(case["seed"] + 5)
    v, _ = build(case, X[rng.permutation(len(X))], **kw)
    ctx.close(v(case["x"], case["y"], case["z"])[1], stat, "permuted rows: statistic", rtol=1e-5, atol=1e-10)
    ctx.nontrivial(.001 < p < .999)
    ctx.label("two epsilons", bool(case["eps"]) and case["eps"][0] != case["eps"][1])
    ctx.label("p<.05", p < .05)


@SUITE.sub("spectral", strategy=st.tuples(cases(), cases(cond=True), st.booleans()), quick=120, thorough=3000, shards=4)
def spectral(case, ctx):
    """Monte-Carlo mode against an own simulation of the weighted chi-square null."""
    case = dict(case[1] if case[2] else case[0], cond=case[2])
    case["rows"] = min(case["rows"], 45)
    X = table(case)
    rng = np.random.RandomState(99)
    if case["cond"]:
        A, B, stat, _ = conditional(case, X)
        w = np.linalg.eigvalsh(truncated(A) * truncated(B))
        kw = {"kernel_z": make_kernel(case["kz"])}
        if case["eps"]:
            kw.update(epsilon_x=case["eps"][0], epsilon_y=case["eps"][1])
    else:
        A, B, stat, _ = unconditional(case, X)
        w = np.outer(np.linalg.eigvalsh(A), np.linalg.eigvalsh(B)).ravel() / len(X)
        kw = {}
    w = w[w > w.max() * 1e-6]
    null = sum(v * rng.chisquare(1, 4000) for v in w)
    p = float((null > stat).mean())
    for size in (None, 2000):
        k2 = dict(kw, approximate_mode=False)
        if size:
            k2["null_distribution_sample_size"] = size
        t, _ = build(case, X, **k2)
        got = t(*((case["x"], case["y"], case["z"]) if case["cond"] else (case["x"], case["y"])))
        ctx.require(0 <= got[0] <= 1, "p-value %r", got[0])
        ctx.close(got[1], stat, "statistic in spectral mode", rtol=1e-5, atol=1e-9)
        slack = 6 * np.sqrt(max(p * (1 - p), .002) * (1 / 4000 + 1 / 1000))
        ctx.require(abs(got[0] - p) <= slack, "spectral p-value %r, simulated null %r", got[0], p)
        m = size or 1000
        ctx.require(abs(got[0] * m - round(got[0] * m)) < 1e-6 or size is None, "p-value %r is no multiple of 1/%d", got[0], m)
    ctx.nontrivial(.001 < p < .999)


@st.composite
def large(draw):
    return {"rows": draw(st.sampled_from([1001, 1003])), "seed": draw(st.integers(0, 1000)), "dep": draw(st.sampled_from(["none", "strong"])),
            "d": 3, "x": [0], "y": [2], "kx": "g1", "ky": "g1", "frame": draw(st.booleans())}


@SUITE.sub("more_than_1000_rows", strategy=large(), quick=3, thorough=30, shards=3)
def more(case, ctx):
    """Above 1000 rows printed forms are abbreviated and other code paths are taken."""
    case = dict(case, seed=case["seed"] * 12)
    X = table(case)
    t, _ = build(case, X)
    got = t(0, 2)
    _, _, stat, p = unconditional(case, X)
    ctx.close(got[1], stat, "statistic", rtol=1e-6)
    ctx.close(got[0], p, "p-value", rtol=1e-5, atol=1e-7)
    c2 = dict(case, x=[1], y=[2])
    ctx.close(t(1, 2)[1], unconditional(c2, X)[2], "statistic of another pair of the same object", rtol=1e-6)
    s, _ = build(case, X, approximate_mode=False)
    q = s(0, 2)
    ctx.close(q[1], stat, "statistic in spectral mode", rtol=1e-6)
    ctx.require(abs(q[0] - p) < .12, "spectral p-value %r, gamma approximation %r", q[0], p)
    ctx.nontrivial(True)


@SUITE.sub("gaussian_process", strategy=cases(cond=True), quick=40, thorough=600, shards=8)
def gp(case, ctx):
    case = dict(case, rows=min(case["rows"], 30), kx="g1", ky="g1")
    X = table(case)
    t, _ = build(case, X)
    a = t(case["x"], case["y"], case["z"])
    ctx.require(np.isfinite(a[1]) and a[1] > -1e-9 and 0 <= a[0] <= 1, "returned %r", a)
    b = build(case, X)[0](case["x"], case["y"], case["z"])
    ctx.close(a, b, "a fresh object", rtol=1e-9)
    ctx.close(t(case["x"], case["y"], case["z"]), a, "asked again", rtol=0, atol=0)
    ctx.nontrivial(.001 < a[0] < .999)


@st.composite
def power(draw):
    return {"seed": draw(st.integers(0, 10 ** 6)), "truth": draw(st.sampled_from(["chain", "direct"]))}


@SUITE.sub("gaussian_process_power", strategy=power(), quick=12, thorough=200, shards=6)
def gp_power(case, ctx):
    """x <- z -> y: small conditional statistic; x <- z -> y plus x -> y: rejected."""
    rng = np.random.RandomState(case["seed"])
    n = 80
    z = rng.randn(n)
    x = np.tanh(z) + .5 * rng.randn(n)
    y = (2.5 * x if case["truth"] == "direct" else 0) + np.sin(z) + .3 * rng.randn(n)
    from cdmir.utils.independence import KCI
    p, _ = KCI(np.c_[x, y, z])(0, 1, 2)
    if case["truth"] == "direct":
        ctx.require(p < 1e-3, "strong conditional dependence gets p=%r", p)
    else:
        ctx.require(p > 1e-7, "conditional independence gets p=%r", p)
    ctx.nontrivial()


@SUITE.sub("functional", strategy=cases(), quick=500, thorough=10000, shards=2)
def functional(case, ctx):
    from cdmir.utils.independence.functional import KCI
    from cdmir.utils.independence.functional import HSIC
    case = dict(case, kx="g1", ky="g1", seed=case["seed"] * 12 + 1)  # continuous tables
    X = table(case).astype(float)
    x, y = X[:, case["x"]], X[:, case["y"]]
    kx_, ky_ = x.copy(), y.copy()
    _, _, stat, p = unconditional(case, X)
    got = KCI().test(x, y)
    ctx.close(got, (p, stat), "functional kernel test", rtol=1e-6, atol=1e-8)
    ctx.close(KCI().test(y, x), got, "functional kernel test, swapped", rtol=1e-6, atol=1e-8)
    n = len(X)

    def rbf(v):
        sq = ((v[:, None, :] - v[None, :, :]) ** 2).sum(-1)
        up = sq[np.triu_indices(n, 1)]
        return np.exp(-sq / np.median(up[up > 0]))  # width^2 = median/2
    K, L = rbf(x), rbf(y)
    Kc, Lc = centred(K), centred(L)
    h = (Kc * Lc).sum() / n
    V = (Kc * Lc / 6) ** 2
    var = (V.sum() - np.trace(V)) / n / (n - 1) * 72 * (n - 4) * (n - 5) / n / (n - 1) / (n - 2) / (n - 3)
    off = ~np.eye(n, dtype=bool)
    mx, my = K[off].mean(), L[off].mean()
    m = (1 + mx * my - mx - my) / n
    for alpha in (None, .01, .05, .3):
        out = HSIC.hsic_gam(x, y) if alpha is None else HSIC.hsic_gam(x, y, alpha)
        a = alpha or .01
        ctx.close(out[0], h, "HSIC statistic", rtol=1e-6, atol=1e-9)
        want = gammaincinv(m ** 2 / var, 1 - a) * var * n / m
        ctx.close(out[1], want, "HSIC threshold at %g" % a, rtol=1e-5, atol=1e-9)
        if len(case["x"]) == len(case["y"]) == 1 and abs(h / want - 1) > 1e-6:
            r = HSIC.test(x[:, 0], y[:, 0], a)
            ctx.require(r is (h < want) or r == (h < want), "HSIC.test at %g says %r, statistic %r, threshold %r", a, r, h, want)
    ctx.close(HSIC.hsic_gam(y, x), HSIC.hsic_gam(x, y), "HSIC, swapped", rtol=1e-7)
    ctx.require(np.array_equal(x, kx_) and np.array_equal(y, ky_), "the data were modified")
    ctx.nontrivial(.001 < p < .999)
