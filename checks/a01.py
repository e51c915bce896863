"""A01: additive-noise scores against a direct computation, and their symmetries."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness import tables as guises
from harness.core import Reject, Suite

SUITE = Suite("A01", "pairs of samples of 10-160 (and 210-420) points (additive, multiplicative, independent, heavy-tailed and discrete pairs), random seeds; oracles: "
              "dependence measure from explicit centred Gram matrices with the median width, scores from one residual per sample of scikit-learn's "
              "default Gaussian-process regression, swap, affine and joint-reordering relations; non-trivial: non-constant, dependent samples",
              ["samples with two distinct values closer than 2e-7 of the largest are left out of the dependence relations", "pairs with repeated values are left to the dependence measure: interpolating regressions are ill-conditioned on them", "relations that perturb the regression in the last digits are compared to 1%"])


@st.composite
def pairs(draw, kinds=("cubic", "linear", "indep", "mult", "heavy", "sin")):
    return {"n": draw(st.sampled_from([40, 20, 80, 160, 10])), "kind": draw(st.sampled_from(kinds)),
            "seed": draw(st.integers(0, 10 ** 6)), "a": draw(st.sampled_from([2.0, -1.0, .01, -300.0])), "b": draw(st.sampled_from([0.0, 5.0, -70.0])), "shape": draw(st.sampled_from(["flat", "flat", "column"]))}


def sample(case):
    rng, n = np.random.RandomState(case["seed"]), case["n"]
    x = rng.uniform(-1, 1, n)
    e = rng.uniform(-1, 1, n)
    k = case["kind"]
    if k == "heavy":
        x, e = rng.standard_t(3, n), rng.standard_t(3, n)
    y = {"cubic": x ** 3 + .3 * e, "linear": 2 * x + e, "indep": e, "mult": (x + 2) * (e + 2), "heavy": x + e, "discrete": np.round(2 * x) + np.round(e * 2), "sin": np.sin(4 * x) + .1 * e}[k]
    if k == "discrete":
        x = np.round(2 * x)
        if len(set(x)) < 2 or len(set(y)) < 2:
            x[0], y[0] = x[1] + 1, y[1] + 1
    return guises.array(x), guises.array(y)


def gram(x, width=None):
    d = (x[:, None] - x[None, :]) ** 2
    if width is None:
        u = d[np.triu_indices(len(x), 1)]
        width = np.sqrt(.5 * np.median(u[u > 0]))
    return np.exp(-d / (2 * width ** 2))


def hsic(x, y, wx=None, wy=None):
    K, L = gram(x, wx), gram(y, wy)
    K = K - K.mean(axis=0) - K.mean(axis=1)[:, None] + K.mean()
    return float((K * L).sum() / len(x))


def std(x):
    return (x - x.mean()) / x.std()


def scores(x, y):
    from cdmir.discovery.funtional_based.anm.ANM import ANM
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        f, b = ANM().cause_or_effect(x, y)
    return float(f), float(b)


def residual(x, y):
    from sklearn.gaussian_process import GaussianProcessRegressor
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        gp = GaussianProcessRegressor().fit(x[:, None], y[:, None])
        return np.ravel(gp.predict(x[:, None])) - y


@SUITE.sub("scores", strategy=pairs(), quick=250, thorough=6000, shards=8)
def anm(case, ctx):
    x, y = sample(case)
    kx, ky = x.copy(), y.copy()
    got = scores(x, y)
    xs, ys = std(x), std(y)
    for name, g, a, b in (("forward", got[0], xs, ys), ("backward", got[1], ys, xs)):
        r = residual(a, b)
        if r.std() < 1e-11:  # the regression interpolates: its residual is rounding noise
            ctx.label("vanishing residual")
            continue
        ctx.close(g, hsic(std(r), std(a)), "%s score of a %s pair" % (name, case["kind"]), rtol=1e-2, atol=1e-4)
        ctx.require(g >= -1e-9, "negative score %r", g)
    # memory alignment decides the last bit of the data, which the ill-conditioned regression amplifies (measured: up to 3e-5)
    ctx.close(scores(y, x), got[::-1], "scores of the swapped inputs", rtol=2e-3, atol=1e-6)
    ctx.require(np.array_equal(x, kx) and np.array_equal(y, ky), "an input was modified")
    ctx.close(scores(x, y), got, "scores of a second call", rtol=2e-3, atol=1e-6)
    ctx.close(scores(x.reshape(-1, 1), y.reshape(-1, 1)), got, "scores of column vectors", rtol=2e-3, atol=1e-6)
    ctx.nontrivial(case["kind"] != "indep")
    ctx.label(case["kind"])


@SUITE.sub("affine_and_order", strategy=pairs(), quick=160, thorough=3000, shards=8)
def affine(case, ctx):
    x, y = sample(case)
    got = scores(x, y)
    if min(residual(std(x), std(y)).std(), residual(std(y), std(x)).std()) < 1e-11:
        raise Reject()
    new = scores(case["a"] * x + case["b"], y / case["a"] - case["b"])
    ctx.close(new, got, "scores after affine changes of both inputs (%s pair)" % case["kind"], rtol=2e-2, atol=1e-3)
    p = np.random.RandomState(case["seed"]).permutation(len(x))
    ctx.close(scores(x[p], y[p]), got, "scores after reordering the samples (%s pair)" % case["kind"], rtol=2e-2, atol=1e-3)
    ctx.nontrivial(case["kind"] != "indep")


@SUITE.sub("dependence", strategy=pairs(("cubic", "linear", "indep", "mult", "heavy", "discrete", "sin")), quick=800, thorough=20000, shards=4)
def dependence(case, ctx):
    from cdmir.discovery.funtional_based.anm.ANM import FastHsicTestGamma, normalized_hsic, rbf_dot, rbf_dot2
    x, y = sample(case)
    shape = (lambda v: v.reshape(-1, 1)) if case["shape"] == "column" else (lambda v: v)
    for v in (x, y):
        gap = np.diff(np.sort(np.asarray(v, float)))
        if ((gap > 0) & (gap < 2e-7 * np.abs(v).max())).any():
            raise Reject  # such a pair's squared distance is lost in rounding, so it may or may not count for the median
    kx, ky = x.copy(), y.copy()
    want = hsic(std(x), std(y))
    got = float(normalized_hsic(shape(x), shape(y)))
    ctx.close(got, want, "dependence of a %s pair" % case["kind"], rtol=1e-8, atol=1e-10)
    ctx.require(got >= -1e-12, "negative dependence %r", got)
    ctx.close(float(normalized_hsic(shape(y), shape(x))), got, "dependence with the arguments swapped")
    p = np.random.RandomState(case["seed"]).permutation(len(x))
    ctx.close(float(normalized_hsic(shape(x[p]), shape(y[p]))), got, "dependence after reordering samples jointly")
    ctx.close(float(normalized_hsic(shape(case["a"] * x + case["b"]), shape(y))), got, "dependence after an affine change", rtol=1e-6, atol=1e-8)
    most = {"maxpnt": len(x)} if len(x) > 200 else {}  # the raw measure thins longer samples unless told otherwise
    ctx.close(float(FastHsicTestGamma(shape(x), shape(y), **most)), hsic(x, y), "raw dependence with default widths", rtol=1e-8, atol=1e-10)
    w = [abs(case["a"]), abs(case["b"]) + .5]
    ctx.close(float(FastHsicTestGamma(shape(x), shape(y), sig=w, **most)), hsic(x, y, *w), "raw dependence with widths %r" % w, rtol=1e-8, atol=1e-10)
    ctx.close(rbf_dot(shape(x), w[1]), gram(x, w[1]), "kernel matrix of width %r" % w[1])
    ctx.close(rbf_dot(shape(x), -1), gram(x), "kernel matrix of the median width")
    ctx.close(rbf_dot2(shape(x), shape(y), w[1]), np.exp(-(x[:, None] - y[None, :]) ** 2 / (2 * w[1] ** 2)), "cross kernel matrix")
    ctx.require(np.array_equal(x, kx) and np.array_equal(y, ky), "an input was modified")
    ctx.nontrivial(case["kind"] != "indep")
    ctx.label(case["kind"])
    ctx.label(case["shape"])


@SUITE.sub("direction", cases=lambda tier: [{"seed": s} for s in range(4 if tier == "quick" else 20)], quick=4, thorough=20)
def direction(case, ctx):
    """The two scores of a clearly asymmetric pair differ: a score is no function of the pair alone."""
    rng = np.random.RandomState(case["seed"])
    x = rng.uniform(-1, 1, 150)
    f, b = scores(x, x ** 2 + .05 * rng.uniform(-1, 1, 150))
    ctx.require(abs(f - b) > 1e-6, "both directions score %r", f)
    ctx.nontrivial()


@SUITE.sub("large_samples", cases=lambda tier: [{"n": n} for n in (2000, 2001)], quick=3, thorough=3)
def large(case, ctx):
    from cdmir.discovery.funtional_based.anm.ANM import normalized_hsic
    rng = np.random.RandomState(case["n"])
    x = rng.randn(case["n"])
    for y, dep in ((rng.randn(case["n"]), False), (x ** 2, True)):
        got = float(normalized_hsic(x, y))
        want = hsic(std(x), std(y))
        if case["n"] <= 2000:
            ctx.close(got, want, "dependence of %d samples" % case["n"], rtol=1e-8)
        else:  # thinned to 2000 points
            ctx.require(got >= 0 and abs(got * case["n"] / 2000 - want) < (.3 * want if dep else 2.0), "dependence of %d samples is %r, of all of them %r", case["n"], got, want)
    ctx.nontrivial()


# samples past any small bound: only the dependence measure and one pair of scores (the regression is cubic in the samples)
SUITE.sub("dependence_large", strategy=st.tuples(pairs(("cubic", "linear", "indep", "mult", "heavy", "discrete")), st.sampled_from([220, 305, 420])).map(lambda t: dict(t[0], n=t[1])),
          quick=60, thorough=1500, shards=8)(dependence)
SUITE.sub("scores_large", strategy=st.tuples(pairs(("cubic", "linear", "mult")), st.sampled_from([210, 260])).map(lambda t: dict(t[0], n=t[1])), quick=16, thorough=200, shards=8)(anm)
