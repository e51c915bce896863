"""K01: kernel objects return their formula's matrix over any history of calls."""
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness.core import Suite

SUITE = Suite("K01", "histories of 1-8 steps on one kernel object (Gaussian, linear, polynomial): calls on arrays of 1-60 rows (sometimes "
              "199-1250 rows), 1-4 columns, new data, data differing from earlier data in a single entry or in a late digit, transposed or "
              "integer or float32 copies, repeats, parameter and width-rule changes, in-place edits of returned matrices and of inputs; "
              "oracle: the formula evaluated entry by entry with float64 loops over features; non-trivial: a call repeats, or nearly repeats, earlier data "
              "after something changed")

ROWS = st.one_of(st.integers(1, 8), st.sampled_from([20, 40, 60]), st.sampled_from([199, 200, 1001, 1199, 1200, 1250]))


@st.composite
def calls(draw, first=False):
    how = draw(st.sampled_from(["new", "new", "again", "one_entry", "late_digit", "swap_roles"])) if not first else "new"
    c = {"op": "call", "how": how, "n": draw(ROWS), "m": draw(st.sampled_from([None, None, 1, 3, 7, 40])),
         "seed": draw(st.integers(0, 50)), "kind": draw(st.sampled_from(["normal", "int", "grid", "big", "float32", "fortran"])),
         "where": draw(st.integers(0, 10 ** 6))}
    return c


@st.composite
def params(draw, kernel):
    if kernel == "gauss":
        return {"op": "set", "width": draw(st.sampled_from([0.1, 0.5, 1.0, 2.5, 1.0000001])),
                "strategy": draw(st.sampled_from(["manual", "manual", "median", "empirical_kci", "empirical_hsic"]))}
    if kernel == "poly":
        return {"op": "set", "degree": draw(st.sampled_from([1, 2, 3, 5])), "const": draw(st.sampled_from([0.0, 1.0, -2.0, 0.5]))}
    return {"op": "edit_result"}


@st.composite
def cases(draw):
    kernel = draw(st.sampled_from(["gauss", "gauss", "linear", "poly"]))
    p = params(kernel)
    init = draw(p)
    steps = [draw(calls(True))] + draw(st.lists(st.one_of(calls(), calls(), p, st.just({"op": "edit_result"}), st.just({"op": "edit_input"})),
                                                max_size=8))
    return {"kernel": kernel, "d": draw(st.integers(1, 4)), "init": init, "defaults": draw(st.booleans()), "steps": steps}


def make(case, init):
    from cdmir.utils.kernel import GaussianKernel, LinearKernel, PolynomialKernel
    k = case["kernel"]
    if k == "linear":
        return LinearKernel()
    if k == "poly":
        return PolynomialKernel() if case["defaults"] else PolynomialKernel(degree=init["degree"], const=init["const"])
    if case["defaults"]:
        return GaussianKernel()
    return GaussianKernel(width=init["width"], width_strategy=GaussianKernel.WidthStrategyEnum[init["strategy"]])


def array(c, rows, d, salt):
    rng = np.random.RandomState(c["seed"] * 10 + salt)
    kind = c["kind"]
    if kind == "int":
        return rng.randint(-4, 5, (rows, d))
    if kind == "grid":
        return rng.randint(0, 3, (rows, d)) / 2.0
    x = rng.randn(rows, d)
    if kind == "big":
        x = x * 30 + 5
    if kind == "float32":
        x = x.astype(np.float32)
    if kind == "fortran":
        x = np.asfortranarray(x)
    return x


def sqdist(x, y):
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    out = np.zeros((len(x), len(y)))
    for k in range(x.shape[1]):
        out += (x[:, k][:, None] - y[:, k][None, :]) ** 2
    return out


def width_rule(strategy, xs, ctx, kernel):
    n, d = xs.shape
    if strategy == "median":
        dist = np.sqrt(sqdist(xs, xs))
        pos = dist[dist > 0]
        if not len(pos):
            return None
        m = np.median(pos)
        w = 1.0 / (2 * m ** 2)
        if n > 1000:  # the rule works on a random subset of 1000 rows
            ctx.require(abs(kernel.width / w - 1) < 0.2, "median width %r, the median rule on all rows gives %r", kernel.width, w)
            return kernel.width
        return w
    base = {"empirical_kci": (1.2, 0.7, 0.4), "empirical_hsic": (0.8, 0.5, 0.3)}[strategy]
    w = base[0] if n < 200 else base[1] if n < 1200 else base[2]
    return 1 / w ** 2 / d if strategy == "empirical_kci" else 1 / w ** 2 * d


def expected(case, state, xs, ys, ctx, kernel):
    if case["kernel"] == "gauss":
        y = xs if ys is None else ys
        if state["strategy"] != "manual":
            w = width_rule(state["strategy"], np.asarray(xs, dtype=float), ctx, kernel)
            if w is None:
                return None
            state["width"] = w
            ctx.close(kernel.width, w, "width chosen by rule %s" % state["strategy"], rtol=1e-5)
            w = kernel.width
        else:
            w = state["width"]
        return np.exp(-0.5 * sqdist(xs, y) * w)
    dot = np.zeros((len(xs), len(ys)))
    for k in range(xs.shape[1]):
        dot += np.asarray(xs, dtype=float)[:, k][:, None] * np.asarray(ys, dtype=float)[:, k][None, :]
    if case["kernel"] == "linear":
        return dot
    return (state["const"] + dot) ** state["degree"]


@SUITE.sub("histories", strategy=cases(), quick=1600, thorough=40000, shards=8)
def histories(case, ctx):
    from cdmir.utils.kernel import GaussianKernel
    state = dict(case["init"])
    kernel = make(case, state)
    if case["defaults"]:
        state.update({"width": 1.0, "strategy": "manual", "degree": 2, "const": 1.0})
    last, prev = None, None
    changed = False
    for step in case["steps"]:
        if step["op"] == "set":
            changed = True
            state.update({k: v for k, v in step.items() if k != "op"})
            if case["kernel"] == "gauss":
                kernel.width = step["width"]
                kernel.width_strategy = GaussianKernel.WidthStrategyEnum[step["strategy"]]
            else:
                kernel.degree, kernel.const = step["degree"], step["const"]
            continue
        if step["op"] == "edit_result":
            if last is not None:
                last += 1000
                changed = True
            continue
        if step["op"] == "edit_input":
            if prev is not None:
                prev[0][0, 0] += 1
                changed = True
            continue
        how = step["how"]
        if how == "new" or prev is None:
            xs = array(step, step["n"], case["d"], 1)
            ys = array(step, step["m"] if step["m"] else step["n"], case["d"], 2)
            if step["m"] is None:
                ys = None if case["kernel"] == "gauss" and step["seed"] % 2 else xs
        else:
            xs, ys = prev
            if how in ("one_entry", "late_digit"):
                xs = np.array(xs, order="K")
                i = step["where"] % xs.size
                xs[i // xs.shape[1], i % xs.shape[1]] += 1 if how == "one_entry" else (1e-7 if xs.dtype.kind == "f" else 1)
            elif how == "swap_roles" and ys is not None:
                xs, ys = ys, xs
            ctx.nontrivial(changed or how != "again")
        if case["kernel"] != "gauss" and ys is None:
            ys = xs
        if case["kernel"] == "gauss" and state["strategy"] == "median" and len(np.unique(np.asarray(xs, dtype=float), axis=0)) < 2:
            continue
        kx, ky = np.array(xs), None if ys is None else np.array(ys)
        np.random.seed(1)
        got = kernel(xs, ys)
        ctx.require(np.array_equal(kx, xs) and (ys is None or np.array_equal(ky, ys)), "the call modified its inputs")
        want = expected(case, state, xs, ys, ctx, kernel)
        ctx.require(isinstance(got, np.ndarray), "returned a %s", type(got).__name__)
        tol = 1e-4 if np.asarray(xs).dtype == np.float32 or (ys is not None and np.asarray(ys).dtype == np.float32) else 1e-9
        scale = max(1.0, np.abs(want).max())
        ctx.close(np.asarray(got, dtype=float) / scale, want / scale, "kernel matrix of %s after %r" % (case["kernel"], how), rtol=tol, atol=tol)
        if how == "late_digit" and case["kernel"] != "gauss":
            pass
        last, prev = got, (xs, ys)
        ctx.label(case["kernel"])
        ctx.label("over 1000 entries", np.asarray(xs).size > 1000)


@st.composite
def pairs(draw):
    return {"kernel": draw(st.sampled_from(["gauss", "linear", "poly"])), "n": draw(st.sampled_from([5, 600, 1100, 2500])),
            "d": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 1000)), "where": draw(st.integers(0, 10 ** 6)),
            "delta": draw(st.sampled_from([1.0, 1e-3, 1e-6, 1e-8])), "hist": draw(st.integers(0, 3))}


@SUITE.sub("near_duplicates", strategy=pairs(), quick=400, thorough=8000, shards=4)
def near(case, ctx):
    """One object, two almost equal data sets: the answers must be told apart to full precision."""
    k = make({"kernel": case["kernel"], "defaults": True}, {})
    rng = np.random.RandomState(case["seed"])
    x = rng.randn(case["n"], case["d"])
    y = rng.randn(3, case["d"])
    x2 = x.copy()
    i = case["where"] % x.size
    r, c = i // case["d"], i % case["d"]
    x2[r, c] += case["delta"]
    seq = [(x, y), (x2, y)] if case["hist"] % 2 == 0 else [(y, x), (y, x2)]
    for a, b in seq + seq[:case["hist"] // 2]:
        got = k(a, b)
        st_ = {"width": 1.0, "strategy": "manual", "degree": 2, "const": 1.0}
        want = expected({"kernel": case["kernel"]}, st_, a, b, ctx, k)
        ctx.close(got, want, "kernel matrix of %s" % case["kernel"], rtol=1e-11, atol=1e-12)
    ctx.nontrivial()
    ctx.label("delta=%g" % case["delta"])


@st.composite
def frames(draw):
    return {"n": draw(st.integers(2, 40)), "d": draw(st.integers(1, 3)), "seed": draw(st.integers(0, 1000)),
            "strategy": draw(st.sampled_from(["manual", "median", "empirical_kci", "empirical_hsic"]))}


@SUITE.sub("objects_are_independent", strategy=frames(), quick=200, thorough=3000, shards=2)
def objects(case, ctx):
    """Two objects with different parameters, used in alternation, never influence each other."""
    from cdmir.utils.kernel import GaussianKernel, PolynomialKernel
    rng = np.random.RandomState(case["seed"])
    x = rng.randn(case["n"], case["d"])
    y = rng.randn(case["n"] + 1, case["d"])
    E = GaussianKernel.WidthStrategyEnum
    a, b = GaussianKernel(width=0.3), GaussianKernel(width_strategy=E[case["strategy"]])
    p, q = PolynomialKernel(3, 0.5), PolynomialKernel(const=2.0)
    for _ in range(2):
        for u, v in ((x, y), (y, x), (x, x)):
            ctx.close(a(u, v), np.exp(-.15 * sqdist(u, v)), "Gaussian kernel of width 0.3")
            w = 1.0 if case["strategy"] == "manual" else width_rule(case["strategy"], u, ctx, b)
            ctx.close(b(u, v), np.exp(-.5 * w * sqdist(u, v)), "Gaussian kernel with rule %s" % case["strategy"])
            dot = u @ v.T
            ctx.close(p(u, v), (0.5 + dot) ** 3, "polynomial kernel (3, 0.5)")
            ctx.close(q(u, v), (2.0 + dot) ** 2, "polynomial kernel (2, 2.0)")
    ctx.nontrivial(case["n"] > 2)
