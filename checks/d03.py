"""D03: time-lag simulation, step by step against the lagged mechanism."""
import numpy as np
from hypothesis import strategies as st

from harness import graphs as hg
from harness import tables
from harness.core import Suite, same
from harness.noise import check_family, check_mean_zero, check_uncorrelated

SUITE = Suite("D03", "random stacks of 1-4 (and 7) lag matrices over 1-5 (and 8-11) variables (instantaneous cycles allowed, asymmetric over lags), every noise type, "
              "default, scalar and per-variable scales, lengths 0-1500 and default, random seeds; oracles: each linear step minus the lag-weighted past (oldest lag "
              "first) is fresh noise (distribution, serial and cross independence); variables with silenced noise follow the exact lagged function; changing "
              "one scale at a fixed seed leaves everything without a lagged path from it bit-identical; non-trivial: some lag matrix is non-zero",
              ["comparison of runs with equal seeds relies on noise being drawn independently of its scale"])

ADD = ["gauss", "exp", "gumbel", "uniform", "laplace"]
F = {"tanh": lambda x, s: np.tanh(x), "cos": lambda x, s: np.cos(x), "leaky_relu": lambda x, s: np.where(x > 0, x, s * x)}


@st.composite
def stacks(draw, binary=False, lengths=(600, 1500, 60, 5)):
    n, lags = draw(st.sampled_from([(n, lag) for n in (3, 2, 4, 1, 5) for lag in (2, 1, 3, 4)] + [(8, 2), (3, 7), (11, 1)]))
    sparse = draw(st.booleans())
    cells = st.sampled_from([0, 0, 0, 1] if sparse else [0, 1, 1])
    w = st.just(1.0) if binary else st.sampled_from([.9, -.7, .4, -.25, .1])
    M = [[[draw(cells) and draw(w) for _ in range(n)] for _ in range(n)] for _ in range(lags)]
    kind = draw(st.sampled_from([None, "scalar", "intscalar", "list", "array", "intarray"]))
    ints = kind in ("intscalar", "intarray")
    return {"n": n, "lags": lags, "M": M, "scale_kind": kind, "scales": [draw(st.sampled_from([1, 2, 3] if ints else [1.0, .3, 2.0])) for _ in range(n)],
            "noise": draw(st.sampled_from(ADD)), "seed": draw(st.one_of(st.integers(0, 50), st.integers(0, 2 ** 32 - 1))), "length": draw(st.sampled_from(lengths)),
            "give_lag": draw(st.booleans())}


def stack(case, stable=False):
    M = np.array(case["M"], dtype=float)
    if stable:
        tot = np.abs(M).sum(axis=0).sum(axis=0).max()
        if tot > .9:
            M = M * (.9 / tot)
    return M


def scales(case):
    k, s, n = case["scale_kind"], case["scales"], case["n"]
    if k is None:
        return None, [1.0] * n
    if k in ("scalar", "intscalar"):
        return s[0], [s[0]] * n
    return (list(s) if k == "list" else np.array(s)), list(s)


def run(kind, M, case, arg, **kw):
    from cdmir.datasets.simlulators import TimeLagSimulator
    args = dict(length=case["length"], noise_type=case["noise"], seed=case["seed"], max_lag=case["lags"] if case["give_lag"] else None)
    if arg is not None:
        args["noise_scale"] = arg
    args.update(kw)
    return getattr(TimeLagSimulator, {"linear": "simulate_linear_anm", "anm": "simulate_nonlinear_anm", "pnl": "simulate_pnl"}[kind])(tables.array(M), **args)


def affected(M, k):
    """Variables reachable from k along lagged edges."""
    out, todo = {k}, [k]
    while todo:
        a = todo.pop()
        for b in np.nonzero(np.abs(M[:, a, :]).sum(axis=0))[0]:
            if b not in out:
                out.add(int(b))
                todo.append(int(b))
    return out


def common(kind, M, case, ctx, **kw):
    arg, eff = scales(case)
    n, lags = case["n"], case["lags"]
    keep, karg = M.copy(), None if arg is None else np.array(arg)
    X = run(kind, M, case, arg, **kw)
    ctx.require(isinstance(X, np.ndarray) and X.shape == (lags + case["length"], n), "shape %r for %d lags and length %d", np.shape(X), lags, case["length"])
    ctx.require(np.isfinite(X).all(), "non-finite series")
    np.random.rand(3)
    ctx.require(same(run(kind, M, case, arg, **kw), X), "the same seed gives another series")
    ctx.require(not np.array_equal(run(kind, M, case, arg, **{**kw, "seed": (case["seed"] + 1) % 2 ** 32}), X), "another seed gives the same series")
    ctx.require(np.array_equal(M, keep) and (arg is None or np.array_equal(karg, np.array(arg))), "an input was modified")
    if case["noise"] in ADD:
        k = case["seed"] % n
        new = [float(s) for s in eff]
        new[k] *= 1.5
        Y = run(kind, M, case, new, **kw)
        reach = affected(M, k)
        for j in range(n):
            if j not in reach:
                ctx.require(same(Y[:, j], X[:, j]), "variable %d changes with the noise of %d although no lagged path leads there (%r)", j, k, case["M"])
        if kw.get("f_bounded") is None:
            direct = np.nonzero(np.abs(M[:, k, :]).sum(axis=0))[0]
            for j in direct:
                if case["length"] > 20 and kind == "linear":
                    ctx.require(np.mean(np.abs(Y[lags:, j] - X[lags:, j]) > 1e-12) > .3, "variable %d does not react to its lagged parent %d", j, k)
    ctx.nontrivial(np.any(M != 0) and case["length"] > 5)
    ctx.label(case["noise"])
    ctx.label("%d lags" % lags)
    return X, eff


@st.composite
def linear_cases(draw):
    d = draw(stacks())
    if draw(st.sampled_from([False, False, False, True])):
        d["noise"] = "logistic"
    return d


@SUITE.sub("linear", strategy=linear_cases(), quick=350, thorough=10000, shards=8)
def linear(case, ctx):
    M = stack(case, stable=True)
    n, lags, T = case["n"], case["lags"], case["length"]
    X, eff = common("linear", M, case, ctx)
    past = np.zeros((T, n))
    for lag in range(lags):
        past += X[lag:lag + T] @ M[lag]  # M[0] meets the oldest of the last `lags` rows
    if case["noise"] == "logistic":
        V = X[lags:]
        ctx.require(np.isin(V, (0.0, 1.0)).all(), "logistic series takes values other than 0 and 1")
        p = 1 / (1 + np.exp(-past))
        for j in range(n):
            r, var = V[:, j] - p[:, j], p[:, j] * (1 - p[:, j])
            if T:
                check_mean_zero(ctx, r, var, np.ones(T), "variable %d against its conditional mean" % j)
                c = past[:, j] - past[:, j].mean()
                check_mean_zero(ctx, r, var, c, "variable %d against its linear predictor" % j)
                for lag in range(lags):
                    for q in range(n):
                        if M[lag, q, j]:
                            check_mean_zero(ctx, r, var, X[lag:lag + T, q] - .5, "variable %d against parent %d at lag position %d" % (j, q, lag))
    else:
        E = X[lags:] - past
        for j in range(n):
            if T >= 20:
                check_family(ctx, E[:, j], case["noise"], eff[j], "noise of variable %d" % j)
            check_family(ctx, np.r_[X[:lags, j], E[:, j]], case["noise"], eff[j], "initial values and noise of variable %d" % j)
            for k in range(n):
                if k < j:
                    check_uncorrelated(ctx, E[:, j], E[:, k], "noise of variables %d and %d" % (k, j))
                check_uncorrelated(ctx, E[1:, j], E[:-1, k], "noise of variable %d and the preceding noise of %d" % (j, k))


@st.composite
def anm_cases(draw):
    d = draw(stacks(binary=True, lengths=(400, 100, 30)))
    d.update(func=draw(st.sampled_from(["mim", "mlp", None])), hidden=draw(st.sampled_from([None, 1, 4])))
    return d


@SUITE.sub("nonlinear", strategy=anm_cases(), quick=200, thorough=5000, shards=8)
def nonlinear(case, ctx):
    M = stack(case)
    n, lags, T = case["n"], case["lags"], case["length"]
    kw = {}
    if case["func"]:
        kw["func_type"] = case["func"]
    if case["hidden"]:
        kw["hidden"] = case["hidden"]
    X, eff = common("anm", M, case, ctx, **kw)
    fam, h = case["func"] or "mlp", case["hidden"] or 100
    for j in range(n):
        check_family(ctx, X[:lags, j], case["noise"], eff[j], "initial values of variable %d" % j)
    for j in range(min(n, 3)):
        s = [float(x) for x in eff]
        s[j] = 0.0
        S = run("anm", M, case, s, **kw)
        ctx.require(np.abs(S[:lags, j]).max() == 0, "initial values of a variable with noise scale zero")
        v = S[lags:, j]
        # weighted parents of j: P[t, lag, q]
        P = np.stack([S[lag:lag + T] * M[lag, :, j] for lag in range(lags)], axis=1)
        size = np.abs(P).reshape(T, -1).sum(axis=1)
        if fam == "mim":
            ctx.require(np.abs(v).max() <= 3 + 1e-9, "mim value %r", np.abs(v).max())
            bad = np.abs(v - 1) > np.minimum(6 * size, 4) + 1e-9
            ctx.require(not bad.any(), "mim variable %d is %r where its lagged parents sum to %r in magnitude", j, v[bad][:1], size[bad][:1])
        else:
            ctx.require(np.abs(v).max() <= 2 * h + 1e-9, "mlp value %r with %d hidden units", np.abs(v).max(), h)
            if h == 1:
                lo = .5 / (1 + np.exp(np.minimum(2 * size, 700))) - 1e-9
                hi = 2 / (1 + np.exp(-np.minimum(2 * size, 700))) + 1e-9
                bad = (np.abs(v) < lo) | (np.abs(v) > hi)
                ctx.require(not bad.any(), "mlp variable %d is %r where its lagged parents sum to %r in magnitude", j, v[bad][:1], size[bad][:1])
        if not np.any(M[:, :, j]):
            # no parents: value = constant function + fresh noise
            if fam == "mim":
                check_family(ctx, X[lags:, j] - 1, case["noise"], eff[j], "variable %d without parents" % j)
        elif T >= 100:
            ctx.require(v.std() > 1e-6, "variable %d is constant although it has lagged parents", j)
            if fam == "mim" and np.any(np.abs(M[:, [q for q in range(n) if q != j], j])):
                ctx.require(np.mean(np.abs(v - 1) > 1e-6) > .3, "variable %d ignores its lagged parents", j)
        if same(S[:, [q for q in range(n) if q != j]], X[:, [q for q in range(n) if q != j]]) and not M[:, j, j].any():
            check_family(ctx, (X - S)[lags:, j], case["noise"], eff[j], "own noise of variable %d" % j)
    ctx.label("%s hidden %s" % (case["func"], case["hidden"]))


@st.composite
def pnl_cases(draw):
    d = draw(stacks(binary=True, lengths=(300, 80, 20)))
    chain = st.one_of(st.sampled_from(["tanh", "cos", "leaky_relu", "tanh", "cos", "leaky_relu", "linear"]), st.lists(st.sampled_from(["tanh", "cos", "leaky_relu"]), max_size=3))
    d.update(f1=draw(chain), f2=draw(chain), slope=draw(st.sampled_from([None, .2, .6])))
    return d


def chain(f, x, slope):
    for name in ([f] if isinstance(f, str) else f):
        x = F[name](x, slope)
    return x


def bounded(M, f1, f2):
    return any(f in (["tanh"], ["cos"], "tanh", "cos") for f in (f1, f2)) or any(isinstance(f, list) and {"tanh", "cos"} & set(f) for f in (f1, f2))


@SUITE.sub("post_nonlinear", strategy=pnl_cases(), quick=250, thorough=6000, shards=8)
def post(case, ctx):
    M = stack(case)
    n, lags, T = case["n"], case["lags"], case["length"]
    f1, f2 = case["f1"], case["f2"]
    if not bounded(M, f1, f2):
        M = np.array([np.triu(m, 1) for m in M])  # unbounded functions feeding back on themselves explode
    slope = .2 if case["slope"] is None else case["slope"]
    kw = dict(func1_type=f1, func2_type=f2)
    if case["slope"] is not None:
        kw["neg_slope"] = slope
    X, eff = common("pnl", M, case, ctx, **kw)
    for j in range(n):
        check_family(ctx, X[:lags, j], case["noise"], eff[j], "initial values of variable %d" % j)
    if "linear" in (f1, f2):
        ctx.label("linear layer")
        return
    for j in range(n):
        s = [float(x) for x in eff]
        s[j] = 0.0
        S = run("pnl", M, case, s, **kw)
        inner = np.zeros((T, n))
        for lag in range(lags):
            inner += chain(f1, S[lag:lag + T] * M[lag, :, j], slope)
        ctx.close(S[lags:, j], chain(f2, inner, slope).sum(axis=1), "noise-free variable %d with func1 %r, func2 %r, slope %r" % (j, f1, f2, slope), rtol=1e-7, atol=1e-7)
    if n == 1 and f2 in ("leaky_relu", ["leaky_relu"], []):
        v = X[lags:, 0]
        e = v if f2 == [] else np.where(v > 0, v, v / slope)
        for lag in range(lags):
            e = e - chain(f1, X[lag:lag + T, 0] * M[lag, 0, 0], slope)
        check_family(ctx, e, case["noise"], eff[0], "inner noise")
    ctx.label("f2 %s" % (f2 if isinstance(f2, str) else "list"))


@SUITE.sub("lengths_and_rejections", strategy=stacks(binary=True, lengths=(0, 1, 3)), quick=100, thorough=1500, shards=4)
def lengths(case, ctx):
    M = stack(case, stable=True)
    n, lags = case["n"], case["lags"]
    arg, _ = scales(case)
    for kind in ("linear", "anm", "pnl"):
        ctx.require(run(kind, M, case, arg).shape == (lags + case["length"], n), "%s: wrong shape for length %d", kind, case["length"])
        for m in {lags - 1, lags + 1, lags + 4} - {0}:
            ctx.raises(Exception, lambda: run(kind, M, case, arg, max_lag=m), "%s with max_lag %d for %d lag matrices" % (kind, m, lags))
        for m in {max(2, n - 1), n + 1} - {n}:
            ctx.raises(Exception, lambda: run(kind, M, case, [1.0] * m), "%s with %d scales for %d variables" % (kind, m, n))
        for bad in ("normal", "", None, "poisson") + (() if kind == "linear" else ("logistic",)):
            ctx.raises(Exception, lambda: run(kind, M, case, arg, noise_type=bad), "%s with noise type %r" % (kind, bad))
    if case["seed"] % 5 == 0:
        kind = ("linear", "anm", "pnl")[(case["seed"] // 5) % 3]
        kw = {"hidden": 1} if kind == "anm" else {}
        X = run(kind, M[:, :2, :2], {**case, "n": min(n, 2)}, None, length=None, **kw)
        ctx.require(X.shape == (lags + 5000, min(n, 2)), "%s: default length gives shape %r", kind, X.shape)
        ctx.label("default length")
    ctx.nontrivial(np.any(M != 0))
