"""D02: nonlinear and post-nonlinear simulation against the functional forms and by interventions at a fixed seed."""
import numpy as np
from hypothesis import strategies as st
from scipy import stats
from scipy.optimize import least_squares

from harness import graphs as hg
from harness import tables
from harness.core import Suite, same
from harness.noise import FAMILIES, P_MIN, check_family, check_uncorrelated

SUITE = Suite("D02", "random DAGs over 1-6 (and 9-15) nodes in random node order, both nonlinear families with hidden sizes, post-nonlinear models with single "
              "functions and lists of them, every noise type, default, scalar and per-variable scales, random seeds; oracles: root noise by distribution tests; "
              "at noise scale zero a child is an exact per-sample function of its parents (closed form without linear layers, fitted form for one "
              "parent or one hidden unit, Lipschitz bound otherwise); additive or inverted child noise by distribution tests, every child of post-nonlinear models against fresh draws over the same parents; changing one scale "
              "at a fixed seed changes exactly the descendants; non-trivial: at least one edge",
              ["comparison of runs with equal seeds relies on noise being drawn independently of its scale"])

ADD = ["gauss", "exp", "gumbel", "uniform", "laplace"]
F = {"tanh": lambda x, s: np.tanh(x), "cos": lambda x, s: np.cos(x), "leaky_relu": lambda x, s: np.where(x > 0, x, s * x)}


@st.composite
def base(draw, max_n=6):
    d = draw(st.one_of([hg.dags(min_n=1, max_n=max_n)] * 7 + [hg.big_dags([9, 12, 15], (1, 2, 4))]))
    perm = draw(st.permutations(range(d["n"])))
    kind = draw(st.sampled_from([None, "scalar", "list", "array", "intarray"]))
    return {"n": d["n"], "edges": [[perm[a], perm[b]] for a, b in d["edges"]], "scale_kind": kind,
            "scales": [draw(st.sampled_from([1.0, .5, 2.0] if kind != "intarray" else [1, 2, 3])) for _ in range(d["n"])],
            "noise": draw(st.sampled_from(ADD)), "seed": draw(st.one_of(st.integers(0, 50), st.integers(0, 2 ** 32 - 1))), "rows": draw(st.sampled_from([400, 1200, 2500]))}


@st.composite
def anm(draw):
    d = draw(base())
    d.update(func=draw(st.sampled_from(["mlp", "mim", None])), hidden=draw(st.sampled_from([None, 1, 3, 100])))
    return d


@st.composite
def pnl(draw, linear=True):
    d = draw(base())
    single = ["tanh", "leaky_relu", "cos"] + (["linear"] if linear else [])
    chain = st.lists(st.sampled_from(["tanh", "leaky_relu", "cos"]), min_size=0, max_size=3)
    d.update(f1=draw(st.one_of(st.sampled_from(single), chain)), f2=draw(st.one_of(st.sampled_from(single), chain)), slope=draw(st.sampled_from([None, .2, .5, .01, 1.0])), hidden=None)
    if linear:
        lin = st.lists(st.sampled_from(["tanh", "leaky_relu", "cos", "linear", "linear"]), min_size=1, max_size=4)
        if draw(st.booleans()):
            d["f1"] = draw(lin)
        if draw(st.booleans()):
            d["f2"] = draw(lin)
        if "linear" in d["f1"] and "linear" in d["f2"] and isinstance(d["f1"], str) == isinstance(d["f2"], str):
            d["hidden"] = draw(st.sampled_from([None, 1, 2, 5]))
    return d


def adjacency(case):
    A = np.zeros((case["n"],) * 2, dtype=int)
    for a, b in case["edges"]:
        A[a, b] = 1
    return A


def scales(case):
    k, s, n = case["scale_kind"], case["scales"], case["n"]
    if k is None:
        return None, [1.0] * n
    if k == "scalar":
        return s[0], [s[0]] * n
    return (list(s) if k == "list" else np.array(s)), list(s)


def run(case, arg, kind, **kw):
    from cdmir.datasets.simlulators import IIDSimulator
    args = dict(n_samples=case["rows"], noise_type=case["noise"], seed=case["seed"])
    if arg is not None:
        args["noise_scale"] = arg
    if kind == "anm":
        if case["func"] is not None:
            args["func_type"] = case["func"]
        if case["hidden"] is not None:
            args["hidden"] = case["hidden"]
    else:
        args.update(func1_type=case["f1"], func2_type=case["f2"])
        if case["slope"] is not None:
            args["neg_slope"] = case["slope"]
        if case["hidden"] is not None:
            args["hidden"] = case["hidden"]
    A = kw.pop("A", None)
    args.update(kw)
    return (IIDSimulator.simulate_nonlinear_anm if kind == "anm" else IIDSimulator.simulate_pnl)(tables.array(adjacency(case) if A is None else A), **args)


def common(case, ctx, kind):
    """Shape, finiteness, determinism, roots, interventions. -> data, parents, effective scales"""
    n, (arg, eff) = case["n"], scales(case)
    pa = hg.parents_of(n, [tuple(e) for e in case["edges"]])
    A = adjacency(case)
    keep = A.copy()
    X = run(case, arg, kind, A=A)
    ctx.require(isinstance(X, np.ndarray) and X.shape == (case["rows"], n), "shape %r", getattr(X, "shape", None))
    ctx.require(np.isfinite(X).all(), "non-finite data")
    ctx.require(np.array_equal(A, keep), "the adjacency matrix was modified")
    np.random.rand(3)
    ctx.require(same(run(case, arg, kind), X), "the same seed gives other data")
    roots = [j for j in range(n) if not pa[j]]
    if roots:
        ctx.require(not np.array_equal(run(case, arg, kind, seed=(case["seed"] + 1) % 2 ** 32), X), "another seed gives the same data")
    for j in roots:
        check_family(ctx, X[:, j], case["noise"], eff[j], "root %d" % j)
        for k in roots:
            if k < j:
                check_uncorrelated(ctx, X[:, j], X[:, k], "roots %d and %d" % (k, j))
    k = case["seed"] % n
    new = [float(s) for s in eff]
    new[k] *= 1.25
    Y = run(case, new, kind)
    for j in range(n):
        if j != k and k not in hg.ancestors(pa, {j}):
            ctx.require(same(Y[:, j], X[:, j]), "column %d changes with the noise of %d, which is no ancestor (edges %r)", j, k, case["edges"])
    ctx.nontrivial(len(case["edges"]) > 0)
    ctx.label(case["noise"])
    ctx.label("scale %s" % case["scale_kind"])
    return X, Y, k, pa, eff


def silent(case, j, eff):
    s = [float(x) for x in eff]
    s[j] = 0.0
    return s


def fit_mim(p, v):
    f = lambda w: np.tanh(w[0] * p) + np.cos(w[1] * p) + np.sin(w[2] * p)  # noqa: E731
    best = np.inf
    for a in (-1.2, 1.2):
        for b in (.7, 1.1, 1.6):
            for c in (-1.6, -1.1, -.7, .7, 1.1, 1.6):
                r = least_squares(lambda w: f(w) - v, [a, b, c], xtol=1e-14, ftol=1e-14)
                best = min(best, np.abs(r.fun).max())
                if best < 1e-7:
                    return best
    return best


@SUITE.sub("additive_noise", strategy=anm(), quick=300, thorough=8000, shards=8)
def additive(case, ctx):
    X, Y, k, pa, eff = common(case, ctx, "anm")
    n, rows = case["n"], case["rows"]
    fam = case["func"] or "mlp"
    h = case["hidden"] or 100
    done = 0
    for j in range(n):
        P = sorted(pa[j])
        if not P or done >= 2:
            continue
        done += 1
        S = run(case, silent(case, j, eff), "anm")  # the same draws, child noise switched off
        ctx.close(S[:, P], X[:, P], "parents of %d after switching its noise off" % j, rtol=0, atol=0)
        v, p = S[:, j], X[:, P]
        e = X[:, j] - v
        check_family(ctx, e, case["noise"], eff[j], "own noise of child %d" % j)
        for q in range(n):
            if q != j and j not in hg.ancestors(pa, {q}):
                check_uncorrelated(ctx, e, X[:, q], "own noise of child %d and column %d" % (j, q))
        ctx.require(np.unique(np.round(v, 9)).size > rows // 4 or fam == "mlp", "child %d takes only %d distinct values over %d rows", j, np.unique(np.round(v, 9)).size, rows)
        ctx.require(v.std() > 1e-6, "child %d does not vary with its parents (sd %.3g)", j, v.std())
        # zero parents, same draws: the function at the origin
        s0 = [0.0 if (q == j or q in hg.ancestors(pa, {j})) else float(eff[q]) for q in range(n)]
        grand = any(pa[q] for q in P)
        v0 = None if grand else run(case, s0, "anm")[:, j]
        if fam == "mim":
            ctx.require(np.abs(v).max() <= 3 + 1e-9, "mim child %d reaches %r", j, np.abs(v).max())
            L = 6.0
            if v0 is not None:
                ctx.close(v0, np.ones(rows), "mim child %d at zero parents" % j)
            if len(P) == 1 and fam == "mim":
                m = np.abs(p[:, 0]) < 2.5
                if m.sum() > 30:
                    r = fit_mim(p[m, 0][:300], v[m][:300])
                    ctx.require(r < 1e-4, "child %d of one parent is no tanh+cos+sin of it (best fit leaves %.3g)", j, r)
        else:
            L = h * 1.0
            ctx.require(np.abs(v).max() <= 2 * h + 1e-9, "mlp child %d with %d hidden units reaches %r", j, h, np.abs(v).max())
            if v0 is not None:
                ctx.require(np.ptp(v0) < 1e-9 and np.abs(v0).max() <= h + 1e-9, "mlp child %d at zero parents is %r..%r", j, v0.min(), v0.max())
                if h == 1:
                    w2 = 2 * v0[0]
                    ratio = v / w2
                    ctx.require(ratio.min() >= -1e-12 and ratio.max() <= 1 + 1e-12, "mlp child %d is no sigmoid of its parents", j)
                    m = (ratio > 1e-3) & (ratio < 1 - 1e-3)
                    if m.sum() > 50:
                        z = np.log(ratio[m] / (1 - ratio[m]))
                        w1, *_ = np.linalg.lstsq(p[m], z, rcond=None)
                        ctx.require(np.abs(p[m] @ w1 - z).max() < 1e-5, "mlp child %d with one hidden unit is no sigmoid of a linear combination (off by %.3g)", j, np.abs(p[m] @ w1 - z).max())
                        ctx.require(np.abs(w1).min() > 1e-3, "mlp child %d ignores a parent (weights %r)", j, w1.tolist())
        a, b = np.random.RandomState(0).randint(rows, size=(2, 3000))
        near = np.argsort(p[:, 0])
        a, b = np.r_[a, near[1:]], np.r_[b, near[:-1]]
        dv, dp = np.abs(v[a] - v[b]), np.abs(p[a] - p[b]).sum(axis=1)
        bad = dv > L * dp + 1e-6
        ctx.require(not bad.any(), "child %d differs by %r between samples whose parents differ by %r", j, dv[bad][:1], dp[bad][:1])
        if k in P:
            c = np.mean(np.abs(Y[:, j] - X[:, j]) > 1e-12)
            ctx.require(c > .3, "child %d hardly reacts to its parent %d (%.2f of the samples)", j, k, c)
    ctx.label("%s hidden %s" % (case["func"], case["hidden"]))


def chain(f, x, slope):
    for name in ([f] if isinstance(f, str) else f):
        x = F[name](x, slope)
    return x


@SUITE.sub("post_nonlinear", strategy=pnl(linear=False), quick=300, thorough=8000, shards=8)
def post(case, ctx):
    X, Y, k, pa, eff = common(case, ctx, "pnl")
    n, slope = case["n"], .2 if case["slope"] is None else case["slope"]
    done = 0
    for j in range(n):
        P = sorted(pa[j])
        if not P or done >= 2:
            continue
        done += 1
        S = run(case, silent(case, j, eff), "pnl")
        ctx.close(S[:, P], X[:, P], "parents of %d after switching its noise off" % j, rtol=0, atol=0)
        want = chain(case["f2"], chain(case["f1"], X[:, P], slope), slope).sum(axis=1)
        ctx.close(S[:, j], want, "noise-free child %d of %r with func1 %r, func2 %r, slope %r" % (j, P, case["f1"], case["f2"], case["slope"]))
        ctx.require(X[:, j].std() > 1e-9, "child %d is constant over the samples", j)
        if len(P) == 1 and case["f2"] in ("leaky_relu", ["leaky_relu"], []):
            v = X[:, j]
            inner = v if case["f2"] == [] else np.where(v > 0, v, v / slope)
            e = inner - chain(case["f1"], X[:, P[0]], slope)
            check_family(ctx, e, case["noise"], eff[j], "inner noise of child %d" % j)
            check_uncorrelated(ctx, e, X[:, P[0]], "inner noise of child %d and its parent" % j)
        # one noise term per parent's output: compare with fresh draws of the model over the same parents
        rng = np.random.RandomState(7)
        reps = np.tile(X[:, P], (12, 1))
        own = FAMILIES[case["noise"]].rvs(size=reps.shape, random_state=rng) * float(eff[j])
        ref = chain(case["f2"], chain(case["f1"], reps, slope) + own, slope).sum(axis=1)
        pv = stats.ks_2samp(X[:, j], ref).pvalue
        ctx.require(pv > P_MIN, "child %d of %r (func1 %r, func2 %r, %s noise) is not distributed as its model (KS p-value %.3g; sd %.3g against %.3g)", j, P, case["f1"], case["f2"], case["noise"], pv, X[:, j].std(), ref.std())
        if k in P:
            ctx.require(np.mean(np.abs(Y[:, j] - X[:, j]) > 1e-12) > .3, "child %d hardly reacts to its parent %d", j, k)
    ctx.label("f1 %s" % (case["f1"] if isinstance(case["f1"], str) else "list"))


@SUITE.sub("post_nonlinear_linear_layers", strategy=pnl(), quick=300, thorough=8000, shards=8)
def post_linear(case, ctx):
    X, Y, k, pa, eff = common(case, ctx, "pnl")
    n, slope = case["n"], .2 if case["slope"] is None else case["slope"]
    l1, l2 = ([f] if isinstance(f, str) else f for f in (case["f1"], case["f2"]))
    for j in range(n):
        P = sorted(pa[j])
        if not P:
            continue
        ctx.require(X[:, j].std() > 1e-9, "child %d is constant over the samples", j)
        if k in P:
            ctx.require(np.mean(np.abs(Y[:, j] - X[:, j]) > 1e-13) > .2, "child %d hardly reacts to its parent %d", j, k)
        S = run(case, silent(case, j, eff), "pnl")
        v, p = S[:, j], X[:, P]
        a, b = np.random.RandomState(0).randint(case["rows"], size=(2, 2000))
        near = np.argsort(p[:, 0])
        a, b = np.r_[a, near[1:]], np.r_[b, near[:-1]]
        d = len(P)
        L, width, h = 1.0, d, case["hidden"] or d
        for f in l1:
            if f == "linear":
                L *= 2.0 * max(h, d)
        for f in l2:
            if f == "linear":
                L *= 2.0 * max(h, d)
        L *= max(1.0, slope) * max(h, d)
        dv, dp = np.abs(v[a] - v[b]), np.abs(p[a] - p[b]).sum(axis=1)
        bad = dv > L * dp + 1e-6
        ctx.require(not bad.any(), "noise-free child %d differs by %r between samples whose parents differ by %r", j, dv[bad][:1], dp[bad][:1])
        if set(l1) | set(l2) == {"linear"}:
            w, *_ = np.linalg.lstsq(p, v, rcond=None)
            ctx.require(np.abs(p @ w - v).max() < 1e-6 * max(1, np.abs(v).max()), "a purely linear child %d is no linear combination of its parents", j)
            # heavier or absent noise leaves the residual distribution to the intervention checks
            check_uncorrelated(ctx, X[:, j] - v, p[:, 0], "noise part of linear child %d and its parent" % j)
    ctx.label("hidden %s" % case["hidden"])
    ctx.label("%d linear layers" % (l1 + l2).count("linear"))


@SUITE.sub("rejections", strategy=base(), quick=120, thorough=1500, shards=2)
def rejections(case, ctx):
    n = case["n"]
    case = dict(case, func="mlp", hidden=None, f1="tanh", f2="tanh", slope=None, rows=5)
    rng = np.random.RandomState(case["seed"])
    cyc = rng.permutation(n)[:rng.randint(1, n + 1)]
    C = adjacency(case)
    for a, b in zip(cyc, np.roll(cyc, -1)):
        C[a, b] = 1
    for kind in ("anm", "pnl"):
        for bad in ("normal", "", "logistic", "poisson", None):
            ctx.raises(Exception, lambda: run(case, None, kind, noise_type=bad), "%s noise type %r" % (kind, bad))
        ctx.raises(Exception, lambda: run(case, None, kind, A=C), "%s of the cyclic graph %r" % (kind, C.tolist()))
        for m in {max(2, n - 1), n + 1} - {n}:
            ctx.raises(Exception, lambda: run(case, [1.0] * m, kind), "%s with %d scales for %d variables" % (kind, m, n))
    for bad in ("MLP", "linear", "", None, "gp"):
        ctx.raises(Exception, lambda: run(dict(case, func=None), None, "anm", func_type=bad), "function type %r" % (bad,))
    for bad in ("sigmoid", "", ["tanh", "relu"]):
        ctx.raises(Exception, lambda: run(case, None, "pnl", func1_type=bad), "func1 %r" % (bad,))
        ctx.raises(Exception, lambda: run(case, None, "pnl", func2_type=bad), "func2 %r" % (bad,))
    pa = hg.parents_of(n, [tuple(e) for e in case["edges"]])
    if case["edges"]:
        for f1, f2 in (("tanh", "tanh"), ("linear", "tanh"), (["tanh", "linear"], ["cos"])):
            ctx.raises(Exception, lambda: run(case, None, "pnl", hidden=17, func1_type=f1, func2_type=f2), "a hidden size without linear layers on both sides (%r, %r)" % (f1, f2))
    ctx.nontrivial(any(pa[j] for j in range(n)))
