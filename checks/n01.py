"""N01: continuous structure learning: acyclicity, layers, losses, bounded optimisation, and the learned matrices."""
import contextlib
import importlib
import io

import numpy as np
from hypothesis import strategies as st

from harness import graphs as hg
from harness.core import Suite

SUITE = Suite("N01", "random weight tensors (acyclic and cyclic, 1-7 nodes, 1-4 hidden units), random layer sizes and inputs, random residuals, random bounded quadratics, "
              "equal-variance linear data from random DAGs, bounded data for the logistic and Poisson losses; oracles: trace((I+A/d)^d)-d on the weights' own adjacency, "
              "loops over nodes for the layers, NumPy formulas for the losses, scipy's bounded least squares, central differences of every objective handed to the "
              "optimiser, stationarity of the learned weights, the generating graph; non-trivial: a weight off the diagonal or at least two samples",
              ["recovery is asked only for equal noise variances, weights of magnitude 1 or more, at most one parent per node and at least 1000 samples"])

PKG = "cdmir.discovery.score_based.entropy_based.entropy_based_discovery."


def mod(name):
    import torch
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.double)
    return importlib.import_module(PKG + name)


@contextlib.contextmanager
def hush():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def tensor(a):
    import torch
    return torch.tensor(np.asarray(a, dtype=float))


def trace_h(A):
    d = len(A)
    return np.trace(np.linalg.matrix_power(np.eye(d) + A / d, d)) - d


# ------------------------------------------------------------------ acyclicity
@st.composite
def weights(draw):
    d = draw(st.sampled_from([3, 2, 4, 5, 1, 7]))
    acyclic = draw(st.booleans())
    p = draw(st.permutations(list(range(d))))
    pairs = [(a, b) for a in range(d) for b in range(d) if (p.index(a) < p.index(b) if acyclic else a != b)]
    edges = [list(e) for e in pairs if draw(st.sampled_from([True, False, acyclic]))]
    return {"d": d, "edges": edges, "m": draw(st.sampled_from([1, 2, 4])), "seed": draw(st.integers(0, 10 ** 6)), "loop": draw(st.sampled_from([False, False, False, True])),
            "swap": draw(st.booleans())}


def adjacency_models(case):
    """Models whose weights carry exactly the case's edges: (name, model, A) with A[i, j] the squared weight of i -> j."""
    import torch
    d, m = case["d"], case["m"]
    r = np.random.default_rng(case["seed"])
    on = np.zeros((d, d))
    for a, b in case["edges"]:
        on[a, b] = 1
    if case["loop"]:
        on[d - 1, d - 1] = 1

    def split(T):
        """pos - neg = T with an arbitrary common part"""
        c = r.random(T.shape) * (T != 0)
        pos, neg = np.maximum(T, 0) + c, np.maximum(-T, 0) + c
        return tensor(pos), tensor(neg)

    out = []
    W = r.uniform(.5, 2.0, (d, m, d)) * r.choice([-1, 1], (d, m, d))  # [j, m, i]
    W *= on.T[:, None, :]
    for name in ("nonlinear", "nonlinear_ent"):
        lib = mod(name)
        model = lib.NotearsMLP([d, m, 1], bias=bool(case["seed"] % 2))
        pos, neg = split(W.reshape(d * m, d))
        with torch.no_grad():
            model.fc1_pos.weight.copy_(pos)
            model.fc1_neg.weight.copy_(neg)
        out.append((name + ".NotearsMLP", model, (W ** 2).sum(1).T))
        model = lib.NotearsSobolev(d, m)
        V = np.moveaxis(W, 1, 2)  # [j, i, k]
        pos, neg = split(V.reshape(d, d * m))
        with torch.no_grad():
            model.fc1_pos.weight.copy_(pos)
            model.fc1_neg.weight.copy_(neg)
        out.append((name + ".NotearsSobolev", model, (W ** 2).sum(1).T))
    model = mod("linear_ent").linear_nonGauss(d)
    pos, neg = split(W[:, 0, :])
    with torch.no_grad():
        model.linear_pos.weight.copy_(pos)
        model.linear_neg.weight.copy_(neg)
    out.append(("linear_nonGauss", model, (W[:, 0, :] ** 2).T))
    return out


@SUITE.sub("acyclicity", strategy=weights(), quick=600, thorough=15000, shards=8)
def acyclicity(case, ctx):
    d = case["d"]
    cyclic = case["loop"] or not hg.is_acyclic(d, case["edges"])
    for name, model, A in adjacency_models(case):
        h = model.h_func()
        want = trace_h(A)
        ctx.require(abs(h.item() - want) <= 1e-9 * (1 + abs(want)), "%s: acyclicity %r, expected %r for %r", name, h.item(), want, A.tolist())
        if cyclic:
            ctx.require(h.item() > 0, "%s: acyclicity %r of a cyclic graph %r", name, h.item(), A.tolist())
        else:
            ctx.require(abs(h.item()) < 1e-9, "%s: acyclicity %r of an acyclic graph %r", name, h.item(), A.tolist())
        model.zero_grad()
        h.backward()
        p = [q for q in model.parameters() if q.grad is not None and q.grad.abs().sum() > 0]
        if cyclic:
            ctx.require(p, "%s: no gradient at a cyclic graph", name)
            q = p[case["seed"] % len(p)]
            g = q.grad.numpy().ravel()
            k = int(np.argmax(np.abs(g)))
            flat = q.data.view(-1)
            vals = []
            for e in (1e-5, -1e-5):
                flat[k] += e
                vals.append(model.h_func().item())
                flat[k] -= e
            ctx.require(abs((vals[0] - vals[1]) / 2e-5 - g[k]) <= 1e-4 * (1 + abs(g[k])), "%s: gradient %r, slope %r", name, g[k], (vals[0] - vals[1]) / 2e-5)
        if hasattr(model, "fc1_to_adj"):
            ctx.close(model.fc1_to_adj(), np.sqrt(A), name + ": adjacency from the weights")
        else:
            ctx.close(model.weight_test() ** 2, A, name + ": squared weights")
            ctx.close(model.weight_train().detach().numpy().T, model.weight_test(), name + ": training and test weights")
    ctx.nontrivial(bool(case["edges"]))
    ctx.label("cyclic", cyclic)


# ------------------------------------------------------------------ layers
@st.composite
def layers(draw):
    return {"d": draw(st.sampled_from([3, 2, 4, 1])), "hidden": draw(st.sampled_from([[3], [1], [4, 2], [2, 3, 2], []])), "k": draw(st.sampled_from([2, 1, 4])),
            "rows": draw(st.sampled_from([4, 1, 9])), "bias": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}


def sigmoid(x):
    return 1 / (1 + np.exp(-x))


def fill(model, r):
    import torch
    with torch.no_grad():
        for p in model.parameters():
            p.copy_(tensor(r.standard_normal(tuple(p.shape))))


@SUITE.sub("layers", strategy=layers(), quick=400, thorough=8000, shards=4)
def layer_values(case, ctx):
    import torch
    d, rows = case["d"], case["rows"]
    r = np.random.default_rng(case["seed"])
    x = r.standard_normal((rows, d))
    lc = mod("locally_connected").LocallyConnected(d, 3, 2, bias=case["bias"])
    fill(lc, r)
    inp = r.standard_normal((rows, d, 3))
    T = tensor(inp)
    got = lc(T).detach().numpy()
    w = lc.weight.detach().numpy()
    want = np.array([[inp[s, j] @ w[j] + (lc.bias.detach().numpy()[j] if case["bias"] else 0) for j in range(d)] for s in range(rows)])
    ctx.close(got, want, "LocallyConnected")
    ctx.require(np.array_equal(T.numpy(), inp), "LocallyConnected changed its input")
    for name in ("nonlinear", "nonlinear_ent"):
        lib = mod(name)
        dims = [d] + (case["hidden"] or [1]) + [1] if case["hidden"] else [d, 1]
        model = lib.NotearsMLP(dims, bias=case["bias"])
        fill(model, r)
        W = (model.fc1_pos.weight - model.fc1_neg.weight).detach().numpy()
        b = (model.fc1_pos.bias - model.fc1_neg.bias).detach().numpy() if case["bias"] else np.zeros(len(W))
        out = np.zeros((rows, d))
        for j in range(d):
            z = x @ W[j * dims[1]:(j + 1) * dims[1]].T + b[j * dims[1]:(j + 1) * dims[1]]
            for fc in model.fc2:
                z = sigmoid(z) @ fc.weight.detach().numpy()[j]
                if case["bias"]:
                    z = z + fc.bias.detach().numpy()[j]
            out[:, j] = z[:, 0]
        got = model(tensor(x)).detach().numpy()
        ctx.close(got, out, name + ".NotearsMLP output")
        ctx.close(model.l2_reg().item(), (W ** 2).sum() + sum((fc.weight.detach().numpy() ** 2).sum() for fc in model.fc2), name + ": l2 term")
        ctx.close(model.fc1_l1_reg().item(), (model.fc1_pos.weight + model.fc1_neg.weight).detach().numpy().sum(), name + ": l1 term")
        s = lib.NotearsSobolev(d, case["k"])
        fill(s, r)
        V = (s.fc1_pos.weight - s.fc1_neg.weight).detach().numpy().reshape(d, d, case["k"])
        out = np.zeros((rows, d))
        for j in range(d):
            for i in range(d):
                for k in range(case["k"]):
                    mu = 2.0 / ((2 * k + 1) * np.pi)
                    out[:, j] += V[j, i, k] * mu * np.sin(x[:, i] / mu)
        ctx.close(s(tensor(x)).detach().numpy(), out, name + ".NotearsSobolev output")
        ctx.close(s.l2_reg().item(), (out ** 2).sum() / rows, name + ".NotearsSobolev l2 term")
        y = r.standard_normal((rows, d))
        ctx.close(lib.squared_loss(tensor(x), tensor(y)).item(), ((x - y) ** 2).sum() / (2 * rows), name + ": squared loss")
    lin = mod("linear_ent").linear_nonGauss(d)
    fill(lin, r)
    ctx.close(lin(tensor(x)).detach().numpy(), x @ lin.weight_test(), "linear_nonGauss output")
    ctx.close(lin.abs_L1().item(), np.abs(lin.weight_test()).sum(), "linear_nonGauss l1 term")
    ctx.nontrivial(d >= 2 and rows >= 2)


# ------------------------------------------------------------------ entropy losses
@st.composite
def residuals(draw):
    return {"rows": draw(st.sampled_from([20, 5, 60, 3])), "d": draw(st.sampled_from([1, 2, 3])), "law": draw(st.sampled_from(["normal", "uniform", "exp", "laplace"])),
            "scale": draw(st.sampled_from([1.0, .1, 5.0, 100.0])), "shift": draw(st.sampled_from([0.0, 3.0, -50.0])), "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("entropy_losses", strategy=residuals(), quick=400, thorough=8000, shards=4)
def entropy_losses(case, ctx):
    ut = mod("utils")
    r = np.random.default_rng(case["seed"])
    e = {"normal": r.standard_normal, "uniform": r.random, "exp": r.standard_exponential, "laplace": lambda s: r.laplace(size=s)}[case["law"]]((case["rows"], case["d"]))
    e = e * case["scale"] + case["shift"]
    out = r.standard_normal(e.shape)
    O, I = tensor(out), tensor(out + e)
    e = (out + e) - out
    z = (e - e.mean()) / e.std(ddof=1)
    k3, k4 = (z ** 3).mean() / (z ** 2).mean() ** 1.5, (z ** 4).mean() / (z ** 2).mean() ** 2
    var = e.var(ddof=1)
    g1 = np.log(np.cosh(z)).mean() ** 2
    ho = .5 * np.log(var) - k3 ** 2 / 12 - k4 ** 2 / 48
    k1, k2 = 36 / (8 * np.sqrt(3) - 9), 24 / (16 * np.sqrt(3) - 27)
    ment = np.log(2 * np.pi) / 2 + .5 - k2 * (np.exp(-z ** 2 / 2).mean() - np.sqrt(.5)) ** 2 - k1 * ((z * np.exp(-z ** 2 / 2)).mean()) ** 2 + .5 * np.log(var)
    for name, want in (("entropy_loss_mentappr", ment), ("entropy_loss_high_order", ho), ("entropy_loss_G1", -g1), ("entropy_loss_G1_high_order", ho - g1),
                       ("variance_loss", np.sqrt(var))):
        ctx.close(getattr(ut, name)(O, I).item(), want, name, rtol=1e-6, atol=1e-7)
    total = 0.0
    for j in range(case["d"]):
        s = np.sort((e[:, j] - e[:, j].mean()) / e[:, j].std(ddof=1))
        gap = np.diff(s)
        near = np.minimum(np.append(gap, np.inf), np.insert(gap, 0, np.inf))
        total += np.log(near ** 2 + 1e-5).sum()
    ctx.close(ut.entropy_loss_knn(O, I).item(), total, "entropy_loss_knn", rtol=1e-6, atol=1e-6)
    n = case["rows"]
    for k in (2, 3):
        if n <= 2 * k:
            continue
        total = 0.0
        for c in range(case["d"]):
            s = np.sort((e[:, c] - e[:, c].mean()) / e[:, c].std(ddof=1))
            for j in range(1, k + 1):
                for i in range(n):
                    sides = ([s[i + j] - s[i]] if i < n - k else []) + ([s[i] - s[i - j]] if i >= k else [])
                    total += np.log(min(sides) ** 2 + 1e-5)
        ctx.close(ut.entropy_loss_knn(O, I, k=k).item(), total / k, "entropy_loss_knn with %d neighbours" % k, rtol=1e-6, atol=1e-6)
        ctx.close(ut.entropy_loss_knn(-O, -I, k=k).item(), total / k, "entropy_loss_knn of the mirrored sample", rtol=1e-6, atol=1e-6)
    ctx.nontrivial(case["rows"] >= 5)


# ------------------------------------------------------------------ bounded optimiser
@st.composite
def quadratics(draw):
    sizes = draw(st.sampled_from([[3], [2, 2], [4, 1], [1], [4, 4], [2, 1, 6]]))
    flat = draw(st.booleans())
    shapes = [[s] if flat else draw(st.sampled_from([[s], [s, 1], [1, s], [1, s, 1]] + ([[2, s // 2], [2, 1, s // 2], [s // 2, 2, 1]] if s > 1 and s % 2 == 0 else []))) for s in sizes]
    return {"sizes": sizes, "shapes": shapes, "bounded": [draw(st.booleans()) for _ in sizes], "bounds": [draw(st.sampled_from([[0, None], [0, 0], [None, 0], [-.5, .5], [None, None], [1, 2]])) for _ in range(sum(sizes))],
            "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("bounded_optimiser", strategy=quadratics(), quick=300, thorough=6000, shards=4)
def bounded_optimiser(case, ctx):
    import torch
    from scipy.optimize import lsq_linear
    lib = mod("lbfgsb_scipy")
    r = np.random.default_rng(case["seed"])
    n = sum(case["sizes"])
    Q, y = r.standard_normal((n + 3, n)), 2 * r.standard_normal(n + 3)
    Q += np.vstack([np.eye(n), np.zeros((3, n))]) * 2
    params, off, lo, hi = [], 0, [], []
    for size, shape, bounded in zip(case["sizes"], case["shapes"], case["bounded"]):
        p = torch.nn.Parameter(tensor(r.standard_normal(shape)))
        b = [tuple(x) for x in case["bounds"][off:off + size]]
        if bounded:
            p.bounds = b
        else:
            b = [(None, None)] * size
        lo += [-np.inf if x[0] is None else x[0] for x in b]
        hi += [np.inf if x[1] is None else x[1] for x in b]
        params.append(p)
        off += size
    opt = lib.LBFGSBScipy(params)
    TQ, ty = tensor(Q), tensor(y)

    def closure():
        opt.zero_grad()
        v = torch.cat([p.view(-1) for p in params])
        loss = .5 * ((TQ @ v - ty) ** 2).sum()
        loss.backward()
        return loss

    opt.step(closure)
    got = np.concatenate([p.detach().numpy().ravel() for p in params])
    ctx.require([list(p.shape) for p in params] == case["shapes"], "the parameters were reshaped")
    lo, hi = np.array(lo, float), np.array(hi, float)
    ctx.require(np.all(got >= lo - 1e-12) and np.all(got <= hi + 1e-12), "bounds %r left at %r", list(zip(lo, hi)), got.tolist())
    eps = 1e-9
    want = lsq_linear(Q, y, (np.where(lo == hi, lo - eps, lo), np.where(lo == hi, hi + eps, hi)), tol=1e-12).x
    f = lambda v: .5 * ((Q @ v - y) ** 2).sum()
    ctx.require(f(got) <= f(want) + 1e-4 * (1 + f(want)), "objective %r at %r, optimum %r at %r", f(got), got.tolist(), f(want), want.tolist())
    ctx.nontrivial(n >= 2)


# ------------------------------------------------------------------ learned matrices
@contextlib.contextmanager
def watched(ctx, what, seed, points=3, calls=6, big=()):
    """Compare value and gradient of every objective given to scipy.optimize.minimize: at random points of all variables,
    and along single variables (one edge: no cycle) up to the values in big."""
    import scipy.optimize as so
    real = so.minimize
    r = np.random.default_rng(seed)
    seen = [0]

    def minimize(fun, x0, *a, **k):
        seen[0] += 1
        if k.get("jac") is True and seen[0] <= calls:
            b = k.get("bounds") or [(None, None)] * len(x0)
            free = np.array([not (l is not None and l == u) for l, u in b])
            for _ in range(points):
                x = np.where(free, r.uniform(.1, .6, len(x0)), 0.0)
                f0, g = fun(x.copy())
                g = np.asarray(g, float).copy()
                v = r.standard_normal(len(x)) * free
                e = 1e-6
                slope = (float(fun(x + e * v)[0]) - float(fun(x - e * v)[0])) / (2 * e)
                ctx.require(abs(slope - g @ v) <= 1e-4 * (1 + abs(slope) + np.abs(g * v).sum() * .01), "%s: the objective's gradient gives slope %r, its values %r", what, float(g @ v), slope)
            for t in big:
                i = int(r.choice(np.flatnonzero(free)))
                x, v = np.zeros(len(x0)), np.zeros(len(x0))
                x[i], v[i] = t, 1.0
                g = float(np.asarray(fun(x.copy())[1], float)[i])
                e = 1e-6
                slope = (float(fun(x + e * v)[0]) - float(fun(x - e * v)[0])) / (2 * e)
                ctx.require(abs(slope - g) <= 1e-4 * (1 + abs(slope)), "%s: with one weight %r the objective's gradient gives slope %r, its values %r", what, t, g, slope)
        return real(fun, x0, *a, **k)

    so.minimize = minimize
    try:
        yield seen
    finally:
        so.minimize = real


@st.composite
def linear_data(draw, max_d=5, rows=(1000, 2000)):
    d = draw(st.sampled_from([3, 4, 2, max_d]))
    p = draw(st.permutations(list(range(d))))
    if draw(st.sampled_from([True, True, False])):
        es = [[p[draw(st.integers(0, b - 1))], p[b]] for b in range(1, d) if draw(st.sampled_from([True, True, True, False]))]
    else:
        es = [[p[a], p[b]] for a in range(d) for b in range(a + 1, d) if draw(st.sampled_from([True, True, False]))]
    return {"d": d, "edges": es, "w": [draw(st.sampled_from([1.0, -1.2, 1.5, -1.0])) for _ in es], "rows": draw(st.sampled_from(list(rows))), "seed": draw(st.integers(0, 10 ** 6)),
            "noise": draw(st.sampled_from(["gauss", "uniform", "exp"])), "lambda1": draw(st.sampled_from([.02, .05, .01, .3])), "shift": draw(st.sampled_from([0.0, 5.0, -2.0])),
            "threshold": draw(st.sampled_from([.3, .5, .2]))}


def forest(case):
    """every node has at most one parent"""
    heads = [b for _, b in case["edges"]]
    return len(heads) == len(set(heads))


def sample(case):
    r = np.random.default_rng(case["seed"])
    d, n = case["d"], case["rows"]
    W = np.zeros((d, d))
    for (a, b), w in zip(case["edges"], case["w"]):
        W[a, b] = w
    E = {"gauss": r.standard_normal, "uniform": lambda s: r.uniform(-3 ** .5, 3 ** .5, s), "exp": lambda s: r.standard_exponential(s) - 1}[case["noise"]]((n, d))
    return W, E @ np.linalg.inv(np.eye(d) - W) + case["shift"] * np.arange(1, d + 1)


def thresholded(ctx, W, full, thr, what):
    ctx.require(W.shape == full.shape and np.all(np.diag(W) == 0), "%s: diagonal %r", what, np.diag(W))
    nz = W[W != 0]
    ctx.require(np.all(np.abs(nz) >= thr), "%s: entry %r below the threshold %r", what, nz[np.abs(nz) < thr], thr)
    ctx.close(W, np.where(np.abs(full) >= thr, full, 0), "%s: with threshold %r against the same run without" % (what, thr), rtol=1e-9, atol=1e-9)


@SUITE.sub("linear_l2", strategy=linear_data(), quick=60, thorough=1500, shards=8)
def linear_l2(case, ctx):
    lib = mod("linear")
    true, X = sample(case)
    keep = X.copy()
    with watched(ctx, "notears_linear (l2)", case["seed"], big=(3.0, 20.0, 100.0)) as seen:
        W = lib.notears_linear(X, case["lambda1"], "l2", w_threshold=case["threshold"])
    ctx.require(np.array_equal(X, keep), "the data were modified")
    full = lib.notears_linear(X, case["lambda1"], "l2", w_threshold=0.0)
    thresholded(ctx, W, full, case["threshold"], "notears_linear")
    ctx.require(trace_h(full ** 2) <= 1e-6, "the learned weights have acyclicity %r", trace_h(full ** 2))
    if case["lambda1"] <= .05 and forest(case):
        ctx.require(np.array_equal(W != 0, true != 0), "learned %r from %r", W.tolist(), true.tolist())
    Xc = X - X.mean(0)
    G = Xc.T @ (Xc @ full - Xc) / len(X) + case["lambda1"] * np.sign(full)
    on = np.abs(full) >= .3
    ctx.require(np.abs(G[on]).max() < .06 if on.any() else True, "loss slope %r (with the l1 term) at the learned weights", G[on].tolist())
    ctx.nontrivial(bool(case["edges"]))
    ctx.label("optimiser watched", seen[0] > 0)


@SUITE.sub("linear_counts", strategy=linear_data(4, rows=(400, 800)), quick=40, thorough=800, shards=8)
def linear_counts(case, ctx):
    lib = mod("linear")
    r = np.random.default_rng(case["seed"])
    d, n = case["d"], case["rows"]
    order = hg.topo(d, [tuple(e) for e in case["edges"]])
    true = np.zeros((d, d))
    for (a, b), w in zip(case["edges"], case["w"]):
        true[a, b] = w
    for loss in ("logistic", "poisson"):
        X = np.zeros((n, d))
        for j in order:
            eta = X @ true[:, j]
            X[:, j] = r.binomial(1, sigmoid(eta)) if loss == "logistic" else r.poisson(np.exp(np.clip(.3 * eta, None, 1.0)))
        keep = X.copy()
        lam = .05
        with watched(ctx, "notears_linear (%s)" % loss, case["seed"], big=(2.0, 10.0, 40.0, 200.0) if loss == "logistic" else (.5, 1.0)):
            W = lib.notears_linear(X, lam, loss, w_threshold=case["threshold"])
        ctx.require(np.array_equal(X, keep), "the data were modified")
        full = lib.notears_linear(X, lam, loss, w_threshold=0.0)
        thresholded(ctx, W, full, case["threshold"], "notears_linear (%s)" % loss)
        if trace_h(full ** 2) <= 1e-8:
            M = X @ full
            G = X.T @ ((sigmoid(M) if loss == "logistic" else np.exp(M)) - X) / n + lam * np.sign(full)
            big = np.abs(full) > .3
            if big.any():
                ctx.require(np.abs(G[big]).max() < .02, "%s loss slope %r (with the l1 term) at the learned weights %r", loss, G[big].tolist(), full.tolist())
    ctx.raises(ValueError, lambda: lib.notears_linear(X, .1, "huber"), "unknown loss")
    ctx.nontrivial(bool(case["edges"]))


@SUITE.sub("entropy_linear", strategy=linear_data(4, rows=(1000,)), quick=24, thorough=300, shards=8)
def entropy_linear(case, ctx):
    lib = mod("linear_ent")
    true, X = sample(dict(case, noise="uniform", shift=0.0))
    keep = X.copy()

    def learn(thr, watch=False):
        model = lib.linear_nonGauss(dims=case["d"], bias=False)
        with (watched(ctx, "linear_nonGauss", case["seed"], points=2, calls=3) if watch else contextlib.nullcontext()), hush():
            return lib.train_LBFGSB(model, X, lambda1=.01, lambda2=0.0, beta=0.0, gama=1.0, max_iter=100, w_threshold=thr)

    W, full = learn(case["threshold"], True), learn(0.0)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    thresholded(ctx, W, full, case["threshold"], "train_LBFGSB")
    if forest(case):
        ctx.require(np.array_equal(W != 0, true != 0), "learned %r from %r", W.tolist(), true.tolist())
    ctx.nontrivial(bool(case["edges"]))


@st.composite
def neural(draw):
    return {"module": draw(st.sampled_from(["nonlinear", "nonlinear_ent"])), "model": draw(st.sampled_from(["mlp", "sobolev"])), "flip": draw(st.booleans()),
            "seed": draw(st.integers(0, 10 ** 6)), "threshold": draw(st.sampled_from([.3, .5]))}


@SUITE.sub("neural", strategy=neural(), quick=24, thorough=200, shards=8)
def neural_learners(case, ctx):
    import torch
    lib = mod(case["module"])
    r = np.random.default_rng(case["seed"])
    x = r.uniform(-2, 2, 300)
    y = np.sin(x) * 2 + .3 * r.standard_normal(300)
    X = np.column_stack([x, y, r.standard_normal(300)])
    if case["flip"]:
        X = X[:, ::-1].copy()
    keep = X.copy()

    def learn(thr, watch=False):
        torch.manual_seed(case["seed"])
        model = lib.NotearsMLP([3, 4, 1]) if case["model"] == "mlp" else lib.NotearsSobolev(3, 3)
        with (watched(ctx, case["module"] + "." + case["model"], case["seed"], points=2, calls=3) if watch else contextlib.nullcontext()), hush():
            return lib.notears_nonlinear(model, X, .01, .01, max_iter=4, w_threshold=thr), model

    (W, m), (full, _) = learn(case["threshold"]), learn(0.0)
    ctx.require(np.array_equal(X, keep), "the data were modified")
    thresholded(ctx, W, full, case["threshold"], "notears_nonlinear")
    ctx.close(full, m.fc1_to_adj(), "the learned matrix against the model's weights")
    for p in (m.fc1_pos.weight, m.fc1_neg.weight):
        ctx.require(float(p.min()) >= 0, "split weights below zero: %r", float(p.min()))
    learn(case["threshold"], True)
    a, b = (0, 1) if not case["flip"] else (2, 1)
    if case["module"] == "nonlinear":
        ctx.require(full[a, b] + full[b, a] > .3, "the dependent pair gets weights %r", full.tolist())
    ctx.nontrivial()


# many samples: blocked or thinned computations would show
SUITE.sub("losses_many_rows", strategy=st.tuples(residuals(), st.sampled_from([300, 1030])).map(lambda t: dict(t[0], rows=t[1])), quick=40, thorough=800, shards=4)(entropy_losses)
