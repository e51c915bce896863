"""N03: continuous learners follow the augmented-Lagrangian method on the documented objective."""
import contextlib
import importlib
import io

import numpy as np
from hypothesis import strategies as st

from harness.core import Suite

SUITE = Suite("N03", "random tables (3-80 rows, 1-5 columns, several scales), random architectures and starting weights, l1/l2 weights including 0 and large ones, entropy/squared mixtures with and "
              "without annealing, penalty limits, tolerances and iteration limits that end the search in every way; every call of the bounded optimiser is recorded with its start, its bounds, the objective at "
              "random weights and its result; oracle: NumPy objective from the weights and the penalty schedule replayed from the recorded results; non-trivial: at least two calls of the optimiser",
              ["the schedule is not judged past a comparison that rounding decides"])

PKG = "cdmir.discovery.score_based.entropy_based.entropy_based_discovery."


def mod(name):
    import torch
    torch.set_num_threads(1)
    torch.set_default_dtype(torch.double)
    return importlib.import_module(PKG + name)


def sigmoid(z):
    return 1 / (1 + np.exp(-z))


def mentappr(e):
    z = (e - e.mean()) / e.std(ddof=1)
    k1, k2 = 36 / (8 * np.sqrt(3) - 9), 24 / (16 * np.sqrt(3) - 27)
    return np.log(2 * np.pi) / 2 + .5 - k2 * (np.exp(-z ** 2 / 2).mean() - np.sqrt(.5)) ** 2 - k1 * ((z * np.exp(-z ** 2 / 2)).mean()) ** 2 + .5 * np.log(e.var(ddof=1))


def acyclicity(A):
    d = len(A)
    return np.trace(np.linalg.matrix_power(np.eye(d) + A / d, d)) - d


@contextlib.contextmanager
def recorded(seed, parts):
    """Records every bounded minimisation; parts() describes the model at its current weights."""
    import scipy.optimize as so
    real, calls, r = so.minimize, [], np.random.default_rng(seed)

    def minimize(fun, x0, *a, **k):
        x0 = np.array(x0, float)
        b = k.get("bounds") or [(None, None)] * len(x0)
        free = np.array([not (l is not None and l == u) for l, u in b])
        if k.get("jac") is not True:
            return real(fun, x0, *a, **k)
        entry = {"start": x0.copy(), "bounds": list(b), "points": []}
        for _ in range(2):
            x = np.where(free, r.uniform(.05, .8, len(x0)), 0.0)
            f = fun(x.copy())
            f = float(f[0] if isinstance(f, tuple) else f)
            entry["points"].append((f, parts(x)))
        sol = real(fun, x0, *a, **k)
        entry["end"] = np.array(sol.x, float)
        calls.append(entry)
        return sol

    so.minimize = minimize
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield calls
    finally:
        so.minimize = real


def schedule(ctx, calls, objective, ends, c, restart=False):
    """Replays the penalty schedule (restart: a larger penalty is tried again from the start of the step).  objective(parts, rho, alpha, step) gives the expected value; ends[k] is the acyclicity reached by call k.

    Returns True if every comparison was clear and so the number of calls is known."""
    rho, alpha, h, k = 1.0, 0.0, np.inf, 0
    at = None
    for step in range(c["max_iter"]):
        while rho < c["rho_max"]:
            ctx.require(k < len(calls), "the optimiser was called %d times; rho %r, alpha %r, acyclicity %r after step %d ask for another", len(calls), rho, alpha, h, step)
            if at is not None:
                ctx.require(np.array_equal(calls[k]["start"], at), "call %d does not start at the weights reached before", k)
            for f, p in calls[k]["points"]:
                ctx.close(f, objective(p, rho, alpha, step), "objective of call %d (rho %r, alpha %r)" % (k, rho, alpha), rtol=1e-7, atol=1e-7)
            new = ends[k][0]
            if not restart:
                at = ends[k][1]
            k += 1
            if abs(new - .25 * h) <= 1e-12 + 1e-6 * abs(h) if np.isfinite(h) else False:
                return False
            if new > .25 * h:
                rho *= 10
            else:
                break
        alpha += rho * new
        h, at = new, ends[k - 1][1]
        if abs(h - c["h_tol"]) <= 1e-13 + 1e-4 * c["h_tol"]:
            return False
        if h <= c["h_tol"] or rho >= c["rho_max"]:
            break
    ctx.require(k == len(calls), "the optimiser was called %d times instead of %d", len(calls), k)
    return True


def limits(draw):
    return {"max_iter": draw(st.sampled_from([4, 2, 8, 3, 1])), "h_tol": draw(st.sampled_from([1e-8, 1e-12, 1e-3, .05])), "rho_max": draw(st.sampled_from([1e16, 1e3, 50.0])),
            "threshold": draw(st.sampled_from([.3, 0.0, .1]))}


@st.composite
def problems(draw, kinds):
    c = {"kind": draw(st.sampled_from(kinds)), "d": draw(st.sampled_from([3, 2, 4, 3, 5, 1])), "rows": draw(st.sampled_from([20, 3, 80])), "seed": draw(st.integers(0, 10 ** 6)),
         "lambda1": draw(st.sampled_from([.01, .001, 0.0, .1, .5])), "lambda2": draw(st.sampled_from([.01, 0.0, .5])), "scale": draw(st.sampled_from([1.0, .3, 4.0]))}
    c.update(limits(draw))
    return c


def table(c):
    r = np.random.default_rng(c["seed"])
    X = r.uniform(-1, 1, (c["rows"], c["d"]))
    for k in range(1, c["d"]):
        X[:, k] += 1.2 * X[:, k - 1] ** (1 + c["seed"] % 2)
    return X * c["scale"] + (c["seed"] % 3)


def bounds_of(ctx, bounds, weights):
    """weights: list of (size, diag) blocks in any order; here only counts are compared"""
    box = [(-np.inf, np.inf) if b is None else (-np.inf if b[0] is None else b[0], np.inf if b[1] is None else b[1]) for b in bounds]
    zero, low, free = (sum(1 for b in box if b == want) for want in ((0, 0), (0, np.inf), (-np.inf, np.inf)))
    ctx.require((zero, low, free) == weights, "bounds: %r fixed at zero, %r from zero, %r free; expected %r", zero, low, free, weights)


@SUITE.sub("linear", strategy=problems(["l2", "l2", "logistic", "poisson"]), quick=240, thorough=6000, shards=8)
def linear(case, ctx):
    lib = mod("linear")
    d, n = case["d"], case["rows"]
    X = table(case)
    if case["kind"] == "logistic":
        X = (X > np.median(X, 0)).astype(float)
    elif case["kind"] == "poisson":
        X = np.floor(np.abs(X)).clip(0, 4)
    keep = X.copy()
    with recorded(case["seed"], lambda x: x) as calls:
        W = lib.notears_linear(X, case["lambda1"], case["kind"], max_iter=case["max_iter"], h_tol=case["h_tol"], rho_max=case["rho_max"], w_threshold=case["threshold"])
    ctx.require(np.array_equal(X, keep), "the data were modified")
    D = X - X.mean(0) if case["kind"] == "l2" else X
    if not calls:    # another optimiser: nothing was recorded
        return

    def weights(x):
        ctx.require(len(x) == 2 * d * d, "%d variables for %d nodes", len(x), d)
        return (x[:d * d] - x[d * d:]).reshape(d, d)

    def objective(x, rho, alpha, step):
        V = weights(x)
        M, h = D @ V, acyclicity(V * V)
        loss = {"l2": lambda: ((D - M) ** 2).sum() / 2, "logistic": lambda: (np.log1p(np.exp(M)) - D * M).sum(), "poisson": lambda: (np.exp(M) - D * M).sum()}[case["kind"]]() / n
        return loss + rho / 2 * h * h + alpha * h + case["lambda1"] * x.sum()

    bounds_of(ctx, calls[0]["bounds"], (2 * d, 2 * d * (d - 1), 0))
    ctx.close(calls[0]["start"], np.zeros(2 * d * d), "first start")
    ends = [(acyclicity(weights(c["end"]) ** 2), c["end"]) for c in calls]
    sure = schedule(ctx, calls, objective, ends, case, restart=True)
    final = weights(calls[-1]["end"])
    ctx.close(W, np.where(np.abs(final) >= case["threshold"], final, 0), "returned weights against the last minimum")
    ctx.nontrivial(len(calls) >= 2)
    ctx.label("schedule judged to the end", sure)
    ctx.label(case["kind"])


@st.composite
def mixtures(draw):
    c = draw(problems(["ent"]))
    c.update({"beta": draw(st.sampled_from([1.0, .35, 0.0, 2.0])), "gama": draw(st.sampled_from([1.0, 0.0, .5])), "anneal": draw(st.booleans()), "start": draw(st.booleans())})
    if c["beta"] == 0 and c["gama"] == 0:
        c["gama"] = 1.0
    if c["beta"]:
        c["max_iter"] = min(c["max_iter"], 4)
    return c


@SUITE.sub("linear_entropy", strategy=mixtures(), quick=160, thorough=5000, shards=8)
def linear_entropy(case, ctx):
    import torch
    lib = mod("linear_ent")
    d, n, X = case["d"], case["rows"], table(case)
    keep = X.copy()
    model = lib.linear_nonGauss(dims=d, bias=False)
    ctx.close(model.weight_test(), np.zeros((d, d)), "initial weights")
    if case["start"]:
        with torch.no_grad():
            r = np.random.default_rng(case["seed"])
            model.linear_pos.weight += torch.tensor(r.uniform(0, .3, (d, d)) * (1 - np.eye(d)))

    def parts(x):
        pos, neg = (m.weight.detach().numpy() for m in (model.linear_pos, model.linear_neg))
        return (pos - neg).T.copy()

    with recorded(case["seed"], parts) as calls:
        W = lib.train_LBFGSB(model, X, lambda1=case["lambda1"], lambda2=0.0, max_iter=case["max_iter"], h_tol=case["h_tol"], rho_max=case["rho_max"], w_threshold=case["threshold"],
                             beta=case["beta"], gama=case["gama"], anneal=case["anneal"])
    ctx.require(np.array_equal(X, keep), "the data were modified")
    betas, b = [], case["beta"]
    for _ in range(case["max_iter"]):
        if case["anneal"] and b > .1:
            b -= .1
        betas.append(b)

    def objective(V, rho, alpha, step):
        E = X - X @ V
        h = acyclicity(V * V)
        return betas[step] * (mentappr(E) if betas[step] else 0.0) + case["gama"] * (E ** 2).sum() / 2 / n + rho / 2 * h * h + alpha * h + case["lambda1"] * np.abs(V).sum()

    if not calls:    # another optimiser: nothing was recorded
        return
    bounds_of(ctx, calls[0]["bounds"], (2 * d, 2 * d * (d - 1), 0))
    half = lambda x: (x[:d * d] - x[d * d:]).reshape(d, d)
    ends = [(acyclicity(half(c["end"]) ** 2), c["end"]) for c in calls]
    sure = schedule(ctx, calls, objective, ends, case)
    final = parts(None)
    ctx.close(W, np.where(np.abs(final) >= case["threshold"], final, 0), "returned weights against the model's")
    ctx.close(np.abs(final), np.abs(half(calls[-1]["end"]).T), "the model's weights against the last minimum")
    ctx.nontrivial(len(calls) >= 2)
    ctx.label("schedule judged to the end", sure)
    ctx.label("annealed", case["anneal"])


@st.composite
def networks(draw):
    c = draw(problems(["mlp", "sobolev", "deep"]))
    c.update({"module": draw(st.sampled_from(["nonlinear", "nonlinear_ent"])), "m": draw(st.sampled_from([3, 1, 2])), "bias": draw(st.booleans())})
    c["max_iter"] = min(c["max_iter"], 2)
    c["rows"] = min(c["rows"], 20)
    c["d"] = min(c["d"], 3)
    c["threshold"] = 0.0 if c["seed"] % 2 else c["threshold"]
    if c["kind"] == "sobolev" and c["d"] * c["m"] < 2:
        c["m"] = 2
    return c


@SUITE.sub("neural", strategy=networks(), quick=120, thorough=3000, shards=8)
def neural(case, ctx):
    import torch
    lib = mod(case["module"])
    d, n, m, X = case["d"], case["rows"], case["m"], table(case)
    keep = X.copy()
    torch.manual_seed(case["seed"])
    sob = case["kind"] == "sobolev"
    dims = [d, m, 1] if case["kind"] == "mlp" else [d, m, 2, 1]
    model = lib.NotearsSobolev(d, m) if sob else lib.NotearsMLP(dims, bias=case["bias"])

    def parts(x):
        g = lambda t: t.detach().numpy().copy()
        p = {"pos": g(model.fc1_pos.weight), "neg": g(model.fc1_neg.weight)}
        if not sob:
            p["b"] = g(model.fc1_pos.bias - model.fc1_neg.bias) if case["bias"] else np.zeros(d * m)
            p["fc"] = [(g(f.weight), g(f.bias) if case["bias"] else np.zeros((d, f.weight.shape[2]))) for f in model.fc2]
        return p

    def adjacency(p):
        V = p["pos"] - p["neg"]
        return (V.reshape(d, d, m) ** 2).sum(2).T if sob else (V.reshape(d, m, d) ** 2).sum(1).T

    def output(p):
        V = p["pos"] - p["neg"]
        out = np.zeros((n, d))
        for j in range(d):
            if sob:
                for i in range(d):
                    for k in range(m):
                        mu = 2 / ((2 * k + 1) * np.pi)
                        out[:, j] += V[j, i * m + k] * mu * np.sin(X[:, i] / mu)
            else:
                z = X @ V[j * m:(j + 1) * m].T + p["b"][j * m:(j + 1) * m]
                for w, b in p["fc"]:
                    z = sigmoid(z) @ w[j] + b[j]
                out[:, j] = z[:, 0]
        return out

    def objective(p, rho, alpha, step):
        out = output(p)
        E = X - out
        loss = (E ** 2).sum() / 2 / n if case["module"] == "nonlinear" else mentappr(E)
        l2 = (out ** 2).sum() / n if sob else ((p["pos"] - p["neg"]) ** 2).sum() + sum((w ** 2).sum() for w, _ in p["fc"])
        h = acyclicity(adjacency(p))
        return loss + rho / 2 * h * h + alpha * h + case["lambda2"] / 2 * l2 + case["lambda1"] * (p["pos"] + p["neg"]).sum()

    reached = []
    with recorded(case["seed"], parts) as calls:
        W = lib.notears_nonlinear(model, X, case["lambda1"], case["lambda2"], max_iter=case["max_iter"], h_tol=case["h_tol"], rho_max=case["rho_max"], w_threshold=case["threshold"])
        final = parts(None)
        names = [(k, v.numel()) for k, v in model.named_parameters()]
        for c in calls:   # weights of each end, by writing it back into the model through the optimiser's own layout
            at = 0
            for k, v in model.named_parameters():
                with torch.no_grad():
                    v.copy_(torch.tensor(c["end"][at:at + v.numel()]).view(v.shape))
                at += v.numel()
            reached.append((acyclicity(adjacency(parts(None))), c["end"]))
    ctx.require(np.array_equal(X, keep), "the data were modified")
    if not calls:    # another optimiser: nothing was recorded
        return
    total = sum(s for _, s in names)
    bounds_of(ctx, calls[0]["bounds"], (2 * d * m, 2 * d * (d - 1) * m, total - 2 * d * d * m))
    sure = schedule(ctx, calls, objective, reached, case)
    A = np.sqrt(adjacency(final))
    ctx.close(W, np.where(A >= case["threshold"], A, 0), "returned weights against the model's")
    ctx.require(final["pos"].min() >= 0 and final["neg"].min() >= 0, "split weights below zero")
    ctx.nontrivial(len(calls) >= 2)
    ctx.label("schedule judged to the end", sure)
    ctx.label(case["module"] + "." + case["kind"])
