"""D04: event simulation: table, structure and parameters, and the point process against its compensator."""
import contextlib
import io
import math

import numpy as np
from hypothesis import strategies as st
from scipy import stats

from harness import graphs as hg
from harness.core import Suite
from harness.noise import check_mean_zero

SUITE = Suite("D04", "random configurations: 1-8 event types, rate and influence ranges (also negative-free, degenerate and wide), out-degree rates "
              "0-3, 1-6 sequences, 1-1500 events, decays, optional time grids, seeds; oracles: structural checks, table against the returned events, grid run "
              "against the ungridded run of the same seed, martingale residuals (event counts minus compensator, also weighted by every other type's "
              "decayed influence) within 8 standard errors; integer model: counts and conditional means; non-trivial: an edge and at least 20 events",
              ["8 standard errors plus a slack of 15 events keeps the martingale tests silent on correct samples"])


def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()):
        return f(*a, **k)


@st.composite
def configs(draw):
    n = draw(st.sampled_from([3, 4, 2, 6, 8, 1]))
    seqs = draw(st.sampled_from([2, 3, 1, 6]))
    lo = draw(st.sampled_from([.1, .5, .02, 1.0]))
    a = draw(st.sampled_from([.3, .6, .05, .9]))
    return {"n": n, "mu": [lo, lo * draw(st.sampled_from([1.5, 1.0, 4.0]))], "alpha": [a, a * draw(st.sampled_from([1.2, 1.0, 2.0]))],
            "rate": draw(st.sampled_from([1.5, 1.0, .5, 0.0, 3.0, .34])), "seqs": seqs, "events": draw(st.sampled_from([600, 1500, 100, 20, 7])),
            "decay": draw(st.sampled_from([1.0, .1, 5.0, .5])), "grid": draw(st.sampled_from([1, 5, .5, 2.5])), "seed": draw(st.integers(0, 10 ** 6)),
            "strings": draw(st.booleans())}


def simulate(case, grid=None, seed=None, strings=False):
    from cdmir.datasets.simlulators import HawkesSimulator
    seed = case["seed"] if seed is None else seed
    if strings:
        return quiet(HawkesSimulator.generate_data, case["n"], "%r,%r" % tuple(case["mu"]), "%r, %r" % tuple(case["alpha"]), case["events"], case["rate"], case["seqs"], case["decay"], seed=seed)
    kw = {} if grid is None else {"time_interval": grid}
    return quiet(HawkesSimulator.get_artificial_data, tuple(case["mu"]), tuple(case["alpha"]), case["n"], sample_size=case["events"], out_degree_rate=case["rate"],
                 NE_num=case["seqs"], decay=case["decay"], seed=seed, **kw)


def same(a, b):
    return a[0].equals(b[0]) and all(np.array_equal(a[k], b[k]) for k in (1, 2, 3)) and len(a[4]) == len(b[4]) and \
        all(len(x) == len(y) and all(np.array_equal(p, q) for p, q in zip(x, y)) for x, y in zip(a[4], b[4]))


def table_matches(ctx, case, table, events, what):
    ctx.require(list(table.columns) == ["seq_id", "time_stamp", "event_type"], "%s: columns %r", what, list(table.columns))
    ctx.require(len(events) == case["seqs"] and all(len(s) == case["n"] for s in events), "%s: events list of shape %r for %d sequences and %d types",
                what, [len(s) for s in events], case["seqs"], case["n"])
    total = 0
    for s in range(case["seqs"]):
        for i in range(case["n"]):
            rows = table[(table.seq_id == s) & (table.event_type == i)].time_stamp.to_numpy(dtype=float)
            ctx.require(np.array_equal(rows, np.asarray(events[s][i], dtype=float)), "%s: sequence %d type %d: table %r, list %r", what, s, i, rows[:5], events[s][i][:5])
            ctx.require(np.all(np.diff(rows) >= 0), "%s: times of sequence %d type %d are not sorted", what, s, i)
            ctx.require(rows.size == 0 or rows.min() >= 0, "%s: negative time", what)
            total += len(rows)
    ctx.require(total == len(table), "%s: the table has %d rows of unknown sequence or type", what, len(table) - total)


@SUITE.sub("artificial_data", strategy=configs(), quick=400, thorough=10000, shards=8)
def artificial(case, ctx):
    n = case["n"]
    r = simulate(case)
    table, E, alpha, mu, events = r
    ctx.require(E.shape == (n, n) and np.isin(E, (0, 1)).all(), "structure %r", E)
    ctx.require(hg.is_acyclic(n, [tuple(e) for e in np.argwhere(E)]), "cyclic structure %r", E.tolist())
    want = min(round(case["rate"] * n), n * (n - 1) // 2)
    ctx.require(int(E.sum()) == want, "%d edges, requested %d", int(E.sum()), want)
    ctx.require(np.array_equal(alpha != 0, E == 1), "influences on other pairs than the edges")
    v, tol = alpha[E == 1], 1e-12
    ctx.require(v.size == 0 or (v.min() >= case["alpha"][0] - tol and v.max() <= case["alpha"][1] + tol), "influences %r outside %r", v.tolist(), case["alpha"])
    ctx.require(np.shape(mu) == (n,) and min(mu) >= case["mu"][0] - tol and max(mu) <= case["mu"][1] + tol, "rates %r outside %r", mu, case["mu"])
    if v.size > 1 and case["alpha"][0] < case["alpha"][1]:
        ctx.require(len(set(v.tolist())) == v.size, "repeated influence values %r", v.tolist())
    table_matches(ctx, case, table, events, "ungridded")
    per = int(case["events"] / case["seqs"])
    for s in range(case["seqs"]):
        ctx.require(sum(len(x) for x in events[s]) == per, "sequence %d has %d events, requested %d", s, sum(len(x) for x in events[s]), per)
    times = [[tuple(x) for x in s] for s in events]
    if per >= 3:
        ctx.require(len({repr(t) for t in times}) == len(times), "two sequences are identical")
    np.random.rand(2)
    ctx.require(same(simulate(case), r), "the same seed gives other output")
    ctx.require(not np.array_equal(simulate(case, seed=case["seed"] + 1)[3], mu) or case["mu"][0] == case["mu"][1], "another seed gives the same rates")
    if case["strings"]:
        ctx.require(same(simulate(case, strings=True), r), "generate_data with string ranges differs from get_artificial_data")
    g = simulate(case, grid=case["grid"])
    ctx.require(np.array_equal(g[1], E) and np.array_equal(g[2], alpha) and np.array_equal(g[3], mu), "the time grid changes structure or parameters")
    table_matches(ctx, case, g[0], g[4], "gridded")
    t, q = table.time_stamp.to_numpy(dtype=float), g[0].time_stamp.to_numpy(dtype=float)
    ctx.require(len(t) == len(q) and np.array_equal(table.seq_id, g[0].seq_id) and np.array_equal(table.event_type, g[0].event_type), "the time grid changes the rows")
    if len(t):
        ctx.require(np.abs(q / case["grid"] - np.round(q / case["grid"])).max() < 1e-9, "gridded times are no multiples of %r", case["grid"])
        ctx.require((t - q).min() > -1e-9 and (t - q).max() < case["grid"] * (1 + 1e-9), "gridded times are not rounded down to multiples of %r", case["grid"])
    ctx.nontrivial(E.sum() > 0 and len(table) >= 20)
    ctx.label("n=%d" % n)
    # the process itself: martingale residuals
    if len(table) < 200:
        return
    b = case["decay"]
    M = np.zeros((n, n + 1))  # events of i minus compensator, weighted by 1 and by each type's decayed influence
    V = np.zeros((n, n + 1))
    top = np.zeros(n + 1)
    for s in range(case["seqs"]):
        ev = sorted((float(x), i) for i in range(n) for x in events[s][i])
        x, now = np.zeros(n), 0.0
        for when, i in ev:
            d = when - now
            e1, e2 = -math.expm1(-b * d) / b, -math.expm1(-2 * b * d) / (2 * b)
            drive = alpha.T @ x  # influence on each type
            Lam = mu * d + drive * e1
            M[:, 0] -= Lam
            V[:, 0] += Lam
            M[:, 1:] -= np.outer(mu, x) * e1 + np.outer(drive, x) * e2
            e3 = -math.expm1(-3 * b * d) / (3 * b)
            V[:, 1:] += np.outer(mu, x ** 2) * e2 + np.outer(drive, x ** 2) * e3
            x = x * math.exp(-b * d)
            M[i, 0] += 1
            M[i, 1:] += x
            top[1:] = np.maximum(top[1:], x)
            top[0] = 1
            x[i] += b
            now = when
    for i in range(n):
        for k in range(n + 1):
            dev, sd = M[i, k], math.sqrt(V[i, k])
            ctx.require(abs(dev) < 8 * sd + 15 * top[k] + 1e-9, "events of type %d%s deviate from the rates and influences returned by %.1f standard errors (edges %r)",
                        i, " after type %d" % (k - 1) if k else "", dev / max(sd, 1e-12), np.argwhere(E).tolist())
    ctx.label("martingale test")


@st.composite
def insem(draw):
    return {"size": draw(st.sampled_from([400, 1000, 30])), "lx": draw(st.sampled_from([1, .5, 3])), "theta": draw(st.sampled_from([.5, .1, .9, 0.0, 1.0])), "le": draw(st.sampled_from([1, .3, 2])),
            "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("integer_model", strategy=insem(), quick=60, thorough=1500, shards=8)
def integer(case, ctx):
    from cdmir.datasets.simlulators import HawkesSimulator
    f = lambda seed: HawkesSimulator.INSEM_data(sample_size=case["size"], lambda_x=case["lx"], theta=case["theta"], lambda_e=case["le"], seed=seed)  # noqa: E731
    df = f(case["seed"])
    ctx.require(list(df.columns) == ["seq_id", "time_stamp", "event_type"], "columns %r", list(df.columns))
    ctx.require(set(df.seq_id) == {0} and set(df.event_type) <= {0, 1}, "sequence or type ids %r %r", set(df.seq_id), set(df.event_type))
    t = df.time_stamp.to_numpy()
    ctx.require(np.array_equal(t, t.astype(int)) and t.min() >= 0 and t.max() < case["size"], "times outside the samples")
    X = np.bincount(df[df.event_type == 0].time_stamp.astype(int), minlength=case["size"])
    Y = np.bincount(df[df.event_type == 1].time_stamp.astype(int), minlength=case["size"])
    for k in (0, 1):
        ctx.require(np.all(np.diff(df[df.event_type == k].time_stamp) >= 0), "times of type %d are not sorted", k)
    np.random.rand(2)
    ctx.require(f(case["seed"]).equals(df), "the same seed gives another table")
    one = np.ones(case["size"])
    check_mean_zero(ctx, X - case["lx"], case["lx"] * one, one, "number of causes per sample")
    m, var = case["theta"] * X + case["le"], case["theta"] * (1 - case["theta"]) * X + case["le"]
    check_mean_zero(ctx, Y - m, var, one, "number of effects per sample")
    check_mean_zero(ctx, Y - m, var, X - X.mean(), "number of effects against the number of causes")
    if case["theta"] == 1.0:
        ctx.require(np.all(Y >= X), "fewer effects than causes although each is passed on")
    ctx.nontrivial(len(df) > 20)
    ctx.label("theta %s" % case["theta"])


@st.composite
def crowded(draw):
    # many types, many sequences, many events
    return {"n": draw(st.sampled_from([12, 16, 25])), "mu": [.1, .4], "alpha": draw(st.sampled_from([[.3, .6], [.05, .1]])),
            "rate": draw(st.sampled_from([1.5, .5, 3.0])), "seqs": draw(st.sampled_from([40, 12, 25])), "events": draw(st.sampled_from([3000, 1200])),
            "decay": draw(st.sampled_from([.1, 1.0])), "grid": draw(st.sampled_from([1, 5, .1])), "seed": draw(st.integers(0, 2 ** 31 - 2)), "strings": draw(st.booleans())}


SUITE.sub("crowded", strategy=crowded(), quick=24, thorough=400, shards=8)(artificial)
