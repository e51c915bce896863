"""P01: the Hawkes learner's event statistics against a direct computation from the table."""
import contextlib
import io
import math
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import Suite, same

SUITE = Suite("P01", "random event tables: 1-4 sequences with integer, negative, string or real ids, 1-4 event types with integer or string names, 1-12 events per "
              "sequence, crowded tables of up to 10 sequences, 12 types and 120 events per sequence, integer or real (dyadic) times, unsorted rows with ties and repeats, optional time grids (integer and real), decays; oracle: direct "
              "per-sequence sums over the raw rows; row shuffles, per-sequence time shifts and sequence relabelling compared with the unchanged table; "
              "non-trivial: at least 2 sequences and 2 event types and a repeated (sequence, time) pair",
              ["terms of the decayed influence below 1e-4 may be dropped (the learner's documented cutoff), nothing else",
               "the grid is applied to non-negative times; a sequence is shifted by whole grid steps"])

SEQ_IDS = {"int": [0, 1, 2, 3], "gap": [7, 3, 20, 11], "neg": [-4, 2, -1, 9], "str": ["b", "a", "s10", "s9"], "real": [.5, 2.5, -1.0, 3.25]}
TYPES = {"int": [0, 1, 2, 3], "gap": [5, 2, 30, 4], "str": ["fault", "alarm", "x2", "x10"]}


@contextlib.contextmanager
def hush():
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            yield


@st.composite
def tables(draw, min_seq=1, grids=(None, 1, 2, 5, .5, 2.5)):
    n_seq = draw(st.sampled_from([2, 3, 1, 4]))
    n_type = draw(st.sampled_from([2, 3, 1, 4]))
    ids = SEQ_IDS[draw(st.sampled_from(sorted(SEQ_IDS)))][:max(n_seq, min_seq)]
    names = TYPES[draw(st.sampled_from(sorted(TYPES)))][:n_type]
    unit = draw(st.sampled_from([1, .25, .5, 1, 8]))
    span = draw(st.sampled_from([4, 10, 40, 200]))
    rows = []
    for s in ids:
        offset = draw(st.sampled_from([0, 0, 3, 17, 1000]))
        for _ in range(draw(st.sampled_from([4, 1, 2, 7, 12]))):
            rows.append([s, (offset + draw(st.integers(0, span))) * unit, draw(st.sampled_from(names))])
    order = draw(st.permutations(list(range(len(rows)))))
    return {"rows": [rows[k] for k in order], "grid": draw(st.sampled_from(list(grids))), "decay": draw(st.sampled_from([1.0, .1, .5, 5.0, .01]))}


def frame(rows, columns=("seq_id", "time_stamp", "event_type"), index=None):
    import pandas as pd
    f = pd.DataFrame({columns[k]: [r[k] for r in rows] for k in range(3)})
    if index is not None:
        f.index = index
    return f


def learner(rows, decay, grid, seed=0, **kw):
    from cdmir.discovery.point_process.SHP import SHP
    with hush():
        return SHP(frame(rows), decay, time_interval=grid, seed=seed, **kw)


def reference(rows, decay, grid):
    """Definition: {seq: {relative grid time: counts per type}}, names sorted."""
    names = sorted({r[2] for r in rows})
    by_seq = {}
    for s, t, e in rows:
        t = int(t / grid) * grid if grid is not None else t
        by_seq.setdefault(s, []).append((t, e))
    out = {}
    for s, evs in by_seq.items():
        t0 = min(t for t, _ in evs)
        d = out.setdefault(s, {})
        for t, e in evs:
            d.setdefault(t - t0, [0] * len(names))[names.index(e)] += 1
    return names, out


def observed(ctx, shp):
    """X_df and the arrays that go with it as {(seq, time): row number}."""
    keys = [tuple(k) for k in shp.X_df.index]
    ctx.require(len(set(keys)) == len(keys), "time steps listed twice: %r", keys)
    return {k: i for i, k in enumerate(keys)}


def statistics(ctx, shp):
    """Everything P01 speaks about, keyed by (sequence, time)."""
    pos = observed(ctx, shp)
    X, kap, integ = np.asarray(shp.X, float), np.asarray(shp.sum_t_X_kappa, float), np.asarray(shp.decay_effect_integral_to_T, float)
    ctx.require(X.shape == (len(pos), shp.n) and kap.shape == X.shape and integ.shape == X.shape, "shapes %r %r %r", X.shape, kap.shape, integ.shape)
    ctx.require(np.array_equal(X, np.asarray(shp.X_df.values, float)), "X and X_df differ")
    return {k: (X[i], kap[i], integ[i]) for k, i in pos.items()}


@SUITE.sub("statistics", strategy=tables(), quick=700, thorough=20000, shards=8)
def stats_match(case, ctx):
    rows, decay, grid = case["rows"], case["decay"], case["grid"]
    shp = learner(rows, decay, grid)
    names, ref = reference(rows, decay, grid)
    ctx.require(list(shp.event_names) == names and shp.n == len(names), "event names %r, expected %r", list(shp.event_names), names)
    got = statistics(ctx, shp)
    want = {(s, t) for s, d in ref.items() for t in d}
    ctx.require(set(got) == want, "time steps %r, expected %r", sorted(set(got) - want, key=repr), sorted(want - set(got), key=repr))
    span = 0
    for s, d in ref.items():
        T = max(d)
        span += T
        ctx.require(abs(float(shp.T_each_seq[s]) - T) <= 1e-9 * max(1, T), "span of sequence %r is %r, expected %r", s, shp.T_each_seq[s], T)
        for t in d:
            x, kap, integ = got[(s, t)]
            ctx.require(list(x) == list(d[t]), "counts at sequence %r time %r: %r, expected %r", s, t, x, d[t])
            full = np.zeros(len(names))
            sure = np.zeros(len(names))
            for u in d:
                if u <= t:
                    w = math.exp(-decay * (t - u))
                    full += w * np.array(d[u], float)
                    if w >= 1e-4 * (1 + 1e-9):
                        sure += w * np.array(d[u], float)
            ctx.require(np.all(kap <= full + 1e-9 * (1 + full)) and np.all(kap >= sure - 1e-9 * (1 + full)),
                        "influence at sequence %r time %r: %r, expected %r (at least %r)", s, t, kap, full, sure)
            ctx.close(integ, np.array(d[t], float) * (1 - math.exp(-decay * (T - t))) / decay, "integrated influence at sequence %r time %r" % (s, t))
    ctx.require(abs(float(shp.T) - span) <= 1e-9 * max(1, span), "total span %r, expected %r", shp.T, span)
    steps = [r[:2] for r in rows]
    ctx.nontrivial(len(ref) >= 2 and len(names) >= 2 and any(steps.count(x) > 1 for x in steps))
    ctx.label("grid", grid is not None)
    ctx.label("real times", any(isinstance(r[1], float) and r[1] != int(r[1]) for r in rows))
    ctx.label("string ids", isinstance(rows[0][0], str))


@st.composite
def crowded(draw):
    """More sequences, types and events than the small tables."""
    r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    n_seq, n_type = draw(st.sampled_from([6, 10, 1, 3])), draw(st.sampled_from([7, 9, 5, 12]))
    kind, tk = draw(st.sampled_from(["int", "str", "neg"])), draw(st.sampled_from(["int", "str", "gap"]))
    ids = r.permutation(n_seq) if kind == "int" else -r.permutation(n_seq) * 3 if kind == "neg" else np.array(["s%d" % k for k in r.permutation(n_seq)])
    names = np.arange(n_type) if tk == "int" else r.permutation(100)[:n_type] if tk == "gap" else np.array(["e%d" % k for k in r.permutation(20)[:n_type]])
    unit, span = draw(st.sampled_from([1, .25, 8])), draw(st.sampled_from([30, 200, 2000]))
    rows = []
    for s in ids.tolist():
        for _ in range(draw(st.sampled_from([25, 60, 120]))):
            rows.append([s, int(r.randint(span)) * unit, names[r.randint(n_type)].tolist() if tk != "str" else str(names[r.randint(n_type)])])
    return {"rows": [rows[k] for k in r.permutation(len(rows))], "grid": draw(st.sampled_from([None, 1, 5, 20, 2.5])), "decay": draw(st.sampled_from([.1, .5, 1.0, .01]))}


SUITE.sub("crowded", strategy=crowded(), quick=48, thorough=1000, shards=8)(stats_match)


@st.composite
def variants(draw, tables=tables):
    c = draw(tables())
    n = len(c["rows"])
    c["order"] = draw(st.permutations(list(range(n))))
    ids = sorted({r[0] for r in c["rows"]})
    pool = {"int": [4, 0, 11, 2], "neg": [-1, -5, 8, 3], "str": ["z", "m", "a", "zz"]}[draw(st.sampled_from(["int", "neg", "str"]))]
    perm = draw(st.permutations(pool))
    c["relabel"] = [[i, perm[k]] for k, i in enumerate(ids)]
    step = c["grid"] if c["grid"] is not None else draw(st.sampled_from([1, .25]))
    c["shift"] = [[i, draw(st.sampled_from([0, 1, 3, 40, 5000])) * step] for i in ids]
    return c


@SUITE.sub("invariance", strategy=variants(), quick=300, thorough=8000, shards=8)
def invariance(case, ctx):
    rows, decay, grid = case["rows"], case["decay"], case["grid"]
    base_l = learner(rows, decay, grid)
    base = statistics(ctx, base_l)

    def same(other, ids, what, exact=False):
        o = statistics(ctx, other)
        ctx.require(len(o) == len(base), "%s: %d time steps, %d before", what, len(o), len(base))
        ctx.require(list(other.event_names) == list(base_l.event_names), "%s: event names change", what)
        ctx.require(abs(float(other.T) - float(base_l.T)) <= 1e-9 * max(1, float(base_l.T)), "%s: time span %r, %r before", what, other.T, base_l.T)
        for (s, t), v in base.items():
            w = o.get((ids[s], t))
            ctx.require(w is not None, "%s: sequence %r has no step at %r", what, ids[s], t)
            for a, b, name in zip(v, w, ("counts", "influence", "integrated influence")):
                ctx.close(b, a, "%s: %s at sequence %r time %r" % (what, name, s, t), rtol=1e-9, atol=1.1e-4 * len(rows) if name == "influence" and not exact else 1e-9)

    keep = {r[0]: r[0] for r in rows}
    same(learner([rows[k] for k in case["order"]], decay, grid), keep, "rows reordered", exact=True)
    new = {a: b for a, b in case["relabel"]}
    same(learner([[new[r[0]], r[1], r[2]] for r in rows], decay, grid), new, "sequences relabelled", exact=True)
    sh = {a: b for a, b in case["shift"]}
    same(learner([[r[0], r[1] + sh[r[0]], r[2]] for r in rows], decay, grid), keep, "sequences shifted in time")
    only = rows[0][0]
    alone_rows = [r for r in rows if r[0] == only]
    alone = learner(alone_rows, decay, grid)
    o = statistics(ctx, alone)
    cols = [list(base_l.event_names).index(e) for e in alone.event_names]
    for (s, t), w in o.items():
        v = base.get((s, t))
        ctx.require(v is not None, "sequence %r alone has a step at %r that the whole table lacks", s, t)
        for a, b, name in zip(v, w, ("counts", "influence", "integrated influence")):
            ctx.close(b, a[cols], "sequence %r alone: %s at time %r" % (s, name, t), rtol=1e-9, atol=1e-9)
    ctx.nontrivial(len(keep) >= 2 and len(base) >= 3)


@SUITE.sub("caller_table", strategy=tables(), quick=150, thorough=3000, shards=8)
def caller_table(case, ctx):
    from cdmir.discovery.point_process.SHP import SHP, get_interval_events
    rows, decay, grid = case["rows"], case["decay"], case["grid"]
    columns = ("seq_id", "time_stamp", "event_type") if len(rows) % 2 else ("s", "t", "e")
    index = [3 * k % 7 for k in range(len(rows))] if len(rows) % 3 == 0 else None
    f = frame(rows, columns, index)
    before = f.copy(deep=True)
    structure = np.zeros((len({r[2] for r in rows}),) * 2)
    kept = structure.copy()
    with hush():
        shp = SHP(f, decay, time_interval=grid, init_structure=structure, seed=1)
    ctx.require(f.equals(before) and list(f.columns) == list(before.columns) and list(f.index) == list(before.index), "the learner changed the caller's table")
    plain = learner(rows, decay, grid)
    a, b = statistics(ctx, shp), statistics(ctx, plain)
    ctx.require(set(a) == set(b) and all(same(x, y) for k in a for x, y in zip(a[k], b[k])), "column names or the row index change the statistics")
    if float(shp.T) > 0:
        with hush():
            shp.Hill_Climb()
            shp.EM_not_HC(np.triu(np.ones(structure.shape), 1))
        ctx.require(f.equals(before), "fitting changed the caller's table")
        ctx.require(np.array_equal(structure, kept), "fitting changed the caller's structure")
        c = statistics(ctx, shp)
        ctx.require(set(c) == set(b) and all(same(x, y) for k in c for x, y in zip(c[k], b[k])), "fitting changed the statistics")
    g = frame(rows)
    before = g.copy(deep=True)
    step = grid if grid is not None else 20
    with hush():
        events = get_interval_events(g) if grid is None else get_interval_events(g, grid)
    ctx.require(g.equals(before), "get_interval_events changed the caller's table")
    seqs = list(dict.fromkeys(r[0] for r in rows))
    names = sorted({r[2] for r in rows})
    ctx.require(len(events) == len(seqs), "get_interval_events: %d sequences, expected %d", len(events), len(seqs))
    for s, per_type in zip(seqs, events):
        ctx.require(len(per_type) == len(names), "get_interval_events: %d types, expected %d", len(per_type), len(names))
        for e, ts in zip(names, per_type):
            want = sorted(float(int(r[1] / step) * step) for r in rows if r[0] == s and r[2] == e)
            ctx.require(sorted(float(x) for x in ts) == want, "get_interval_events: sequence %r type %r: %r, expected %r", s, e, ts, want)
    ctx.nontrivial(len(seqs) >= 2 and float(shp.T) > 0)
