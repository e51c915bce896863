"""H04: causal clusters, purity, merge rules and the bookkeeping of introduced latents."""
import copy
import itertools

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from harness import lhm
from harness import tables
from harness.core import Reject, Suite

SUITE = Suite("H04", "linear latent trees of 1-4 latents with 2-4 children each (pure, or pairs joined by an edge) sampled so that the sample covariance is the model's own; random tables, cluster pairs "
              "and levels for the merge rules; random merge results and latent indexes for the active-data update; oracles: the generating tree (groups, and purity by separation), "
              "conjunctions of independently computed tetrad p-values, column-by-column bookkeeping; non-trivial: two or more clusters, or at least one introduced latent",
              ["models whose non-vanishing tetrads are less than 6 standard errors from zero are rejected"])


@st.composite
def trees(draw):
    m = draw(st.sampled_from([3, 2, 4, 1, 3]))
    tree = [None] + [draw(st.integers(0, v - 1)) for v in range(1, m)]
    sizes = [draw(st.sampled_from([2, 3, 2, 4])) for _ in range(m)]
    if m == 1:
        sizes = [draw(st.sampled_from([4, 5]))]
    p = sum(sizes)
    return {"tree": tree, "sizes": sizes, "impure": [s == 2 and draw(st.booleans()) for s in sizes], "seed": draw(st.integers(0, 10 ** 6)),
            "names": draw(st.sampled_from(["x", "shuffled"])), "order": draw(st.permutations(list(range(p)))), "before": draw(st.booleans())}


def separating(tree, v):
    """v lies on the path between two other latents"""
    m = len(tree)
    deg = sum(1 for u in range(m) if tree[u] == v) + (tree[v] is not None)
    return deg >= 2


def model(case):
    rng = np.random.RandomState(case["seed"])
    S, groups = lhm.tree_model(case["tree"], case["sizes"], case["impure"], rng)
    n = 1200
    for q in itertools.combinations(range(len(S)), 4):
        for a, b, c, d in ((0, 1, 2, 3), (0, 2, 1, 3), (0, 3, 1, 2)):
            t, sd = lhm.tetrad(S, q[a], q[b], q[c], q[d], n)
            if 1e-9 < t < 6 * sd:
                raise Reject
    names = ["x%d" % i for i in range(len(S))]
    if case["names"] == "shuffled":
        names = [names[i] for i in case["order"]]
    df = lhm.exact_sample(S, n, rng, names)
    df = df[[names[i] for i in case["order"]]]
    return df, [[names[i] for i in g] for g in groups]


sets = lambda gs: sorted(sorted(map(str, g)) for g in gs)


@SUITE.sub("clusters", strategy=trees(), quick=240, thorough=4000, shards=8)
def clusters(case, ctx):
    F, T, M = lhm.module("FindCausalCluster"), lhm.module("TetradMethod"), lhm.module("MergeCluster")
    df, groups = model(case)
    keep = df.copy()
    pure0, impure0 = ([["q1", "q2"]], [["q3", "q4"]]) if case["before"] else ([], [])
    got, pure, impure, pairs = F.FindCausalCluster(df, copy.deepcopy(pure0), copy.deepcopy(impure0), .01)
    ctx.require(df.equals(keep), "finding clusters changed the data")
    ctx.require(sets(got) == sets(groups), "clusters %r, children of one latent %r", got, groups)
    want = [pair for g in groups for pair in itertools.combinations(sorted(g), 2)]
    ctx.require(sets(pairs) == sets(want), "pairs found %r, expected %r", pairs, want)
    wp = [g for v, g in enumerate(groups) if len(g) > 2 or (separating(case["tree"], v) and not case["impure"][v])]
    wi = [g for g in groups if g not in wp]
    ctx.require(sets(pure) == sets(pure0 + wp), "pure clusters %r, expected %r", pure, pure0 + wp)
    ctx.require(sets(impure) == sets(impure0 + wi), "impure clusters %r, expected %r", impure, impure0 + wi)
    for v, g in enumerate(groups):
        if len(df.columns) - len(g) >= 2:
            ctx.require(bool(T.CheckCausalCluster(list(g), df)) is True, "the children %r of one latent are no cluster", g)
        if len(g) == 2:
            ctx.require(bool(T.JudgePureCluster(list(g), df)) == (g in wp), "is the cluster %r pure", g)
    if len(groups) > 1:
        c = [groups[0][0], groups[1][0]]
        ctx.require(bool(T.CheckCausalCluster(c, df)) is False, "the children %r of two latents are a cluster", c)
    # the first round of merging keeps every variable in exactly one place
    res = M.MergeCausalCluster(copy.deepcopy(got), pure, impure, copy.deepcopy(got), [], {}, df, df.copy(), .01)
    (merged, early_impure, removed, introduced, rest), LI = res[0], res[5]
    ctx.require(df.equals(keep), "merging clusters changed the data")
    ctx.require(removed == [] and LI == {}, "clusters %r absorbed into latents %r before any latent was introduced", removed, LI)
    ctx.require(sorted(sum((list(c) for c in merged + early_impure + introduced), []) + list(rest)) == sorted(df.columns), "after merging: %r of the variables %r", res[0], list(df.columns))
    ctx.require(all(any(set(g) <= set(c) for c in merged + early_impure + introduced) for g in groups), "a cluster of %r was split: %r", groups, res[0])
    ctx.require(all(sorted(c) in sets(wp) for c in introduced) and all(sorted(c) in sets(wi) for c in early_impure), "pure %r and impure %r clusters introduced as %r and %r", wp, wi, introduced, early_impure)
    merged_of = [[g for g in groups if set(g) <= set(c)] for c in merged]
    ctx.require(all(len(gs) >= 2 and any(g in wi for g in gs) for gs in merged_of), "clusters merged: %r", merged_of)
    # two clusters that the rules join: every remaining variable gives a vanishing tetrad
    ctx.nontrivial(len(groups) >= 2)
    ctx.label("latents %d" % len(groups))
    ctx.label("impure", any(case["impure"]))
    ctx.label("merged", bool(merged))


@st.composite
def rules(draw):
    p = draw(st.sampled_from([6, 5, 7]))
    cols = draw(st.permutations(list(range(p))))
    a = draw(st.sampled_from([2, 3]))
    b = draw(st.sampled_from([2, 1, 2]))
    return {"n": draw(st.sampled_from([60, 30, 200])), "kind": draw(st.sampled_from(["factor", "factor", "weak", "gauss", "indep"])), "seed": draw(st.integers(0, 10 ** 6)), "p": p,
            "A": cols[:a], "B": cols[a:a + b], "alpha": draw(st.sampled_from([.01, .05, .3])), "sharp": draw(st.integers(0, 40))}


@SUITE.sub("rules", strategy=rules(), quick=800, thorough=15000, shards=8)
def merge_rules(case, ctx):
    T, M = lhm.module("TetradMethod"), lhm.module("MergeCluster")
    rng = np.random.RandomState(case["seed"])
    n, p = case["n"], case["p"]
    x = rng.normal(size=(n, 1)) + rng.normal(size=(n, p)) if case["kind"] == "weak" else lhm.table(case["kind"], n, p, rng)
    names = ["x%d" % i for i in range(p)]
    df = tables.frame(x, names)
    keep = df.copy()
    S = lhm.cov(x)
    A, B = list(case["A"]), list(case["B"])
    rest = [i for i in range(p) if i not in A]
    pv = lambda i, j, k, l: lhm.tetrad_p(S, i, j, k, l, n)
    ps = {"cluster": [pv(i, j, k, l) for i, j in itertools.combinations(A, 2) for k, l in itertools.combinations(rest, 2)]}
    out = [i for i in rest if i not in B]
    ps["pure"] = [pv(A[0], k, A[1], s) for k, s in itertools.permutations([i for i in range(p) if i not in A[:2]], 2)]  # either order of k, s will do
    ps["impure"] = [pv(A[0], B[0], k, s) for k, s in itertools.combinations(out, 2)]
    ps["mixed"] = [pv(A[0], B[0], A[1], s) for s in out]
    if len(B) >= 2:
        ps["pures"] = [pv(A[0], B[0], A[1], B[1]), pv(A[0], A[1], B[0], B[1]), pv(A[0], B[1], A[1], B[0])]
    else:
        ps["pures"] = [pv(A[0], B[0], A[1], s) for s in out]
    # levels on either side of the deciding p-value of one rule: an exact search for the conjunctions
    name = sorted(ps)[case["sharp"] % 5]
    cut = (max if name == "pure" else min)(ps[name]) if ps[name] else .5
    nm = lambda c: [names[i] for i in c]
    for alpha in (case["alpha"], cut * (1 - 1e-4), cut * (1 + 1e-4)):
        if not 0 < alpha < 1 or any(abs(q - alpha) <= 5e-5 * alpha + 1e-12 for v in ps.values() for q in v):
            continue
        every = lambda k: all(q > alpha for q in ps[k])
        ctx.require(bool(T.CheckCausalCluster(nm(A), df, alpha)) == every("cluster"), "cluster %r at level %r, p-values %r", nm(A), alpha, ps["cluster"])
        passed = {(k, s): pv(A[0], k, A[1], s) > alpha for k, s in itertools.permutations([i for i in range(p) if i not in A[:2]], 2)}
        least, most = any(passed[k, s] and passed[s, k] for k, s in passed), any(passed.values())
        ctx.require(least <= bool(T.JudgePureCluster(nm(A[:2]), df, alpha)) <= most, "purity of %r at level %r, p-values %r", nm(A[:2]), alpha, ps["pure"])
        ctx.require(bool(M.TestImpureWithImpure(nm(A), nm(B), df, alpha)) == every("impure"), "impure clusters %r %r at level %r, p-values %r", nm(A), nm(B), alpha, ps["impure"])
        ctx.require(bool(M.TestPureWithImpure(nm(A), nm(B), df, alpha)) == every("mixed"), "pure %r with impure %r at level %r, p-values %r", nm(A), nm(B), alpha, ps["mixed"])
        ctx.require(bool(M.TestPureWithPure(nm(A[:2]), nm(B), df.drop(columns=nm(A[2:])), alpha)) == (every("pures")), "pure clusters %r %r at level %r, p-values %r", nm(A[:2]), nm(B), alpha, ps["pures"])
        ctx.label("cluster", every("cluster"))
        ctx.label("impure merge", every("impure"))
        ctx.label("mixed merge", every("mixed"))
        ctx.label("pure merge", every("pures"))
    ctx.require(bool(T.CheckCausalCluster(nm(range(p - 1)), df, .01)) is False, "a cluster leaving one other variable")
    ctx.require(df.equals(keep), "a rule changed the data")
    ctx.nontrivial()


@st.composite
def rounds(draw):
    obs = draw(st.sampled_from([8, 5, 10]))
    old = draw(st.sampled_from([0, 1, 2]))
    names = ["x%d" % i for i in range(obs)] + ["L%d" % (i + 1) for i in range(old)]
    cols = draw(st.permutations(names))
    left = list(cols)
    take = lambda k: [left.pop() for _ in range(min(k, len(left)))]
    merged = [c for c in (take(draw(st.sampled_from([2, 3, 4]))) for _ in range(draw(st.sampled_from([1, 0, 2])))) if len(c) >= 2]
    intro = [c for c in (take(draw(st.sampled_from([2, 3]))) for _ in range(draw(st.sampled_from([1, 0, 2])))) if len(c) >= 2]
    removed = []
    for L in [v for v in left if v[0] == "L"]:
        if draw(st.booleans()):
            xs = [v for v in left if v[0] == "x"][:draw(st.sampled_from([1, 2]))]
            if xs:
                left = [v for v in left if v not in xs]
                removed.append([L] + xs)
    used = set(sum(merged + intro + removed, []))
    return {"columns": cols, "merged": merged, "introduced": intro, "removed": removed, "rest": [c for c in cols if c not in used], "next": old + 1, "seed": draw(st.integers(0, 10 ** 6))}


@SUITE.sub("active data", strategy=rounds(), quick=800, thorough=15000, shards=4)
def active(case, ctx):
    U = lhm.module("UpdataData")
    rng = np.random.RandomState(case["seed"])
    df = tables.frame(rng.normal(size=(6, len(case["columns"]))), case["columns"])
    keep = df.copy()
    old = {"L%d" % i: ["o%d" % i, "p%d" % i] for i in range(1, case["next"])}
    LI = copy.deepcopy(old)
    res = copy.deepcopy([case["merged"], [], case["removed"], case["introduced"], set(case["rest"])])
    out, nxt, LI = U.UpdataData(res, case["next"], LI, df)
    new = case["merged"] + case["introduced"]
    ctx.require(df.equals(keep), "updating the active data changed the table it was given")
    ctx.require(nxt == case["next"] + len(new), "next latent number %r after %d new latents from %r", nxt, len(new), case["next"])
    names = ["L%d" % i for i in range(case["next"], nxt)]
    ctx.require(set(LI) == set(old) | set(names) and all(LI[k] == v for k, v in old.items()), "latent index %r after %r", LI, old)
    ctx.require(sets(LI[k] for k in names) == sets(new), "new latents %r for the clusters %r", {k: LI[k] for k in names}, new)
    gone = set(sum(new, [])) | set(sum((c[1:] for c in case["removed"]), []))
    stay = [c for c in case["columns"] if c not in gone]
    ctx.require(sorted(out.columns) == sorted(stay + names), "active variables %r, expected %r", list(out.columns), stay + names)
    ctx.require(len(out) == len(df), "the update changed the number of rows")
    for c in stay:
        ctx.require(np.array_equal(out[c].to_numpy(), df[c].to_numpy()), "variable %r has the data of %r", c, [d for d in df if np.array_equal(out[c].to_numpy(), df[d].to_numpy())])
    for k in names:
        src = [d for d in df if np.array_equal(out[k].to_numpy(), df[d].to_numpy())]
        ctx.require(len(src) == 1 and src[0] in set(LI[k]), "the surrogate of %r with children %r has the data of %r", k, LI[k], src)
    ctx.nontrivial(bool(new))
    ctx.label("new latents %d" % len(new))


@st.composite
def hierarchies(draw):
    m = draw(st.sampled_from([3, 2, 4, 1]))
    LI, c = {}, 0
    free = []
    for v in range(1, m + 1):
        kids = ["x%d" % i for i in range(c, c + draw(st.sampled_from([2, 3])))]
        c += len(kids)
        for L in list(free):
            if draw(st.booleans()):
                kids.append(L)
                free.remove(L)
        LI["L%d" % v] = draw(st.permutations(kids))
        free.append("L%d" % v)
    return {"LI": LI, "active": free, "observed": c, "seed": draw(st.integers(0, 10 ** 6))}


def leaves(LI, v):
    return {v} if v not in LI else set().union(*(leaves(LI, c) for c in LI[v]))


@SUITE.sub("roll back", strategy=hierarchies(), quick=500, thorough=10000, shards=2)
def roll_back(case, ctx):
    U, MC = lhm.module("UpdataData"), lhm.module("MergeCluster")
    rng = np.random.RandomState(case["seed"])
    obs = ["x%d" % i for i in range(case["observed"])]
    ora = tables.frame(rng.normal(size=(5, len(obs))), obs)
    LI = copy.deepcopy(case["LI"])
    for L in LI:
        got = U.GetObservedForLatent(L, LI, obs)
        ctx.require(got in leaves(LI, L), "observed variable %r for %r with descendants %r", got, L, sorted(leaves(LI, L)))
    for o in obs[:2]:
        ctx.require(U.GetObservedForLatent(o, LI, obs) == o, "observed variable for the observed %r", o)
    data = pd.DataFrame({L: ora[sorted(leaves(LI, L))[0]].to_numpy() for L in case["active"]}, index=ora.index)
    data["y"] = rng.normal(size=5)
    keep, kora, kLI = data.copy(), ora.copy(), copy.deepcopy(LI)
    for L in case["active"]:
        pure = [list(LI[L])]
        out, two = U.roll_back(L, ora, data, LI, [], pure)
        ctx.require(data.equals(keep) and ora.equals(kora) and LI == kLI, "rolling back %r changed its inputs", L)
        ctx.require(L not in out.columns and all(c in out.columns for c in data.columns if c != L), "rolling back %r of %r leaves %r", L, list(data.columns), list(out.columns))
        ctx.require(len(set(two)) == 2 and set(two) <= leaves(LI, L), "measured variables %r of %r", two, sorted(leaves(LI, L)))
        for c in two:
            ctx.require(np.array_equal(out[c].to_numpy(), ora[c].to_numpy()), "rolled back variable %r has other data", c)
        for c in data.columns:
            if c != L:
                ctx.require(np.array_equal(out[c].to_numpy(), data[c].to_numpy()), "active variable %r has other data after rolling back", c)
    for L in LI:
        add = ["z1", LI[L][0]]
        for C in (add, [L, "z2"]):
            acc = [list(C)]
            LI2, acc2 = MC.UpdateLatentIndex(L, list(C), copy.deepcopy(LI), acc)
            ctx.require(set(LI2[L]) == set(LI[L]) | (set(C) - {L}), "children %r of %r extended by %r: %r", LI[L], L, C, LI2[L])
            ctx.require(all(set(LI2[k]) == set(LI[k]) for k in LI if k != L), "extending %r changed another latent: %r", L, LI2)
    ctx.nontrivial(len(LI) >= 2)


# many samples: blocked or thinned computations would show
SUITE.sub("rules many rows", strategy=st.tuples(rules(), st.sampled_from([1100, 3000])).map(lambda t: dict(t[0], n=t[1])), quick=80, thorough=2000, shards=8)(merge_rules)
