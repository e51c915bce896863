"""H02: cluster merging and set helpers against their set-theoretic meaning."""
import copy
import itertools

import numpy as np
from hypothesis import strategies as st

from harness import lhm
from harness.core import Suite

SUITE = Suite("H02", "lists of 0-10 groups (lists, tuples or sets) over at most 14 labels (names or integers), 15-30 groups over up to 60 labels, exhaustively all lists of up to 3 groups over 3 labels; helpers on all relations "
              "of a set to a family; oracle: union-find and Python sets; non-trivial: two groups that overlap, or a family with at least 2 members",
              ["labels of one list are comparable with each other (groups are returned sorted)"])


def lab(kind, i):
    return i if kind == "int" else "x%02d" % i


@st.composite
def groups(draw):
    m = draw(st.sampled_from([6, 9, 14, 4]))
    k = draw(st.sampled_from([4, 3, 6, 2, 10, 1, 0]))
    size = draw(st.sampled_from([2, 2, 3, 4]))
    gs = [draw(st.lists(st.integers(0, m - 1), min_size=1, max_size=size, unique=True)) for _ in range(k)]
    return {"groups": gs, "labels": draw(st.sampled_from(["str", "int"])), "as": draw(st.sampled_from(["list", "tuple", "set", "mixed"])), "order": draw(st.permutations(list(range(k))))}


def components(gs):
    comps = []
    for g in gs:
        g = set(g)
        rest = []
        for c in comps:
            if c & g:
                g |= c
            else:
                rest.append(c)
        comps = rest + [g]
    return comps


def cast(g, how, i):
    return {"list": list, "tuple": tuple, "set": set, "mixed": [list, tuple, set][i % 3]}[how](g)


def all_small(tier):
    subsets = [list(c) for r in (1, 2, 3) for c in itertools.combinations(range(3), r)]
    for k in range(4):
        for gs in itertools.product(subsets, repeat=k):
            yield {"groups": [list(g) for g in gs], "labels": "str", "as": "list", "order": list(range(k))}


def check_merge(case, ctx):
    M = lhm.module("Overlap_Merge")
    gs = [[lab(case["labels"], i) for i in g] for g in case["groups"]]
    arg = [cast(g, case["as"], i) for i, g in enumerate(gs)]
    keep = copy.deepcopy(arg)
    got = M.merge_list(arg)
    ctx.require(arg == keep and [type(a) for a in arg] == [type(a) for a in keep], "merging changed its input")
    want = components(gs)
    ctx.require(sorted(map(sorted, got)) == sorted(map(sorted, want)), "merged groups %r, connected components %r", got, want)
    ctx.require(all(len(set(g)) == len(g) for g in got), "a merged group repeats an element: %r", got)
    other = M.merge_list([list(reversed(list(arg[i]))) for i in case["order"]])
    ctx.require(sorted(map(sorted, other)) == sorted(map(sorted, got)), "another order of the groups merges to %r instead of %r", other, got)
    again = M.merge_list(got)
    ctx.require(sorted(map(sorted, again)) == sorted(map(sorted, got)), "merging again gives %r from %r", again, got)
    ctx.nontrivial(len(want) < len(gs) and len(gs) > 1)
    ctx.label("groups %d" % len(gs))


SUITE.sub("merge", strategy=groups(), quick=2000, thorough=40000, shards=4)(check_merge)
SUITE.sub("merge small", cases=all_small)(check_merge)


@st.composite
def many_groups(draw):
    m, k = draw(st.sampled_from([25, 40, 60])), draw(st.sampled_from([15, 22, 30]))
    r = np.random.RandomState(draw(st.integers(0, 10 ** 6)))
    gs = [r.choice(m, r.choice([2, 2, 3, 5]), replace=False).tolist() for _ in range(k)]
    if draw(st.booleans()):  # a chain of overlaps in random order
        gs = [[i, i + 1] for i in range(k)]
        gs = [gs[i] for i in r.permutation(k)]
    return {"groups": gs, "labels": draw(st.sampled_from(["str", "int"])), "as": draw(st.sampled_from(["list", "tuple", "set", "mixed"])), "order": r.permutation(k).tolist()}


SUITE.sub("merge many", strategy=many_groups(), quick=400, thorough=8000, shards=4)(check_merge)


@st.composite
def families(draw):
    m = draw(st.sampled_from([5, 3, 8]))
    el = st.integers(0, m - 1)
    fam = draw(st.lists(st.lists(el, min_size=0, max_size=4, unique=True), max_size=5))
    if draw(st.sampled_from([True, False])):  # members nearly equal to a larger set: one or two elements exchanged, added or left out
        m = 9
        s = draw(st.lists(st.integers(0, m - 1), min_size=3, max_size=6, unique=True))
        near = lambda: [x for x in range(m) if (x in s) != (draw(st.sampled_from([0, 0, 0, 1])) == 1)]
        fam = [draw(st.permutations(near())) for _ in range(draw(st.sampled_from([1, 2, 3, 5])))]
        more = [draw(st.permutations(near())) for _ in range(draw(st.sampled_from([0, 1, 3])))]
        return {"S": s, "family": [list(g) for g in fam], "more": [list(g) for g in more if g], "labels": draw(st.sampled_from(["str", "int"])), "as": draw(st.sampled_from(["list", "tuple", "set"]))}
    s = draw(st.one_of(st.lists(el, max_size=4, unique=True), st.sampled_from(fam) if fam else st.just([]), st.sampled_from(fam).map(lambda g: g[:-1]) if fam else st.just([0])))
    more = draw(st.lists(st.lists(el, min_size=1, max_size=3, unique=True), max_size=4))
    return {"S": s, "family": fam, "more": more, "labels": draw(st.sampled_from(["str", "int"])), "as": draw(st.sampled_from(["list", "tuple", "set"]))}


@SUITE.sub("helpers", strategy=families(), quick=2000, thorough=40000, shards=2)
def helpers(case, ctx):
    U = lhm.module("Utils")
    f = lambda g: [lab(case["labels"], i) for i in g]
    S = cast(f(case["S"]), case["as"], 0)
    fam = [cast(f(g), case["as"], 0) for g in case["family"]]
    dic = {"L%d" % (i + 1): g for i, g in enumerate(fam)}
    kS, kfam, kdic = copy.deepcopy(S), copy.deepcopy(fam), copy.deepcopy(dic)
    s, sets = set(S), [set(g) for g in fam]
    rel = {"=": [s == g for g in sets], "<": [s < g for g in sets], "<=": [s <= g for g in sets], ">": [s > g for g in sets], ">=": [s >= g for g in sets]}
    for op, want in rel.items():
        ctx.require(bool(U.GeneralSetOperator(S, fam, op)) == any(want), "%r %s some member of %r", S, op, fam)
    ctx.require(bool(U.GeneralSetContains(S, fam)) == any(rel["="]), "is %r a member of %r", S, fam)
    ctx.require(bool(U.GeneralSetCover(S, fam)) == any(rel["<="]), "is %r covered by %r", S, fam)
    ctx.require(bool(U.GeneralSetStrictCover(S, fam)) == any(rel["<"]), "is %r strictly covered by %r", S, fam)
    ctx.require(bool(U.GeneralDicContains(S, dic)) == any(rel["="]), "is %r a value of %r", S, dic)
    got = U.GetEarlyLearningByDic(S, dic)
    ctx.require(got in [k for k, e in zip(dic, rel["="]) if e] if any(rel["="]) else got == "", "name of %r in %r: %r", S, dic, got)
    ctx.require((S, fam, dic) == (kS, kfam, kdic), "a membership query changed its inputs")
    base, more = [f(g) for g in case["family"]], [f(g) for g in case["more"]]
    kmore = copy.deepcopy(more)
    out = U.ExtendList(copy.deepcopy(base), more)
    new = []
    for g in more:
        if set(g) not in [set(h) for h in base + new]:
            new.append(g)
    ctx.require([set(g) for g in out] == [set(g) for g in base + new], "extending %r by %r gives %r", base, more, out)
    ctx.require(more == kmore, "extending changed the added groups")
    MC = lhm.module("MergeCluster")
    for g in fam:
        ctx.require(bool(MC.TestOverlap(S, g)) == bool(s & set(g)), "do %r and %r overlap", S, g)
    ctx.nontrivial(len(fam) >= 2)
    ctx.label("member", any(rel["="]))


@st.composite
def clusterings(draw):
    """Clusters of 1..3 latents each over disjoint observed variables, in any causal order."""
    k = draw(st.sampled_from([3, 2, 4, 1]))
    dims = [draw(st.sampled_from([1, 1, 2, 3])) for _ in range(k)]
    sizes = [draw(st.sampled_from([2, 3, 4])) for _ in range(k)]
    return {"dims": dims, "sizes": sizes, "order": draw(st.permutations(list(range(k)))), "shuffle": draw(st.permutations(list(range(k)))),
            "impure": draw(st.lists(st.lists(st.sampled_from(["L1", "L2", "L3", "L4", "x0", "x1", "x2", "x3"]), min_size=2, max_size=4, unique=True), max_size=3))}


@SUITE.sub("latent index", strategy=clusterings(), quick=800, thorough=15000, shards=2)
def index(case, ctx):
    MG, ICO = lhm.module("MakeGraph"), lhm.module("Infer_Causal_Order")
    c, clusters = 0, []
    for n in case["sizes"]:
        clusters.append(["x%d" % i for i in range(c, c + n)])
        c += n
    by = {}
    for i, d in enumerate(case["dims"]):
        by.setdefault(str(d), []).append(clusters[i])
    order = [list(reversed(clusters[i])) if k % 2 else list(clusters[i]) for k, i in enumerate(case["order"])]
    kby, korder = copy.deepcopy(by), copy.deepcopy(order)
    flat = ICO.GetCluster(by)
    ctx.require(sorted(map(sorted, flat)) == sorted(map(sorted, clusters)), "clusters %r listed as %r", by, flat)
    LI, roots, share = MG.Transfer2Index(by, order)
    ctx.require(by == kby and order == korder, "naming the latents changed the clusters")
    ctx.require(len(LI) == sum(case["dims"]), "%d latents named, %d expected", len(LI), sum(case["dims"]))
    for i, d in enumerate(case["dims"]):
        mine = [L for L in LI if set(LI[L]) == set(clusters[i])]
        ctx.require(len(mine) == d, "cluster %r of dimension %d got the latents %r", clusters[i], d, mine)
        ctx.require(sorted(mine) in [sorted(s) for s in share], "the latents %r of one cluster are not listed together in %r", mine, share)
    ctx.require(sum(len(s) for s in share) == len(LI), "latents sharing a cluster %r", share)
    ctx.require(sorted(roots) == sorted(LI), "ordered latents %r, named %r", roots, sorted(LI))
    pos = [next(i for i, o in enumerate(order) if set(o) == set(LI[r])) for r in roots]
    ctx.require(pos == sorted(pos), "latents %r are not in the order of their clusters %r", roots, order)
    for a in LI:
        for b in LI:
            if a != b:
                ctx.require(bool(MG.RmoveEdgeBetweenN_factor(a, b, share)) == (set(LI[a]) == set(LI[b])), "do %r and %r share their children", a, b)
    base = {L: list(v) for L, v in LI.items()}
    want = {L: set(v) for L, v in base.items()}
    for C in case["impure"]:
        for a, b in itertools.combinations(C, 2):
            if a in want:
                want[a].add(b)
    got = MG.tranImpureToLatentIndex({L: list(v) for L, v in base.items()}, copy.deepcopy(case["impure"]))
    ctx.require({L: set(v) for L, v in got.items()} == want, "impure clusters %r added to %r give %r", case["impure"], base, got)
    ctx.nontrivial(len(clusters) >= 2)
