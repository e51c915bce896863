"""Independent graph oracles (plain sets, no CDMIR code) and graph generators."""
import random
from itertools import combinations, permutations, product

from hypothesis import strategies as st


# ------------------------------------------------------------------ labels
LABEL_KINDS = ["int", "rev", "str", "tuple", "mixed", "float", "odd"]
ODD = ["", None, "a ", " x_1", False, "\u03b1", "A", "a", (), "10", "9", "-1", "$5", "{x}", "%d", "two  words", -3, "None of these", 1e300, frozenset({1})]


def label(kind, i):
    if kind == "int":
        return i
    if kind == "rev":
        return 100 - i
    if kind == "str":
        return "v%d" % i
    if kind == "tuple":
        return ("n", i)
    if kind == "mixed":
        return i if i % 2 == 0 else "%d" % (i - 1)
    if kind == "float":
        return i + 0.5
    if kind == "odd":
        return ODD[i] if i < len(ODD) else "%s%d" % (ODD[i % len(ODD)], i)
    if kind == "xi":
        return "x%d" % i
    raise ValueError(kind)


# ------------------------------------------------------------------ DAG oracles on 0..n-1
def is_acyclic(n, edges):
    indeg = [0] * n
    ch = [[] for _ in range(n)]
    for u, v in edges:
        indeg[v] += 1
        ch[u].append(v)
    stack = [v for v in range(n) if indeg[v] == 0]
    seen = 0
    while stack:
        u = stack.pop()
        seen += 1
        for w in ch[u]:
            indeg[w] -= 1
            if indeg[w] == 0:
                stack.append(w)
    return seen == n


def parents_of(n, edges):
    pa = [set() for _ in range(n)]
    for u, v in edges:
        pa[v].add(u)
    return pa


def ancestors(pa, s):
    """s and all its ancestors."""
    out, stack = set(s), list(s)
    while stack:
        u = stack.pop()
        for p in pa[u]:
            if p not in out:
                out.add(p)
                stack.append(p)
    return out


def d_separated(n, edges, x, y, z):
    """Moralised ancestral graph criterion."""
    pa = parents_of(n, edges)
    anc = ancestors(pa, {x, y} | set(z))
    adj = {u: set() for u in anc}
    for v in anc:
        ps = [p for p in pa[v] if p in anc]
        for p in ps:
            adj[v].add(p)
            adj[p].add(v)
        for p, q in combinations(ps, 2):
            adj[p].add(q)
            adj[q].add(p)
    stack, seen = [x], {x}
    while stack:
        u = stack.pop()
        for w in adj[u]:
            if w in seen or w in z:
                continue
            if w == y:
                return False
            seen.add(w)
            stack.append(w)
    return True


def skeleton(edges):
    return {frozenset(e) for e in edges}


def v_structures(edges, skel=None):
    skel = skeleton(edges) if skel is None else skel
    pa = {}
    for u, v in edges:
        pa.setdefault(v, set()).add(u)
    return {(frozenset((a, b)), v) for v, ps in pa.items() for a, b in combinations(sorted(ps), 2)
            if frozenset((a, b)) not in skel}


def extensions(n, directed, undirected, limit=None):
    """All consistent DAG extensions of the PDAG (directed, undirected): acyclic, same unshielded colliders."""
    directed = [tuple(e) for e in directed]
    und = [tuple(e) for e in undirected]
    skel = skeleton(directed) | skeleton(und)
    base_v = v_structures(directed, skel)
    out = []

    def reach(ch, a, b):
        stack, seen = [a], {a}
        while stack:
            u = stack.pop()
            if u == b:
                return True
            for w in ch[u]:
                if w not in seen:
                    seen.add(w)
                    stack.append(w)
        return False

    ch = [set() for _ in range(n)]
    pa = [set() for _ in range(n)]
    if not is_acyclic(n, directed):
        return out
    for u, v in directed:
        ch[u].add(v)
        pa[v].add(u)

    def rec(k):
        if limit is not None and len(out) >= limit:
            return
        if k == len(und):
            out.append(frozenset((u, v) for u in range(n) for v in ch[u]))
            return
        a, b = und[k]
        for u, v in ((a, b), (b, a)):
            if reach(ch, v, u):
                continue
            if any(frozenset((u, p)) not in skel for p in pa[v]):
                continue  # a new unshielded collider
            ch[u].add(v)
            pa[v].add(u)
            rec(k + 1)
            ch[u].discard(v)
            pa[v].discard(u)

    rec(0)
    assert all(v_structures(d, skel) == base_v for d in out[:3])
    return out


def cpdag(n, edges):
    """(directed set, undirected set of frozensets) of the Markov equivalence class of a DAG.

    Compelled edges found by intersecting all members (extensions of the pattern)."""
    edges = [tuple(e) for e in edges]
    skel = skeleton(edges)
    vs = v_structures(edges, skel)
    pat = set()
    for pair, v in vs:
        for p in pair:
            pat.add((p, v))
    und = [tuple(sorted(e)) for e in skel if not any(set(d) == set(e) for d in pat)]
    und.sort()
    if len(und) <= 9:
        ex = extensions(n, pat, und)
        common = frozenset.intersection(*ex)
    else:
        common = chickering_compelled(n, edges)
    return set(common), {e for e in skel if not any(frozenset(d) == e for d in common)}


def topo(n, edges):
    pa = parents_of(n, edges)
    out, done = [], set()
    while len(out) < n:
        for v in range(n):
            if v not in done and pa[v] <= done:
                out.append(v)
                done.add(v)
                break
        else:
            raise ValueError("cyclic")
    return out


def chickering_compelled(n, edges):
    """Chickering (1995) Order-Edges / Label-Edges."""
    pos = {v: i for i, v in enumerate(topo(n, edges))}
    pa = parents_of(n, edges)
    order = sorted(edges, key=lambda e: (pos[e[1]], -pos[e[0]]))
    lab = {}
    for x, y in order:
        if (x, y) in lab:
            continue
        stop = False
        for w in pa[x]:
            if lab.get((w, x)) == "c":
                if w not in pa[y]:
                    for p in pa[y]:
                        lab[(p, y)] = "c"
                    stop = True
                    break
                lab[(w, y)] = "c"
        if stop:
            continue
        comp = any(z != x and z not in pa[x] for z in pa[y])
        for p in pa[y]:
            if (p, y) not in lab:
                lab[(p, y)] = "c" if comp else "r"
    return {e for e in edges if lab[e] == "c"}


# ------------------------------------------------------------------ generators
@st.composite
def dags(draw, min_n=1, max_n=6, max_edges=None, density=None):
    """{'n', 'edges'}: DAG with edges in generated order and a generated topological order."""
    n = draw(st.integers(min_n, max_n))
    perm = draw(st.permutations(range(n)))
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    mode = draw(st.sampled_from(["sparse", "half", "dense"])) if density is None else density
    num = {"sparse": 3, "half": 5, "dense": 8}[mode]
    edges = []
    for i, j in pairs:
        if draw(st.integers(0, 9)) >= 10 - num:
            edges.append([perm[i], perm[j]])
    if max_edges is not None and len(edges) > max_edges:
        edges = edges[:max_edges]
    if len(edges) > 1 and draw(st.booleans()):
        edges = draw(st.permutations(edges))
    return {"n": n, "edges": [list(e) for e in edges]}


@st.composite
def named_dags(draw, **kw):
    d = draw(dags(**kw))
    d["labels"] = draw(st.sampled_from(LABEL_KINDS))
    d["order"] = list(draw(st.permutations(range(d["n"]))))
    return d


@st.composite
def pdags(draw, min_n=2, max_n=6, extendable=None):
    """{'n','directed','undirected'}; extendable=True: a DAG's pattern with some extra edges of the DAG kept directed."""
    d = draw(dags(min_n=min_n, max_n=max_n, density=draw(st.sampled_from(["half", "dense"]))))
    n, edges = d["n"], [tuple(e) for e in d["edges"]]
    kind = draw(st.sampled_from(["pattern", "bk", "raw"])) if extendable is None else ("bk" if extendable else "raw")
    skel = skeleton(edges)
    if kind in ("pattern", "bk"):
        keep = set()
        for pair, v in v_structures(edges, skel):
            for p in pair:
                keep.add((p, v))
        if kind == "bk":
            for e in edges:
                if e not in keep and draw(st.integers(0, 3)) == 0:
                    keep.add(e)
    else:
        keep = {e for e in edges if draw(st.integers(0, 9)) < 4}
        # some directions reversed, so that cycles and contradictions may appear
        keep = {(v, u) if draw(st.integers(0, 4)) < 2 else (u, v) for u, v in sorted(keep)}
    kept = {frozenset(e) for e in keep}
    und = [list(e) for e in edges if frozenset(e) not in kept]
    return {"n": n, "directed": [list(e) for e in sorted(keep)], "undirected": und,
            "order": list(draw(st.permutations(range(n)))), "labels": draw(st.sampled_from(LABEL_KINDS))}


def seeded_edges(n, seed, degree):
    """Edges of a random DAG on 0..n-1 with the given expected number of neighbours per node, in random order."""
    r = random.Random(seed)
    perm = list(range(n))
    r.shuffle(perm)
    p = min(1.0, degree / max(1, n - 1))
    e = [[perm[i], perm[j]] for i in range(n) for j in range(i + 1, n) if r.random() < p]
    r.shuffle(e)
    return e


@st.composite
def big_dags(draw, sizes, degrees=(1, 2, 3, 5)):
    """Larger random DAGs: drawn by seed, because shrinking them node by node is hopeless anyway."""
    n, seed = draw(st.sampled_from(sizes)), draw(st.integers(0, 10 ** 9))
    order = list(range(n))
    random.Random(seed + 1).shuffle(order)
    return {"n": n, "edges": seeded_edges(n, seed, draw(st.sampled_from(degrees))), "order": order,
            "labels": draw(st.sampled_from(LABEL_KINDS)), "seed": seed}


@st.composite
def big_pdags(draw, sizes, degrees=(2, 3, 5), kinds=("pattern", "bk", "raw")):
    d = draw(big_dags(sizes, degrees))
    r = random.Random(d["seed"] + 2)
    edges = [tuple(e) for e in d["edges"]]
    kind = draw(st.sampled_from(kinds))
    if kind == "raw":
        keep = {e for e in edges if r.random() < .5}
        keep = {(v, u) if r.random() < .15 else (u, v) for u, v in sorted(keep)}
    else:
        keep = {(p, v) for pair, v in v_structures(edges) for p in pair}
        if kind == "bk":
            share = r.choice([.05, .15, .4])
            keep |= {e for e in edges if r.random() < share}
    kept = {frozenset(e) for e in keep}
    und = [e if r.random() < .5 else e[::-1] for e in edges if frozenset(e) not in kept]
    return {"n": d["n"], "directed": [list(e) for e in sorted(keep)], "undirected": [list(e) for e in und], "order": d["order"],
            "labels": d["labels"]}


def one_extension(n, directed, undirected):
    """A consistent DAG extension by repeatedly taking out an admissible sink (Dor and Tarsi), or None."""
    adj = {v: set() for v in range(n)}
    out = {v: set() for v in range(n)}  # directed children
    und = {v: set() for v in range(n)}
    for u, v in directed:
        adj[u].add(v), adj[v].add(u), out[u].add(v)
    for u, v in undirected:
        adj[u].add(v), adj[v].add(u), und[u].add(v), und[v].add(u)
    left, dag = set(range(n)), {tuple(e) for e in directed}
    while left:
        for x in sorted(left):
            if out[x] & left or any((adj[x] & left) - {y} - adj[y] for y in und[x] & left):
                continue
            dag |= {(y, x) for y in und[x] & left}
            left.discard(x)
            break
        else:
            return None
    return dag


def implied(n, directed, undirected):
    """Directions shared by all consistent extensions: an edge is free only if both of its directions can be extended."""
    base = one_extension(n, directed, undirected)
    if base is None:
        return None
    found = {tuple(e) for e in directed}
    und = [tuple(e) for e in undirected]
    free = set()
    for u, v in und:
        if frozenset((u, v)) in free:
            continue
        x, y = (u, v) if (u, v) in base else (v, u)
        other = one_extension(n, list(directed) + [(y, x)], [e for e in und if e != (u, v)])
        # the reversed edge must not form an unshielded collider that the given graph does not have
        if other is not None and v_structures(other) == v_structures(base):
            free |= {frozenset(e) for e in base ^ other}
        else:
            found.add((x, y))
    return found


def all_dags(n):
    """Every labelled DAG on n nodes, as edge lists."""
    pairs = list(combinations(range(n), 2))
    for pick in product((0, 1, 2), repeat=len(pairs)):
        edges = [(a, b) if p == 1 else (b, a) for (a, b), p in zip(pairs, pick) if p]
        if is_acyclic(n, edges):
            yield edges


def all_pdags(n):
    pairs = list(combinations(range(n), 2))
    for pick in product((0, 1, 2, 3), repeat=len(pairs)):
        d = [(a, b) if p == 1 else (b, a) for (a, b), p in zip(pairs, pick) if p in (1, 2)]
        u = [(a, b) for (a, b), p in zip(pairs, pick) if p == 3]
        yield d, u


# ------------------------------------------------------------------ CDMIR graph construction
def build_dag(case):
    from cdmir.graph import DiGraph, Edge
    k = case.get("labels", "int")
    order = case.get("order") or list(range(case["n"]))
    g = DiGraph([label(k, i) for i in order])
    for u, v in case["edges"]:
        g.add_edge(Edge(label(k, u), label(k, v)))
    return g


def build_pdag(case):
    from cdmir.graph import PDAG, Edge, Mark
    k = case.get("labels", "int")
    order = case.get("order") or list(range(case["n"]))
    g = PDAG([label(k, i) for i in order])
    for u, v in case["directed"]:
        g.add_edge(Edge(label(k, u), label(k, v), Mark.Tail, Mark.Arrow))
    for u, v in case["undirected"]:
        g.add_edge(Edge(label(k, u), label(k, v), Mark.Tail, Mark.Tail))
    return g


def read_pdag(ctx, g, case):
    """Read a mixed graph back through its public queries as (directed, undirected) over indices."""
    from cdmir.graph import Mark
    k = case.get("labels", "int")
    back = {label(k, i): i for i in range(case["n"])}
    d, u = set(), set()
    for e in g.edges:
        a, b, ma, mb = e
        a, b = back[a], back[b]
        if (ma, mb) == (Mark.Tail, Mark.Arrow):
            d.add((a, b))
        elif (ma, mb) == (Mark.Arrow, Mark.Tail):
            d.add((b, a))
        elif (ma, mb) == (Mark.Tail, Mark.Tail):
            u.add(frozenset((a, b)))
        else:
            ctx.require(False, "edge %s has marks outside directed/undirected", e)
    return d, u


def snapshot(g):
    """Everything observable about a graph, for 'input is not modified' checks."""
    return (list(g.nodes), [tuple(e) for e in g.edges], g.to_numpy().tolist())


def members(n, edges, limit=None):
    """The DAGs of the Markov equivalence class of a DAG."""
    d, u = cpdag(n, edges)
    return extensions(n, sorted(d), sorted(tuple(sorted(e)) for e in u), limit)
