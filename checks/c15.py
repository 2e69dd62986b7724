from functools import partial
import random
import numpy
from checks.lib import *
from checks.c14 import any_tree_fn
from gerrychain.proposals import recom, ReCom, spectral_recom
from gerrychain.proposals.tree_proposals import MetagraphError
from gerrychain.tree import (bipartition_tree, bipartition_tree_random, ReselectException, BalanceError, PopulationBalanceError,
                             uniform_spanning_tree, find_balanced_edge_cuts_contraction)


def start(ctx, n, edges, pattern, kind, pops=None, data=None):
    fresh()
    nodes = ids(n, kind)
    vals = [ctx.num(f"p{i}", 1) if pops is None or pops[i] is None else pops[i] for i in range(n)]
    d = {"POP": vals}
    d.update(data or {})
    d["name"] = [f"node{i}" for i in range(n)]
    p = Partition(mkgraph(nodes, edges, d, {"shared_perim": [k + 0.5 for k in range(len(edges))]}), {v: pattern[i] for i, v in enumerate(nodes)})
    return nodes, vals, p


def pairs_of(edges, lab):
    return {frozenset((lab[i], lab[j])) for i, j in edges if lab[i] != lab[j]}


def pair_label(pair):
    return "pair " + "-".join(sorted(map(str, pair)))


def merged(ctx, p, q, nodes, edges, pattern, asked=None):
    """q is p with one adjacent pair of districts redrawn; returns the pair"""
    lab = list(pattern)
    new = [q.assignment[v] for v in nodes]
    ctx.check(q.parent is p, "the proposal's parent is not the given partition")
    ctx.check([p.assignment[v] for v in nodes] == lab, "the given partition changed")
    for k, (i, j) in enumerate(edges):
        ctx.check(p.graph.edges[nodes[i], nodes[j]].get("shared_perim") == k + 0.5, "the graph's edge data changed")
    for i, v in enumerate(nodes):
        ctx.check(set(p.graph.nodes[v]) == {"POP", "name"} and p.graph.nodes[v]["name"] == f"node{i}", "the graph's node data changed")
    ctx.check(len(p.graph.edges) == len(edges) and set(p.graph.nodes) == set(nodes), "the graph changed")
    adj = pairs_of(edges, lab)
    ctx.check(set(new) <= set(lab), "the proposal has new districts")
    if asked is not None:
        cands = [asked]
    else:
        cands = [c for c in adj]
    ok = [c for c in cands if all(new[i] == lab[i] if lab[i] not in c else new[i] in c for i in range(len(lab)))]
    ctx.check(bool(ok), "the proposal is not a redrawing of one pair of adjacent districts")
    ctx.check(asked is None or asked in adj, "the districts that were merged are not adjacent")
    return ok, new


def balanced(ctx, new, vals, edges, touched, target, eps):
    for d in touched:
        mem = [i for i in range(len(new)) if new[i] == d]
        ctx.check(bool(mem), "a district vanished")
        ctx.check(is_connected(mem, edges), "a redrawn district is not connected")
        ctx.check(le(Abs(Sum([vals[i] for i in mem]) - target), eps * target), "a redrawn district is not within epsilon of the target population")


def h_recom(ctx, n=4, edges=None, pattern=(0, 0, 1, 1), kind="int", how="tree", eps=0.25, target=None, pops=None, cls=False, attempts=1,
            reselect=False, tree="any", limit=None, balance=None, streams=None):
    if streams:
        ctx.stream(streams)
    if limit:
        ctx.rnd_limit = limit
    nodes, vals, p = start(ctx, n, edges, pattern, kind, pops)
    ks = len(set(pattern))
    if target is None:
        target = Sum(vals) / ks
    used = []
    at = any_tree_fn(ctx)

    def tree_fn(graph):
        used.append(frozenset(graph.nodes))
        return at(graph)

    kw = {"spanning_tree_fn": tree_fn, "max_attempts": attempts}
    if tree == "kruskal":
        del kw["spanning_tree_fn"]
    elif tree == "uniform":
        kw["spanning_tree_fn"] = uniform_spanning_tree
    if reselect:
        kw["allow_pair_reselection"] = True
    if balance:
        kw["balance_edge_fn"] = find_balanced_edge_cuts_contraction
    m = partial(bipartition_tree if how == "tree" else bipartition_tree_random, **kw)
    f = ReCom("POP", target, eps, method=m) if cls else partial(recom, pop_col="POP", pop_target=target, epsilon=eps, method=m)
    try:
        q = f(p)
    except (RuntimeError, BalanceError, PopulationBalanceError):
        ctx.check(not reselect, "gave up although another pair could be selected")
        ctx.cover("gave up")
        return
    except MetagraphError:
        ctx.check(reselect, "MetagraphError without pair reselection")
        if used:
            lab = {v: pattern[i] for i, v in enumerate(nodes)}
            tried = {frozenset(lab[v] for v in u) for u in used}
            ctx.check(tried == pairs_of(edges, pattern), "gave up before every adjacent pair was tried")
        ctx.cover("all failed")
        return
    lab = {v: pattern[i] for i, v in enumerate(nodes)}
    asked = frozenset(lab[v] for v in used[-1]) if used else None
    if used:
        ctx.check(used[-1] == {v for v in nodes if lab[v] in asked} and len(asked) == 2, "the merged piece is not the union of two districts")
    ok, new = merged(ctx, p, q, nodes, edges, pattern, asked)
    touched = asked if asked is not None else set(pattern) if ks == 2 else {d for d in set(new) if any((new[i] == d) != (pattern[i] == d) for i in range(n))}
    balanced(ctx, new, vals, edges, touched, target, eps)
    ctx.check(set(new) == set(pattern), "a district vanished")
    if asked:
        ctx.cover(pair_label(asked))
    ctx.cover("redrawn")
    ctx.observe("new", [str(x) for x in new])


def h_loop(ctx, n=5, edges=None, pattern=(0, 0, 1, 2, 2), kind="int", limit=12, repeats=1, surcharge=None):
    """Which pairs are tried: an arbitrary bipartition method that fails or succeeds at will."""
    ctx.rnd_limit = limit
    nodes, vals, p = start(ctx, n, edges, pattern, kind, [1] * n)
    lab = {v: pattern[i] for i, v in enumerate(nodes)}
    adj = pairs_of(edges, pattern)
    tried = []

    def method(graph, pop_col, pop_target, epsilon, node_repeats=None, one_sided_cut=False, region_surcharge=None):
        mem = frozenset(graph.nodes)
        pair = frozenset(lab[v] for v in mem)
        ctx.check(len(pair) == 2 and mem == {v for v in nodes if lab[v] in pair}, "the merged piece is not the union of two districts")
        ctx.check(pair in adj, "two districts that are not adjacent were merged")
        ctx.check(pair not in tried, "a pair that failed is tried again")
        es = {frozenset(e) for e in graph.edges}
        ctx.check(es == {frozenset((nodes[i], nodes[j])) for i, j in edges if nodes[i] in mem and nodes[j] in mem}, "the merged piece is not the induced subgraph")
        ctx.check(pop_col == "POP" and pop_target == 7 and epsilon == 10 and node_repeats == repeats and not one_sided_cut, "recom passes wrong parameters to its bipartition method")
        ctx.check(region_surcharge == surcharge, "recom does not pass the region surcharge on")
        tried.append(pair)
        if ctx.flag("fails"):
            raise ReselectException("no")
        return frozenset(v for v in mem if lab[v] == min(pair) ) if ctx.flag("keep") else frozenset([sorted(mem, key=repr)[0]])

    kw = {"region_surcharge": surcharge} if surcharge else {}
    try:
        q = recom(p, "POP", 7, 10, node_repeats=repeats, method=method, **kw)
    except MetagraphError:
        ctx.check(set(tried) == adj, "gave up before every adjacent pair failed")
        ctx.cover("all failed")
        return
    ctx.check(len(tried) >= 1, "nothing was tried")
    merged(ctx, p, q, nodes, edges, pattern, tried[-1])
    ctx.cover(pair_label(tried[0]))
    ctx.cover("redrawn")
    if len(tried) == 2:
        ctx.cover(" then ".join(map(pair_label, tried)))
    ctx.cover(f"after {len(tried) - 1} failures")


def h_spectral(ctx, n=4, edges=None, pattern=(0, 0, 1, 1), kind="int", lap="normalized", weights=None):
    """The eigenvector is an arbitrary vector."""
    nodes, vals, p = start(ctx, n, edges, pattern, kind, [1] * n)
    vec = {}
    sizes = []
    kept = numpy.linalg.eigh

    def eigh(mat):
        k = mat.shape[0]
        sizes.append(k)
        out = numpy.empty((k, k), dtype=object)
        for i in range(k):
            for j in range(k):
                out[i, j] = 0.0
            vec[i] = ctx.real(f"x{i}", -1, 1)
            out[i, 1] = vec[i]
        return [0.0] * k, out

    numpy.linalg.eigh = eigh
    drawn, rnd = [], random.random
    if weights:
        # the vector is arbitrary whatever the weights are
        def draw():
            drawn.append(1)
            return (len(drawn) * 5 % 8 + 1) / 16

        random.random = draw
    try:
        q = spectral_recom(p, weights, lap) if lap else spectral_recom(p, lap_type="standard", weight_type=weights)
    finally:
        numpy.linalg.eigh = kept
        random.random = rnd
    ok, new = merged(ctx, p, q, nodes, edges, pattern)
    if sizes:
        pair = None
        for c in pairs_of(edges, pattern):
            mem = [i for i in range(n) if pattern[i] in c]
            if c in ok and len(mem) == sizes[-1]:
                pair = c
                # nodes are sorted into two groups by the sign of the vector
                same = And([Iff(gt(vec[a], 0), gt(vec[b], 0)) if new[mem[a]] == new[mem[b]] else Not(Iff(gt(vec[a], 0), gt(vec[b], 0)))
                            for a in range(len(mem)) for b in range(a)])
                ctx.cover(pair_label(c))
                if len(ok) == 1 and sum(1 for d in pairs_of(edges, pattern) if len([i for i in range(n) if pattern[i] in d]) == sizes[-1]) == 1 and kind == "int":
                    ctx.check(same, "the two sides are not the sign classes of the vector")
    ctx.cover("redrawn")
    ctx.observe("new", [str(x) for x in new])


def h_spectral_real(ctx, n=4, edges=None, pattern=(0, 0, 1, 1), kind="int"):
    """The real eigenvector (no symbolic data), every choice of the merged pair and kept labels."""
    nodes, vals, p = start(ctx, n, edges, pattern, kind, [1] * n)
    q = spectral_recom(p)
    ok, new = merged(ctx, p, q, nodes, edges, pattern)
    ctx.cover("redrawn")


C4, P4 = cycle(4), path(4)
P5, P6 = path(5), path(6)
HOUSE = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]
G23 = grid_edges(2, 3)
ASSUMPTIONS = ["positive populations", "plans with at least one cut edge", "the bipartition method is given a bounded number of attempts",
               "spectral: the eigenvector computation is a stub returning an arbitrary vector"]
CASES = []


def add(name, covers, h=h_recom, thorough=False, reach=(), **kw):
    CASES.append(Case(name, h, kw, covers, thorough=thorough, reach=reach, bounds=f"{kw}; populations arbitrary unless given"))


def rp(edges, pattern):
    return [pair_label(c) for c in pairs_of(edges, pattern)]


def rp2(edges, pattern):
    """every pair, and every pair after every other one failed"""
    return rp(edges, pattern) + [f"{a} then {b}" for a in rp(edges, pattern) for b in rp(edges, pattern) if a != b]


for how in ("tree", "random"):
    for cls in (False, True):
        t = f"{how}{'-class' if cls else ''}"
        add(f"{t}-c4", ["redrawn", "gave up"], how=how, cls=cls, edges=C4, kind="str" if cls else "int")
        add(f"{t}-3-p5", ["redrawn", "gave up"], how=how, cls=cls, n=5, edges=P5, pattern=(4, 4, 1, 1, 9), reach=rp(P5, (4, 4, 1, 1, 9)), target=8, eps=0.25, pops=[None, None, None, 3, None],
            kind="tuple" if cls else "shuffled")
        add(f"{t}-str", ["redrawn", "gave up"], how=how, cls=cls, edges=P4, pattern=("b", "b", "a", "a"), target=5, eps=0.5, attempts=2)
    add(f"{how}-singles", ["redrawn"], how=how, n=2, edges=path(2), pattern=(0, 1), eps=0.5)
    add(f"{how}-kruskal", ["redrawn", "gave up"], how=how, edges=C4, tree="kruskal")
    add(f"{how}-contract", ["redrawn", "gave up"], how=how, edges=C4, balance="c", pattern=(1, 0, 0, 0))
    add(f"{how}-uniform", ["redrawn", "gave up"], how=how, n=3, edges=path(3), pattern=(0, 1, 1), tree="uniform", limit=10, eps=0.5)
    add(f"{how}-3-c5", ["redrawn", "gave up"], how=how, n=5, edges=cycle(5), pattern=(0, 0, 1, 1, 2), target=4, eps=0.5, pops=[None, 2, None, 2, 3], reach=rp(cycle(5), (0, 0, 1, 1, 2)))
add("reselect-p5", ["redrawn", "all failed"], n=5, edges=P5, pattern=(0, 0, 1, 1, 2), target=8, eps=0.25, reselect=True, pops=[None, None, 3, None, 4], limit=14)
add("reselect-c4", ["redrawn", "all failed"], n=4, edges=C4, pattern=(0, 0, 1, 2), target=4, eps=0.5, reselect=True, pops=[None, 2, None, 3], limit=10)
add("loop-p5", ["redrawn", "all failed", "after 0 failures", "after 1 failures"], h=h_loop, edges=P5, reach=rp2(P5, (0, 0, 1, 2, 2)), repeats=3)
add("loop-c5", ["redrawn", "all failed", "after 2 failures"], h=h_loop, edges=cycle(5), pattern=(0, 1, 1, 2, 2), kind="str", reach=rp2(cycle(5), (0, 1, 1, 2, 2)), surcharge={"c": 1}, limit=7)
add("loop-p6", ["redrawn", "all failed"], h=h_loop, n=6, edges=P6, pattern=("a", "a", "c", "b", "b", "d"), kind="offset", reach=rp2(P6, "aacbbd"), limit=6)
add("loop-mixed", ["redrawn", "all failed", "after 1 failures"], h=h_loop, n=4, edges=P4, pattern=(1, 0, 1, 2), reach=rp2(P4, (1, 0, 1, 2)), limit=9)
add("loop-ladder", ["redrawn", "all failed", "after 1 failures"], h=h_loop, n=6, edges=G23, pattern=("a", "b", "c", "b", "a", "c"), kind="shuffled", reach=rp2(G23, "abcbac"), limit=5)
add("loop-star", ["redrawn", "all failed"], h=h_loop, n=4, edges=star(4), pattern=(5, 3, 4, 4), kind="tuple", reach=rp2(star(4), (5, 3, 4, 4)), limit=10)
add("spectral-c4", ["redrawn"], h=h_spectral, edges=C4, reach=rp(C4, (0, 0, 1, 1)))
add("spectral-3", ["redrawn"], h=h_spectral, n=5, edges=P5, pattern=(0, 1, 1, 2, 2), kind="str", reach=rp(P5, (0, 1, 1, 2, 2)))
add("spectral-3u", ["redrawn"], h=h_spectral, n=5, edges=P5, pattern=(0, 0, 1, 2, 2), lap=None, reach=rp(P5, (0, 0, 1, 2, 2)))
add("spectral-random", ["redrawn"], h=h_spectral, n=5, edges=P5, pattern=(0, 0, 1, 2, 2), weights="random", reach=rp(P5, (0, 0, 1, 2, 2)))
add("spectral-random-u", ["redrawn"], h=h_spectral, n=6, edges=G23, pattern=(0, 0, 1, 2, 2, 1), lap=None, weights="random", kind="str", reach=rp(G23, (0, 0, 1, 2, 2, 1)))
add("spectral-real", ["redrawn"], h=h_spectral_real, n=6, edges=G23, pattern=(0, 0, 1, 0, 1, 1), kind="tuple")
add("house", ["redrawn", "gave up"], n=5, edges=HOUSE, pattern=(0, 0, 1, 1, 0), eps=0.25, thorough=True)
add("g23-3", ["redrawn", "gave up"], n=6, edges=G23, pattern=(0, 1, 2, 0, 1, 2), eps=0.25, target=8, thorough=True)
add("reselect-p6", ["redrawn", "all failed"], n=6, edges=P6, pattern=(0, 0, 1, 1, 2, 2), target=8, eps=0.25, reselect=True, limit=16, thorough=True)
G20 = [i // 20 // 5 * 2 + i % 20 // 10 for i in range(400)]
for how, tr in (("tree", "kruskal"), ("random", "kruskal"), ("tree", "uniform"), ("random", "uniform")):
    add(f"{how}-{tr}-large", ["redrawn"], how=how, n=400, edges=grid_edges(20, 20), pattern=G20, pops=[1] * 400, target=50, eps=0.25, tree=tr, attempts=5000, kind="shuffled", streams=2)
add("tree-deep", ["redrawn"], n=2048, edges=path(2048), pattern=[0] * 1024 + [1] * 1024, pops=[1] * 2048, target=1024, eps=0.0078125, tree="kruskal", attempts=10, streams=2)
