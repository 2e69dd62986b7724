from checks.lib import *
from gerrychain.tree import random_spanning_tree, uniform_spanning_tree


def tree_label(es):
    return "tree " + " ".join(f"{i}{j}" for i, j in sorted(tuple(sorted(e)) for e in es))


def spanning_trees(n, edges):
    return [tree_label(es) for es in itertools.combinations(edges, n - 1) if is_connected(range(n), es)]


def claims(ctx, t, nodes, edges):
    es = {frozenset((nodes[i], nodes[j])) for i, j in edges}
    got = {frozenset(e) for e in t.edges}
    ctx.check(set(t.nodes) == set(nodes), "the tree does not span the graph's nodes")
    ctx.check(got <= es, "the tree has an edge that is not in the graph")
    ctx.check(len(got) == len(list(t.edges)) == len(nodes) - 1, "the tree does not have n-1 edges")
    ctx.check(is_connected(nodes, [tuple(e) for e in got]), "the tree is not connected")
    ix = {v: i for i, v in enumerate(nodes)}
    ctx.cover(tree_label([tuple(ix[x] for x in e) for e in got]))
    ctx.observe("tree", sorted(sorted(ix[x] for x in e) for e in got))
    return got


def h_kruskal(ctx, n=4, edges=None, kind="int", regions=None, surcharge=None, frozen=False, streams=None):
    fresh()
    if streams:
        ctx.stream(streams)
    nodes = ids(n, kind)
    g = mkgraph(nodes, edges, fresh_strings(regions))
    kept = {v: dict(g.nodes[v]) for v in nodes}
    kw = {} if surcharge is None else {"region_surcharge": dict(surcharge)}
    t = random_spanning_tree(g, **kw)
    got = claims(ctx, t, nodes, edges)
    ctx.check({v: dict(g.nodes[v]) for v in nodes} == kept, "the graph's node data changed")
    ctx.check({frozenset(e) for e in g.edges} == {frozenset((nodes[i], nodes[j])) for i, j in edges}, "the graph's edges changed")
    if surcharge:
        # with surcharges of at least 1 no connected region is cut by the tree more than necessary:
        # the tree restricted to a region connects whatever the region's own edges connect
        for key in regions:
            if surcharge[key] < 1 or len(surcharge) > 1:
                continue
            for r in set(regions[key]) - {None}:
                mem = [nodes[i] for i in range(n) if regions[key][i] == r]
                inner = [(nodes[i], nodes[j]) for i, j in edges if regions[key][i] == r == regions[key][j]]
                a = {frozenset(c) for c in components(mem, inner)}
                b = {frozenset(c) for c in components(mem, [tuple(e) for e in got])}
                ctx.check(a == b, "a surcharged tree leaves and re-enters a region that is connected by its own edges")
                ctx.cover("region kept together")
        # an edge along no region border (both ends in the same region of every kind) is cheaper than any edge along one
        # (nodes in no region count as regions of their own)
        if all(surcharge[key] >= 1 for key in surcharge):
            def inside(i, j):
                return all(regions[k][i] is not None and regions[k][i] == regions[k][j] for k in surcharge)

            inner = [(nodes[i], nodes[j]) for i, j in edges if inside(i, j)]
            used = [e for e in inner if frozenset(e) in got]
            ctx.check({frozenset(c) for c in components(nodes, inner)} == {frozenset(c) for c in components(nodes, used)}, "an edge along a region border is used in place of one inside the regions")
    ctx.cover("tree")


def h_wilson(ctx, n=4, edges=None, kind="int", limit=9, how="default", wrap=False, streams=None):
    fresh()
    ctx.rnd_limit = limit
    if streams:
        ctx.stream(streams)
    nodes = ids(n, kind)
    g = mkgraph(nodes, edges)
    used = [0]

    def choice(seq):
        used[0] += 1
        if used[0] > limit:
            ctx.prune()
        return seq[ctx.pick("choice", len(seq))]

    if wrap:
        g = Partition(g, {v: 0 for v in nodes}).graph
    t = uniform_spanning_tree(g) if how == "default" else uniform_spanning_tree(g, choice=choice)
    claims(ctx, t, nodes, edges)
    ctx.cover("tree")


def h_law(ctx, n=3, edges=None, kind="int", limit=12):
    """the probability of every tree (the draws of a run are independent and uniform)"""
    fresh()
    ctx.rnd_limit = limit
    nodes = ids(n, kind)
    claims(ctx, uniform_spanning_tree(mkgraph(nodes, edges)), nodes, edges)
    ctx.cover("=" + ctx.covered[-1])


def h_again(ctx, n=3, edges=None, kind="int"):
    """a second tree drawn from the same graph depends on the second draws only"""
    fresh()
    nodes = ids(n, kind)
    ix = {v: i for i, v in enumerate(nodes)}
    g = mkgraph(nodes, edges)
    got = []
    for k in range(2):
        t = random_spanning_tree(g)
        got.append(tree_label([tuple(ix[x] for x in e) for e in claims(ctx, t, nodes, edges)]))
    ctx.cover(" then ".join(got))
    ctx.cover("twice")


DIAMOND = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
HOUSE = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]
ALL4 = nonisomorphic(connected_graphs(4), 4)
ALL5 = nonisomorphic(connected_graphs(5), 5)
KINDS = ["int", "str", "offset", "shuffled", "tuple"]
ASSUMPTIONS = ["connected graphs with at least 2 nodes", "random walks of at most `limit` draws (a longer Wilson walk is outside the bound)"]
CASES = [
    Case(f"kruskal4-{i}", h_kruskal, dict(edges=es, kind=KINDS[i % 5]), ["tree"], reach=spanning_trees(4, es),
         bounds=f"graph {es}, arbitrary random weights; every spanning tree must be possible") for i, es in enumerate(ALL4)
] + [
    Case(f"kruskal5-{i}", h_kruskal, dict(n=5, edges=es, kind=KINDS[i % 5]), ["tree"], reach=spanning_trees(5, es),
         bounds=f"graph {es}, arbitrary random weights; every spanning tree must be possible", thorough=len(es) > 6) for i, es in enumerate(ALL5) if len(es) <= 7
] + [
    Case(f"wilson4-{i}", h_wilson, dict(edges=es, kind=KINDS[i % 5], limit=8), ["tree"], reach=spanning_trees(4, es),
         bounds=f"graph {es}, every random walk of up to 8 draws; every spanning tree must be possible") for i, es in enumerate(ALL4)
] + [
    Case("wilson-p2", h_wilson, dict(n=2, edges=path(2), limit=4), ["tree"], bounds="2 nodes"),
    Case("kruskal-p2", h_kruskal, dict(n=2, edges=path(2)), ["tree"], bounds="2 nodes"),
    Case("wilson-c3", h_wilson, dict(n=3, edges=cycle(3), limit=10), ["tree"], reach=spanning_trees(3, cycle(3)), bounds="triangle, walks of up to 10 draws"),
    Case("wilson-choice", h_wilson, dict(n=4, edges=cycle(4), limit=9, how="given"), ["tree"], reach=spanning_trees(4, cycle(4)), bounds="4-cycle, a caller-supplied choice function, walks of up to 9 draws"),
    Case("wilson-frozen", h_wilson, dict(n=4, edges=[(0, 1), (1, 2), (2, 0), (2, 3)], limit=8, wrap=True, kind="tuple"), ["tree"], bounds="paw graph held by a partition, walks of up to 8 draws"),
    Case("wilson-p5", h_wilson, dict(n=5, edges=path(5), limit=10, kind="str"), ["tree"], bounds="path of 5, walks of up to 10 draws"),
    Case("wilson-house", h_wilson, dict(n=5, edges=HOUSE, limit=8, kind="shuffled"), ["tree"], bounds="house graph, walks of up to 8 draws"),
] + [
    Case(f"law-{nm}", h_law, dict(n=n, edges=es, kind=kd, limit=lim), [], thorough=th,
         dist={"=" + t: Rat(1, len(spanning_trees(n, es))) for t in spanning_trees(n, es)},
         bounds=f"graph {es}: the probability of every spanning tree, over walks of up to {lim} draws, is compatible with 1 in {len(spanning_trees(n, es))}")
    for nm, n, es, kd, lim, th in (("c3", 3, cycle(3), "int", 16, False), ("c4", 4, cycle(4), "str", 16, False), ("paw", 4, [(0, 1), (1, 2), (2, 0), (2, 3)], "tuple", 14, False),
                                   ("diamond", 4, cycle(4) + [(0, 2)], "shuffled", 12, False), ("p3", 3, path(3), "offset", 12, False),
                                   ("diamond-deep", 4, cycle(4) + [(0, 2)], "int", 14, True), ("k4", 4, complete(4), "int", 12, True))
] + [
    Case("again-c3", h_again, dict(edges=cycle(3)), ["twice"], reach=[f"{a} then {b}" for a in spanning_trees(3, cycle(3)) for b in spanning_trees(3, cycle(3))],
         bounds="triangle, two trees drawn one after the other from the same graph object: every pair of trees must be possible"),
    Case("region-c4", h_kruskal, dict(edges=cycle(4), regions={"county": ["a", "a", "b", "b"]}, surcharge={"county": 1}), ["tree", "region kept together"], bounds="4-cycle, 2 counties, surcharge 1"),
    Case("region-mixed", h_kruskal, dict(edges=cycle(4), regions={"county": [1, 1, "1", "1"]}, surcharge={"county": 1}, kind="tuple"), ["tree", "region kept together"], bounds="4-cycle, 2 counties named 1 and '1', surcharge 1"),
    Case("region-k4", h_kruskal, dict(edges=complete(4), regions={"county": ["a", "b", "a", "a"]}, surcharge={"county": 1.5}, kind="str"), ["tree", "region kept together"], bounds="K4, 2 counties, surcharge 1.5"),
    Case("region-house", h_kruskal, dict(n=5, edges=HOUSE, regions={"county": ["a", "a", "b", "b", "a"]}, surcharge={"county": 2}, kind="tuple"), ["tree", "region kept together"], bounds="house graph, 2 counties, surcharge 2"),
    Case("region-none", h_kruskal, dict(n=5, edges=HOUSE, regions={"county": ["a", None, "b", "b", "a"]}, surcharge={"county": 1}, kind="int"), ["tree", "region kept together"], bounds="house graph, one node in no county"),
    Case("region-none-3", h_kruskal, dict(n=3, edges=cycle(3), regions={"county": ["a", None, None]}, surcharge={"county": 1}, kind="str"), ["tree"], reach=spanning_trees(3, cycle(3)), bounds="triangle, two nodes in no county: every tree must be possible"),
    Case("region-none-4", h_kruskal, dict(edges=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)], regions={"county": [None, "a", None, "b"]}, surcharge={"county": 2}), ["tree"], reach=spanning_trees(4, [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]), bounds="diamond, no edge inside a county: every tree must be possible"),
    Case("region-two-2", h_kruskal, dict(edges=complete(4), regions={"county": ["a", "a", "b", "b"], "muni": ["x", "x", "x", "y"]}, surcharge={"county": 1, "muni": 2}), ["tree"], bounds="K4, two kinds of region"),
    Case("region-two", h_kruskal, dict(edges=cycle(4), regions={"county": ["a", "a", "b", "b"], "muni": ["x", "y", "y", "x"]}, surcharge={"county": 1, "muni": 0.5}), ["tree"], bounds="4-cycle, two kinds of region"),
    Case("region-two-none", h_kruskal, dict(n=5, edges=HOUSE, regions={"county": ["a", None, "b", "b", None], "muni": ["x", None, "x", "x", None]}, surcharge={"county": 1, "muni": 1}, kind="str"), ["tree"], reach=[t for t in spanning_trees(5, HOUSE) if " 23" in t and " 03" in t], bounds="house graph, two kinds of region, two neighbouring nodes in no region of either kind"),
    Case("region-two-half", h_kruskal, dict(n=4, edges=DIAMOND, regions={"county": ["a", "a", "a", "b"], "muni": [None, None, "x", "x"]}, surcharge={"county": 1, "muni": 1}), ["tree"], reach=[t for t in spanning_trees(4, DIAMOND) if " 30" not in t and " 03" not in t], bounds="diamond, two nodes in no municipality"),
    Case("wilson-k4", h_wilson, dict(n=4, edges=complete(4), limit=9), ["tree"], thorough=True, bounds="K4, walks of up to 9 draws"),
    Case("wilson-house-10", h_wilson, dict(n=5, edges=HOUSE, limit=10), ["tree"], thorough=True, bounds="house graph, walks of up to 10 draws"),
    Case("kruskal-g23", h_kruskal, dict(n=6, edges=grid_edges(2, 3), kind="shuffled"), ["tree"], reach=spanning_trees(6, grid_edges(2, 3)), bounds="2x3 grid, arbitrary weights", thorough=True),
    Case("kruskal-large", h_kruskal, dict(n=1500, edges=grid_edges(30, 50), kind="shuffled", streams=3), ["tree"], bounds="30x50 grid, three fixed streams of draws"),
    Case("kruskal-deep", h_kruskal, dict(n=2500, edges=cycle(2500), kind="int", streams=2), ["tree"], bounds="cycle of 2500, two fixed streams of draws"),
    Case("kruskal-large-regions", h_kruskal, dict(n=900, edges=grid_edges(30, 30), kind="tuple", streams=3, regions={"county": [f"c{i // 30 // 7}-{i % 30 // 9}" for i in range(900)]}, surcharge={"county": 1}), ["tree", "region kept together"], bounds="30x30 grid, 20 counties, three fixed streams of draws"),
    Case("wilson-large", h_wilson, dict(n=900, edges=grid_edges(30, 30), kind="str", streams=3), ["tree"], bounds="30x30 grid, three fixed streams of draws"),
    Case("wilson-deep", h_wilson, dict(n=1200, edges=[(i, i + 1) for i in range(1199)] + [(0, i) for i in range(2, 1200, 40)], kind="int", streams=2), ["tree"], bounds="path of 1200 with a few chords, two fixed streams of draws"),
]
