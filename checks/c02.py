from checks.lib import *
from gerrychain.updaters import cut_edges, cut_edges_by_part


def claim_by_part(got, lab, es, nodes):
    out = []
    keys = list(got)
    norm = {}
    for p in keys:
        s = got[p]
        norm[id(p)] = {skey(*e) for e in s}
        out.append((len(norm[id(p)]) == len(s), "cut_edges_by_part lists an edge twice"))
        out.append((norm[id(p)] <= set(es), "cut_edges_by_part contains a pair that is not an edge"))
        for u, v in es:
            if u == v:
                continue
            cut = ne(lab[u], lab[v])
            out.append((Iff((u, v) in norm[id(p)], And(cut, Or(eq(lab[u], p), eq(lab[v], p)))),
                        f"cut_edges_by_part: edge {u}-{v} listed under a district iff it is cut and touches it"))
    # a district that is not a key has no cut edges
    for u, v in es:
        if u == v:
            continue
        for w in (u, v):
            out.append((Implies(ne(lab[u], lab[v]), Or([eq(lab[w], p) for p in keys])),
                        f"cut_edges_by_part: the district of node {w} is missing although {u}-{v} is cut"))
    return out


def h(ctx, n=4, edges=None, kind="int", steps=(1,), pattern=None, lazy=False, geo=False, concrete=False, pick_lazy=False, reuse=False):
    fresh()
    nodes = ids(n, kind)
    lab = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    g = mkgraph(nodes, edges)
    es = edge_ids(nodes, edges)
    p = Partition(g, dict(lab), {"cut_edges": cut_edges, "cut_edges_by_part": cut_edges_by_part})
    exist = list(p.parts)
    shared = {}
    hist = [(p, lab)]
    if pick_lazy:
        lazy = ctx.flag("lazy")
    if not lazy:
        ctx.checks(claim_cut_edges(p["cut_edges"], lab, es))
        ctx.checks(claim_by_part(p["cut_edges_by_part"], lab, es, nodes))
    for s, k in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, k, f"s{s}", concrete=concrete)
        if reuse:  # the caller uses one dictionary for all its flips
            shared.clear()
            shared.update(f)
            p = p.flip(shared)
        else:
            p = p.flip(f)
        lab = apply_flips(lab, f)
        hist.append((p, lab))
        if not lazy:
            ctx.checks(claim_cut_edges(p["cut_edges"], lab, es))
            ctx.checks(claim_by_part(p["cut_edges_by_part"], lab, es, nodes))
    # read (again) from the last to the first, by both access styles
    for q, l in reversed(hist):
        ctx.checks(claim_by_part(q["cut_edges_by_part"], l, es, nodes))
        ctx.checks(claim_cut_edges(q.cut_edges, l, es))
    ctx.observe("cut", sorted(map(repr, p["cut_edges"])))
    ctx.cover("some cut" if p["cut_edges"] else "no cut")
    if p["cut_edges"] and len(steps) and p["cut_edges"] != hist[0][0]["cut_edges"]:
        ctx.cover("changed")


ALL4 = nonisomorphic(connected_graphs(4), 4)
CASES = [
    Case(f"g4-{i}", h, dict(edges=es, kind=["int", "str", "offset", "shuffled"][i % 4]), ["some cut", "no cut", "changed"],
         bounds="connected graph %s on 4 nodes, arbitrary labels, one flip of an arbitrary node (inductive step)" % (es,))
    for i, es in enumerate(ALL4)
] + [
    Case("cyc4-1-1", h, dict(edges=cycle(4), steps=(1, 1)), ["changed"], bounds="4-cycle, arbitrary labels, 2 single flips"),
    Case("k3-1-1-1", h, dict(n=3, edges=[(2, 1), (1, 0), (2, 0)], steps=(1, 1), pick_lazy=True, kind="str"), ["changed"],
         bounds="triangle given in reversed orientation, arbitrary labels, 2 single flips; read at every step or only at the end"),
    Case("reused-dict", h, dict(n=4, edges=path(4), steps=(1, 1, 1), lazy=True, reuse=True, pattern=[0, 0, 1, 1]), ["changed"], bounds="path of 4, 2 districts, 3 single flips given in one dictionary that is changed in between; read at the end"),
    Case("empty-flip", h, dict(n=3, edges=path(3), steps=(0, 1, 0), pick_lazy=True), ["changed"], bounds="path of 3, arbitrary labels, a flip of nothing before and after a single flip; read at every step or at the end"),
    Case("odd-labels", h, dict(n=4, edges=cycle(4), pattern=[None, 0, "", 0], steps=(1, 1), concrete=True), ["changed"], bounds="4-cycle, districts called None, 0 and '', 2 single flips"),
    Case("paw-2", h, dict(edges=[(0, 1), (1, 2), (2, 0), (2, 3)], steps=(2,), pick_lazy=True), ["changed"], bounds="paw graph, arbitrary labels, 2 nodes flipped together"),
    Case("path4-3", h, dict(edges=path(4), steps=(3,), kind="tuple"), ["changed"], bounds="path of 4, 3 nodes flipped together"),
    Case("k3-3-2", h, dict(n=3, edges=complete(3), steps=(3, 2)), ["changed"], bounds="triangle, all nodes then 2 nodes flipped"),
    Case("loop-island", h, dict(n=4, edges=[(0, 1), (1, 2), (1, 1)], steps=(1,)), ["changed"], bounds="a self-loop and an isolated node, arbitrary labels, one flip"),
    Case("grid34", h, dict(n=12, edges=grid_edges(3, 4), pattern=[0, 0, 1, 1, 0, 2, 2, 1, 3, 3, 2, 1], steps=(1,), kind="shuffled"), ["changed"],
         bounds="3x4 grid, 4 districts, arbitrary distinct labels, one flip"),
    Case("grid44-1", h, dict(n=16, edges=grid_edges(4, 4), pattern=list("aabbaabbccddccdd"), steps=(1, 1), concrete=True, kind="str"), ["changed"], thorough=True,
         bounds="4x4 grid, 4 districts with string labels, 2 flips"),
    Case("grid33-str", h, dict(n=9, edges=grid_edges(3, 3), pattern=["A", "A", "B", "A", "C", "B", "C", "C", "B"], steps=(1, 1), concrete=True, kind="tuple"), ["changed"],
         bounds="3x3 grid with tuple ids, 3 districts with string labels, 2 single flips (structure enumerated)"),
    Case("path4-4", h, dict(edges=path(4), steps=(4,), kind="shuffled", pattern=[0, 1, 1, 2]), ["changed"], bounds="path of 4, 3 districts, all nodes moved at once to arbitrary districts; node ids out of order"),
    Case("path3-all", h, dict(n=3, edges=path(3), steps=(3, 3), kind="offset"), ["changed"], bounds="path of 3, arbitrary labels, all nodes moved at once, twice; node ids out of order"),
    Case("prism6", h, dict(n=6, edges=[(0, 1), (1, 2), (2, 0), (3, 4), (4, 5), (5, 3), (0, 3), (1, 4), (2, 5)], steps=(1, 1), pattern=["f", "e", "d", "c", "b", "a"], concrete=True, kind="shuffled"), ["changed"],
         bounds="prism of 6 nodes, each its own district, 2 single flips"),
    Case("k4-1-1-1", h, dict(edges=complete(4), steps=(1, 1, 1)), ["changed"], thorough=True, bounds="K4, arbitrary labels, 3 single flips"),
    Case("c5-2", h, dict(n=5, edges=cycle(5), steps=(2,)), ["changed"], thorough=True, bounds="5-cycle, arbitrary labels, 2 nodes flipped"),
    Case("large", h, dict(n=144, edges=grid_edges(12, 12), pattern=blocks(12, 12, list("edcba")), concrete=True, kind="shuffled", pick_lazy=True, steps=(("some", 1, 1), ("some", 60), ("shift", 40))), ["changed"],
         bounds="12x12 grid, 5 districts, flips of 1, 60 and 40 nodes together (fixed scattered choices, the last a run from 3 places to an arbitrary district); read at every step or at the end"),
    Case("large-whole", h, dict(n=100, edges=grid_edges(10, 10), pattern=blocks(10, 10, [3, 0, 2]), concrete=True, lazy=False, steps=(("all",), ("some", 100, 1), 0, ("some", 1))), ["changed"],
         bounds="10x10 grid, 3 districts, all nodes moved into one district, all redistributed, nothing, one node"),
    Case("long", h, dict(n=25, edges=grid_edges(5, 5), pattern=blocks(5, 5, [2, 1, 0]), concrete=True, pick_lazy=True, kind="str", steps=(("some", 1, 1),) * 60 + (1,)), ["changed"],
         bounds="5x5 grid, 3 districts, 60 single flips (a fixed scattered history), then an arbitrary one; read at every step or at the end"),
    Case("c5-1-1", h, dict(n=5, edges=[(0, 1), (1, 2), (2, 3), (3, 4), (0, 4), (1, 3)], steps=(1, 1)), ["changed"], thorough=True, bounds="house graph, arbitrary labels, 2 single flips"),
]
