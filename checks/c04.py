import math
from checks.lib import *
from gerrychain.updaters import (Tally, boundary_nodes, exterior_boundaries, interior_boundaries, perimeter,
                                 exterior_boundaries_as_a_set, cut_edges_by_part)
from gerrychain.metrics import polsby_popper
from gerrychain.constraints.compactness import (L1_polsby_popper, L1_reciprocal_polsby_popper, L2_polsby_popper,
                                                L_minus_1_polsby_popper)


def h(ctx, n=4, edges=None, kind="int", steps=(1,), pattern=None, bset=None, concrete=False, lazy=False, geo=True, pp=True, stray=False):
    fresh()
    nodes = ids(n, kind)
    lab = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    if bset is None:
        bset = [i for i in range(n) if ctx.flag(f"boundary{i}")]
    sp = [ctx.real(f"sp{k}", 0) for k in range(len(edges))]
    bp = [ctx.real(f"bp{i}", 0) for i in range(n)]
    ar = [ctx.real(f"ar{i}", 0) for i in range(n)]
    g = mkgraph(nodes, edges, {
        "boundary_node": [i in bset for i in range(n)],
        "boundary_perim": [bp[i] if i in bset else (ctx.real(f"stray{i}", 0) if stray else MISSING) for i in range(n)],
        "area": ar,
    }, {"shared_perim": sp})
    extra = {"exterior_boundaries_as_a_set": exterior_boundaries_as_a_set, "pp": polsby_popper}
    if geo:
        p = GeographicPartition(g, dict(lab), extra)
    else:
        p = Partition(g, dict(lab), dict(extra, area=Tally("area"), perimeter=perimeter, boundary_nodes=boundary_nodes,
                                         exterior_boundaries=exterior_boundaries, interior_boundaries=interior_boundaries,
                                         cut_edges_by_part=cut_edges_by_part))
    exist = list(p.parts)

    def claims(q, l):
        out = []
        bn = q["boundary_nodes"]
        out.append((set(bn) == {nodes[i] for i in bset}, "boundary_nodes is not the set of nodes flagged as boundary"))
        eb, ib, per, es_, area = (q["exterior_boundaries"], q["interior_boundaries"], q["perimeter"],
                                  q["exterior_boundaries_as_a_set"], q["area"])
        for part in q.parts:
            ext = Sum(Ite(eq(l[nodes[i]], part), bp[i], 0) for i in bset)
            inn = Sum(
                Ite(And(ne(l[nodes[i]], l[nodes[j]]), Or(eq(l[nodes[i]], part), eq(l[nodes[j]], part))), sp[k], 0)
                for k, (i, j) in enumerate(edges))
            # a district without boundary nodes may be absent from the exterior tables
            e = eb[part] if part in eb else 0
            out.append((eq(e, ext), "exterior_boundaries is not the sum of its boundary nodes' exterior perimeter"))
            out.append((part in ib, "interior_boundaries misses a district"))
            out.append((eq(ib[part], inn), "interior_boundaries is not the sum of shared perimeters of its cut edges"))
            out.append((part in per, "perimeter misses a district"))
            out.append((eq(per[part], ext + inn), "perimeter is not exterior + interior boundary"))
            s = es_[part] if part in es_ else set()
            for i in range(n):
                out.append((Iff(nodes[i] in s, And(i in bset, eq(l[nodes[i]], part))),
                            "exterior_boundaries_as_a_set is not the district's boundary nodes"))
            out.append((eq(area[part], Sum(Ite(eq(l[nodes[i]], part), ar[i], 0) for i in range(n))), "area is not the sum of node areas"))
        return out

    hist = [(p, lab)]
    if not lazy:
        ctx.checks(claims(p, lab))
    for s, k in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, k, f"s{s}", concrete=concrete)
        p = p.flip(f)
        lab = apply_flips(lab, f)
        hist.append((p, lab))
        if not lazy:
            ctx.checks(claims(p, lab))
    for q, l in reversed(hist):
        ctx.checks(claims(q, l))
    if pp:
        score = p["pp"]
        ctx.check(len(score) == len(p.parts), "polsby_popper: not one score per district")
        for part in p.parts:
            v = score[part]
            per, area = p["perimeter"][part], p["area"][part]
            if isinstance(v, float) and type(v) is not Sym and math.isnan(v):
                ctx.check(eq(per, 0), "polsby_popper is nan although the perimeter is positive")
                ctx.cover("nan score")
            else:
                ctx.check(And(ne(per, 0), eq(v, Div(4 * area * math.pi, per * per))), "polsby_popper is not 4*pi*area/perimeter**2")
                ctx.cover("score")
    ctx.observe("perimeter", dict(p["perimeter"]))
    ctx.cover("geo")


class Fake:
    def __init__(self, scores):
        self.s = scores
        self.parts = {k: frozenset([k]) for k in scores}

    def __getitem__(self, k):
        return {"polsby_popper": self.s}[k]

    def __len__(self):
        return len(self.s)


def h_norms(ctx, k=3):
    """Aggregates of Polsby-Popper scores over districts with arbitrary positive scores."""
    sc = {i: ctx.real(f"s{i}", 0, 1, lo_strict=True) for i in range(k)}
    p = Fake(sc)
    l1 = L1_polsby_popper(p)
    ctx.check(eq(l1, Sum(sc.values())), "L1 norm")
    r = L1_reciprocal_polsby_popper(p)
    ctx.check(eq(r, Sum(Div(1, v) for v in sc.values())), "L1 norm of reciprocals")
    l2 = L2_polsby_popper(p)
    ctx.check(And(ge(l2, 0), eq(l2 * l2, Sum(v * v for v in sc.values()))), "L2 norm")
    lm = L_minus_1_polsby_popper(p)
    ctx.check(eq(lm, Div(k, Sum(Div(1, v) for v in sc.values()))), "L-1 norm (harmonic mean)")
    ctx.cover("norms")


P33 = [0, 0, 1, 0, 2, 1, 2, 2, 1]
CASES = [
    Case("long", h, dict(n=16, edges=grid_edges(4, 4), bset=[0, 1, 2, 3, 4, 7, 8, 11], pattern=blocks(4, 4, [2, 1, 0]), concrete=True, pp=False, steps=(("some", 1, 1),) * 40 + (1,)), ["geo"],
         bounds="4x4 grid, 3 districts, arbitrary lengths and areas, 40 single flips (a fixed scattered history), then an arbitrary one"),
    Case("large", h, dict(n=64, edges=grid_edges(8, 8), bset=[i for i in range(64) if i // 8 in (0, 7) or i % 8 in (0, 7)], pattern=blocks(8, 8, list("dcba")), concrete=True, kind="shuffled", pp=False, steps=(("some", 1, 1), ("some", 40), ("shift", 24))), ["geo"],
         bounds="8x8 grid with its outer ring as boundary, 4 districts, arbitrary lengths and areas, flips of 1, 40 and 24 nodes together (fixed scattered choices)"),
    Case("large-whole", h, dict(n=36, edges=grid_edges(6, 6), bset=list(range(0, 36, 5)), pattern=blocks(6, 6, [3, 0, 2]), concrete=True, lazy=True, pp=False, steps=(("all",), ("some", 36, 1), 0, ("some", 1))), ["geo"],
         bounds="6x6 grid, 3 districts, all nodes moved into one district, all redistributed, nothing, one node; read at the end"),
    Case("island", h, dict(edges=[(0, 1), (1, 2)], steps=(1, 1), bset=[0, 3], pattern=[0, 1, 1, 0], pp=False, kind="str"), ["geo"], bounds="path of 3 and an isolated boundary node, 2 districts, 2 single flips"),
    Case("island-lazy", h, dict(edges=[(0, 1)], steps=(1, 0, 1), bset=[1, 2, 3], pattern=[0, 1, 1, 0], pp=False, lazy=True, concrete=True), ["geo"], bounds="an edge and two isolated boundary nodes, 2 districts, a single flip, nothing, a single flip; read at the end"),
    Case("c4-1", h, dict(edges=cycle(4), steps=(1,), bset=[0, 1, 3], pp=False), ["geo"], bounds="4-cycle, arbitrary labels, arbitrary nonnegative perimeters/areas, boundary nodes 0,1,3, one single flip (inductive step)"),
    Case("k4-2", h, dict(edges=complete(4), steps=(2,), bset=[1, 2], pp=False, kind="str"), ["geo"], bounds="K4, arbitrary labels/perimeters/areas, 2 nodes flipped together"),
    Case("p3-flags", h, dict(n=3, edges=path(3), steps=(1,), kind="offset"), ["geo", "score", "nan score"], bounds="path of 3, arbitrary boundary flags, labels, perimeters and areas, one single flip, Polsby-Popper"),
    Case("c3-1-1", h, dict(n=3, edges=[(2, 1), (1, 0), (0, 2)], steps=(1, 1), bset=[0, 2], lazy=True, pp=False), ["geo"], bounds="triangle, 2 single flips, read at the end only"),
    Case("p4-1-1-plain", h, dict(edges=path(4), steps=(1, 1), bset=[0, 3], pattern=[0, 0, 1, 1], geo=False), ["geo", "score"], bounds="path of 4, 2 districts, plain Partition with the same updaters, 2 single flips"),
    Case("grid33", h, dict(n=9, edges=grid_edges(3, 3), steps=(1, 1), bset=[0, 1, 2, 3, 5, 6, 7, 8], pattern=["a%d" % x for x in P33], concrete=True, kind="tuple", pp=False), ["geo"], bounds="3x3 grid, string labels, arbitrary perimeters/areas, 2 single flips"),
    Case("grid33-sym", h, dict(n=9, edges=grid_edges(3, 3), steps=(1,), bset=[0, 1, 2, 3, 5, 6, 7, 8], pattern=P33, kind="shuffled"), ["geo", "score"], bounds="3x3 grid, arbitrary distinct labels, one single flip"),
    Case("stray-perim", h, dict(edges=star(4), steps=(2,), bset=[0, 2], pattern=[0, 1, 1, 0], pp=False, stray=True), ["geo"], bounds="star of 4, 2 districts, nodes not flagged as boundary carry exterior perimeters too, 2 nodes flipped together"),
    Case("empty-flip", h, dict(n=3, edges=path(3), steps=(0, 1, 0), bset=[0, 2], pp=False), ["geo"], bounds="path of 3, arbitrary labels, a flip of nothing before and after a single flip"),
    Case("norms3", h_norms, dict(k=3), ["norms"], bounds="3 districts with arbitrary scores in (0,1]"),
    Case("norms1", h_norms, dict(k=1), ["norms"], bounds="1 district"),
    Case("c4-1-1", h, dict(edges=cycle(4), steps=(1, 1), bset=[0, 1, 3], pp=False), ["geo"], thorough=True, bounds="4-cycle, arbitrary labels, 2 single flips"),
    Case("k4-3", h, dict(edges=complete(4), steps=(3,), bset=[1, 2], pp=False), ["geo"], thorough=True, bounds="K4, 3 nodes flipped together"),
]
