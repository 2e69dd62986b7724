from checks.lib import *


def frozen_copy(partition):
    """A snapshot of everything observable on a partition."""
    return (dict(partition.assignment.mapping), dict(partition.parts), set(partition["cut_edges"]))


def look(ctx, q, l, nodes, edges):
    """read every view of a partition (some are remembered by it)"""
    for e in edges:
        u, v = nodes[e[0]], nodes[e[1]]
        ctx.check(Iff(bool(q.crosses_parts((u, v))), ne(l[u], l[v])), "crosses_parts disagrees with the assignment")
    # part subgraphs
    listed = list(q.subgraphs.items())
    ctx.check(len(listed) == len(q.parts) and all(a is b or bool(a == b) for (a, _), b in zip(listed, q.parts)), "the subgraphs are not listed once for every district")
    ctx.check([set(sg.nodes) for sg in q.subgraphs] == [set(sg.nodes) for _, sg in listed], "iterating over the subgraphs gives others than listing them")
    ctx.check([set(sg.nodes) for _, sg in listed] == [set(m) for m in q.parts.values()], "the subgraph of a district is not on its nodes")
    for part, sg in listed:
        mem = set(sg.nodes)
        ctx.checks([(Iff(v in mem, eq(l[v], part)), "subgraph of a part has the wrong nodes") for v in nodes])
        want = {skey(nodes[i], nodes[j]) for i, j in edges if nodes[i] in mem and nodes[j] in mem}
        ctx.check({skey(*e) for e in sg.edges} == want, "subgraph of a part is not the induced subgraph")


def flow_claims(q, old, new, nodes):
    """the flows of a partition are exactly the nodes that left and entered each district"""
    out = []
    for way, a, b in (("in", new, old), ("out", old, new)):
        for v in nodes:
            moved = ne(old[v], new[v])
            here = [part for part, f in q.flows.items() if v in f[way]]
            out.append((len(here) <= 1, f"flows: a node went {way} twice"))
            out.append((Iff(len(here) == 1, moved), f"flows: node {v} listed as '{way}' iff it changed district"))
            for part in here:
                out.append((eq(part, a[v]), f"flows: node {v} went '{way}' of another district"))
    return out


def kinds(which, g, lab, ups):
    if which == "partition":
        return Partition(g, dict(lab), ups)
    if which == "geo":
        return GeographicPartition(g, dict(lab), ups)
    if which == "sub":
        class Mine(Partition):
            default_updaters = dict(Partition.default_updaters)

        return Mine(g, dict(lab), ups)
    raise ValueError(which)


def h_history(ctx, kind="int", n=4, edges=None, steps=(1, 1), pattern=None, siblings=False, touch=False, of="partition", concrete=False):
    fresh()
    nodes = ids(n, kind)
    lab0 = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    g = mkgraph(nodes, edges, *(({"area": [1] * n, "boundary_node": [False] * n}, {"shared_perim": [1] * len(edges)}) if of == "geo" else ()))
    p = kinds(of, g, lab0, {"marker": lambda q: len(q.parts)})
    es = edge_ids(nodes, edges)
    ctx.checks(parts_claims(p, lab0, nodes))
    ctx.check(p.parent is None and p.flips is None, "a first partition has no parent and no flips")
    exist = list(p.parts)
    chain = [(p, lab0)]
    lab = lab0
    for s, k in enumerate(steps):
        flips = arbitrary_flips(ctx, nodes, exist, k, f"s{s}", concrete=concrete)
        given = dict(flips)
        if touch:
            look(ctx, p, lab, nodes, edges)
        q = p.flip(flips)
        newlab = apply_flips(lab, flips)
        ctx.checks(parts_claims(q, newlab, nodes))
        ctx.check(q.parent is p, "child.parent is not the partition it was flipped from")
        ctx.check(q is not p, "flip returned the same object")
        ctx.check(set(flips) == set(given), "flip changed the caller's dictionary")
        ctx.checks([(eq(flips[x], given[x]), "flip changed the caller's dictionary") for x in given])
        ctx.check(q.flips is not None and set(q.flips) == set(given), "child.flips are not the requested flips")
        ctx.check(q.graph is p.graph, "child does not share the parent's graph")
        ctx.check(set(q.updaters) == set(p.updaters), "child's updaters differ from the parent's")
        ctx.check(type(q) is type(p), "child has another class")
        ctx.checks(flow_claims(q, lab, newlab, nodes))
        ctx.check(len(q.parts) == len(exist), "the set of districts changed")
        if siblings:
            f2 = arbitrary_flips(ctx, nodes, exist, ("some", 9, 1) if concrete else 1, f"sib{s}", concrete=concrete)
            q2 = p.flip(f2)
            lab2 = apply_flips(lab, f2)
            if touch:
                look(ctx, q2, lab2, nodes, edges)
            ctx.checks(parts_claims(q2, lab2, nodes))
            ctx.checks(parts_claims(q, newlab, nodes))
        p, lab = q, newlab
        chain.append((p, lab))
    # nothing that came later disturbed an earlier partition
    for q, l in chain:
        ctx.checks(parts_claims(q, l, nodes))
        look(ctx, q, l, nodes, edges)
        ctx.check(q["marker"] == len(exist), "an updater's value is another partition's")
    ctx.observe("final", {v: lab[v] for v in nodes})
    ctx.observe("sizes", sorted(len(m) for m in p.parts.values()))
    if any(len(m) == 0 for m in p.parts.values()):
        ctx.cover("emptied a part")
    if len(p.parts) > 1:
        ctx.cover("several districts")


def h_series(ctx, n=4, kind="int"):
    """Assignment given as dict, attribute name, Series-like or Assignment; conversions back."""
    fresh()
    import pandas
    from gerrychain.partition.assignment import Assignment, get_assignment

    nodes = ids(n, kind)
    lab = labels(ctx, nodes)
    g = mkgraph(nodes, path(n), {"D": [lab[v] for v in nodes]})
    how = ctx.choose("how", ["dict", "attr", "assignment", "series"])
    if how == "dict":
        given = dict(lab)
    elif how == "attr":
        given = "D"
    elif how == "assignment":
        given = Assignment.from_dict(dict(lab))
    else:
        given = pandas.Series([lab[v] for v in nodes], index=pandas.Index(nodes, tupleize_cols=False), dtype=object)
    p = Partition(g, given)
    ctx.checks(parts_claims(p, lab, nodes))
    d = p.assignment.to_dict()
    ctx.checks([(set(d) == set(nodes), "to_dict keys")] + [(eq(d[v], lab[v]), "to_dict value") for v in nodes])
    s = p.assignment.to_series()
    ctx.check(sorted(map(repr, s.index)) == sorted(map(repr, nodes)), "to_series index")
    ks, vs = list(p.assignment.keys()), list(p.assignment.values())
    ctx.check(len(ks) == n == len(vs) == len(p.assignment) and set(ks) == set(nodes) == set(p.assignment), "keys or values of the assignment are not one for each node")
    ctx.checks([(eq(x, lab[v]), "values of the assignment") for v, x in zip(ks, vs)])
    ctx.check(set(p.keys()) == set(p.updaters), "keys of the partition are not its updaters")
    ctx.checks([(eq(s[v], lab[v]), "to_series value") for v in nodes])
    # a copy is independent of the original
    c = p.assignment.copy()
    exist = list(p.parts)
    moved = ctx.choose("moved", nodes)
    t = ctx.label("t")
    ctx.assume(Or([eq(t, x) for x in exist]))
    c.update_parts({t: frozenset(c.parts[t]) | {moved}})
    ctx.check(eq(c[moved], t) if issym(t) else c[moved] == t, "update_parts did not move the node")
    ctx.check(moved in c.parts[t], "update_parts did not add the node to the part")
    ctx.checks(parts_claims(p, lab, nodes))
    q = Partition(g, p.assignment)
    f = arbitrary_flips(ctx, nodes, exist, 1)
    r = q.flip(f)
    ctx.checks(parts_claims(p, lab, nodes))
    ctx.checks(parts_claims(q, lab, nodes))
    ctx.checks(parts_claims(r, apply_flips(lab, f), nodes))
    if how == "assignment":
        f2 = {v: p for v, p in given.items()}
        ctx.checks([(eq(f2[v], lab[v]), "the caller's Assignment was modified") for v in nodes])
    ctx.cover(how)


def h_validation(ctx, n=3):
    """Bad constructor input is rejected."""
    fresh()
    from gerrychain.partition.assignment import Assignment, get_assignment

    nodes = ids(n)
    lab = labels(ctx, nodes)
    g = mkgraph(nodes, path(n), {"D": [lab[v] for v in nodes]})
    how = ctx.choose("how", ["missing", "extra", "renamed", "graphtype", "assigntype", "dup", "notfrozen", "nograph"])
    if how == "missing":
        k = ctx.choose("k", nodes)
        bad = {v: l for v, l in lab.items() if v != k}
        ctx.raises(KeyError, lambda: Partition(g, bad), "an assignment missing a node was accepted")
    elif how == "extra":
        bad = dict(lab)
        bad[99] = ctx.label("x")
        ctx.raises(KeyError, lambda: Partition(g, bad), "an assignment with an unknown node was accepted")
    elif how == "renamed":
        k = ctx.choose("k", nodes)
        bad = {(v if v != k else 77): l for v, l in lab.items()}
        ctx.raises(KeyError, lambda: Partition(g, bad), "an assignment with a renamed node was accepted")
    elif how == "graphtype":
        ctx.raises(TypeError, lambda: Partition([(0, 1)], dict(lab)), "a non-graph was accepted")
    elif how == "assigntype":
        ctx.raises(TypeError, lambda: Partition(g, 5), "a non-assignment was accepted")
    elif how == "dup":
        a, b = ctx.label("p"), ctx.label("q")
        ctx.assume(ne(a, b))
        ctx.raises(ValueError, lambda: Assignment({a: frozenset([0, 1]), b: frozenset([1, 2])}), "overlapping parts were accepted")
    elif how == "notfrozen":
        a, b = ctx.label("p"), ctx.label("q")
        ctx.assume(ne(a, b))
        k = ctx.choose("frozen", [None, 0, 1])
        ctx.raises(TypeError, lambda: Assignment({a: (frozenset if k == 0 else set)([0, 1]), b: (frozenset if k == 1 else set)([2])}), "mutable parts were accepted")
    else:
        ctx.raises(TypeError, lambda: get_assignment("D"), "an attribute name without a graph was accepted")
    ctx.cover(how)


ASSUMPTIONS = ["a flip moves nodes to districts that exist in the partition (the library raises KeyError otherwise)"]
G34 = grid_edges(3, 4)
P34 = [0, 0, 1, 1, 0, 2, 2, 1, 3, 3, 2, 1]
ALL4 = nonisomorphic(connected_graphs(4), 4)
CASES = [
    Case("large", h_history, dict(n=100, edges=grid_edges(10, 10), pattern=blocks(10, 10, list("edcba")), concrete=True, kind="shuffled", touch=True, siblings=True, steps=(("some", 1, 1), ("some", 60), ("shift", 40))), ["several districts"],
         bounds="10x10 grid, 5 districts, flips of 1, 60 and 40 nodes together (fixed scattered choices), and siblings"),
    Case("large-whole", h_history, dict(n=64, edges=grid_edges(8, 8), pattern=blocks(8, 8, [3, 0, 2]), concrete=True, of="sub", steps=(("all",), ("some", 64, 1), 0, ("some", 1), ("all",))), ["emptied a part"],
         bounds="8x8 grid, 3 districts, all nodes moved into one district, all redistributed, nothing, one node, all into one"),
    Case("long", h_history, dict(n=16, edges=grid_edges(4, 4), pattern=blocks(4, 4, [2, 1, 0]), concrete=True, steps=(("some", 1, 1),) * 60 + (1,)), ["several districts"],
         bounds="4x4 grid, 3 districts, 60 single flips (a fixed scattered history), then an arbitrary one"),
    Case("k4-1-1", h_history, dict(edges=complete(4), steps=(1, 1)), ["emptied a part", "several districts"],
         bounds="K4, 4 arbitrary labels, 2 successive flips of one arbitrary node to an arbitrary existing district"),
    Case("path4-2", h_history, dict(edges=path(4), steps=(2,), kind="str", touch=True), ["several districts"],
         bounds="path of 4 nodes with string ids, arbitrary labels, one flip of 2 arbitrary nodes"),
    Case("star4-3", h_history, dict(edges=star(4), steps=(3,), kind="offset", touch=True), ["several districts"],
         bounds="star of 4, arbitrary labels, one flip of 3 nodes"),
    Case("geographic", h_history, dict(n=3, edges=path(3), steps=(1, 1), of="geo", kind="str"), ["several districts"],
         bounds="path of 3, GeographicPartition, arbitrary labels, 2 single flips"),
    Case("subclass", h_history, dict(n=3, edges=path(3), steps=(2, 1), of="sub", kind="shuffled"), ["several districts"],
         bounds="path of 3, a user's subclass of Partition, arbitrary labels, flips of 2 and 1 nodes"),
    Case("siblings", h_history, dict(n=3, edges=cycle(3), steps=(1, 1), siblings=True, kind="tuple", touch=True), ["several districts"],
         bounds="triangle, arbitrary labels, 2 steps, at each step a second child is flipped off the same parent"),
    Case("path3-1-1-1", h_history, dict(n=3, edges=path(3), steps=(1, 1, 1)), ["emptied a part"],
         bounds="path of 3, arbitrary labels, 3 successive single flips"),
    Case("empty-flip", h_history, dict(n=3, edges=path(3), steps=(0, 1, 0)), ["several districts"],
         bounds="path of 3, arbitrary labels, a flip of nothing before and after a single flip"),
    Case("path3-2-2", h_history, dict(n=3, edges=path(3), steps=(2, 2), touch=True), ["emptied a part"],
         bounds="path of 3, arbitrary labels, 2 successive flips of 2 nodes"),
    Case("grid34", h_history, dict(n=12, edges=G34, steps=(1,), pattern=P34, kind="shuffled", touch=True), ["several districts"],
         bounds="3x4 grid, 4 districts with arbitrary distinct labels, one flip of an arbitrary node"),
    Case("grid34-2", h_history, dict(n=12, edges=G34, steps=(2,), pattern=P34, kind="str"), ["several districts"], thorough=True,
         bounds="3x4 grid, 4 districts with arbitrary distinct labels, one flip of 2 arbitrary nodes"),
    Case("n5-1-1", h_history, dict(n=5, edges=cycle(5), steps=(1, 1), touch=True), ["several districts"], thorough=True,
         bounds="5-cycle, 5 arbitrary labels, 2 successive single flips"),
    Case("n4-1-1-1", h_history, dict(n=4, edges=cycle(4), steps=(1, 1, 1)), ["several districts"], thorough=True,
         bounds="4-cycle, arbitrary labels, 3 successive single flips"),
    Case("path6-all", h_history, dict(n=6, edges=path(6), steps=(1,), pattern=list(range(6)), kind="str", touch=True), ["emptied a part"],
         bounds="path of 6, every node its own district with an arbitrary distinct label, one flip of an arbitrary node"),
    Case("path4-4-2", h_history, dict(n=4, edges=path(4), steps=(4, 2), pattern=[0, 1, 1, 2], kind="shuffled"), ["several districts"],
         bounds="path of 4, 3 districts, all nodes then 2 of them flipped"),
    Case("forms", h_series, {}, ["dict", "attr", "assignment", "series"], bounds="path of 4, arbitrary labels; assignment given in 4 forms"),
    Case("validation", h_validation, {}, ["missing", "extra", "renamed", "graphtype", "assigntype", "dup", "notfrozen", "nograph"],
         bounds="3 nodes, arbitrary labels; 8 kinds of malformed input"),
]
