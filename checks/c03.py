import math
from checks.lib import *
from gerrychain.updaters import Tally, DataTally

NAN = math.nan


def part_sum(lab, p, vals, skip=()):
    return Sum(Ite(eq(lab[v], p), vals[v], 0) for v in lab if v not in skip)


def h(ctx, n=4, edges=None, kind="int", steps=(1,), pattern=None, real=False, nan=False, concrete=False, lazy=False, reuse=False):
    fresh()
    nodes = ids(n, kind)
    lab = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    mk = ctx.real if real else ctx.num
    a = {v: mk(f"x{i}") for i, v in enumerate(nodes)}
    b = {v: mk(f"y{i}") for i, v in enumerate(nodes)}
    c = {v: mk(f"z{i}") for i, v in enumerate(nodes)}
    bad = set()
    if nan:
        bad = {nodes[ctx.pick("nan", n)]}
        if ctx.flag("two nans"):
            bad.add(nodes[ctx.pick("nan2", n)])
        for v in bad:
            a[v] = NAN
            c[v] = NAN
    g = mkgraph(nodes, edges, {"A": [a[v] for v in nodes], "B": [b[v] for v in nodes]})
    ups = {
        "A": Tally("A"),
        "alias": Tally("A", alias="alias"),
        "AB": Tally(["A", "B"], alias="AB"),
        "B": Tally("B", "B", float if real else int),
        "dc": DataTally(c, "dc"),
        "da": DataTally("A", "da"),
    }
    p = Partition(g, dict(lab), ups)
    exist = list(p.parts)

    def claims(q, l):
        out = []
        for name, vals, skip in (("A", a, bad), ("alias", a, bad), ("B", b, ()), ("dc", c, bad), ("da", a, bad)):
            t = q[name]
            for part in q.parts:
                out.append((part in t, f"{name}: no total for a district"))
                out.append((eq(t[part], part_sum(l, part, vals, skip)), f"{name}: district total is not the sum over its nodes"))
            out.append((len(t) == len(q.parts), f"{name}: totals for districts that do not exist"))
        t = q["AB"]
        for part in q.parts:
            out.append((eq(t[part], part_sum(l, part, a, bad) + part_sum(l, part, b, bad)), "AB: district total is not the sum of both columns over its nodes"))
        return out

    shared = {}
    hist = [(p, lab)]
    if not lazy:
        ctx.checks(claims(p, lab))
    for s, k in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, k, f"s{s}", concrete=concrete)
        if reuse:  # the caller uses one dictionary for all its flips
            shared.clear()
            shared.update(f)
            p = p.flip(shared)
        else:
            p = p.flip(f)
        lab = apply_flips(lab, f)
        hist.append((p, lab))
        if not lazy:
            ctx.checks(claims(p, lab))
    for q, l in reversed(hist):
        ctx.checks(claims(q, l))
    # the node data was only read
    ctx.checks([(g.nodes[v]["A"] is a[v] or eq(g.nodes[v]["A"], a[v]), "the graph's data was modified") for v in nodes])
    ctx.observe("A", dict(p["A"]) if not nan else len(p["A"]))
    ctx.cover("tally")
    if nan and any(all(v in bad for v in ms) and ms for ms in hist[0][0].parts.values()):
        ctx.cover("a district of nan nodes only")


def h_reuse(ctx, n=3):
    """One updater object used on two partitions over different graphs."""
    fresh()
    nodes = ids(n)
    lab = labels(ctx, nodes, [0, 1, 1])
    x = {v: ctx.num(f"x{v}") for v in nodes}
    y = {v: ctx.num(f"y{v}") for v in nodes}
    g1 = mkgraph(nodes, path(n), {"A": [x[v] for v in nodes]})
    g2 = mkgraph(nodes, path(n), {"A": [y[v] for v in nodes]})
    t, d = Tally("A", alias="t"), DataTally("A", "d")
    p1 = Partition(g1, dict(lab), {"t": t, "d": d})
    if ctx.flag("read first"):
        p1["t"], p1["d"]
    p2 = Partition(g2, dict(lab), {"t": t, "d": d})
    f = arbitrary_flips(ctx, nodes, list(p1.parts), 1)
    l2 = apply_flips(lab, f)
    for q, l, vals in ((p2, lab, y), (p1, lab, x), (p2.flip(f), l2, y), (p1.flip(f), l2, x)):
        for part in q.parts:
            ctx.check(eq(q["t"][part], part_sum(l, part, vals)), "Tally of a reused updater mixes two graphs")
            ctx.check(eq(q["d"][part], part_sum(l, part, vals)), "DataTally of a reused updater mixes two graphs")
    ctx.cover("reuse")


def h_default(ctx, n=4):
    """Tallies without an alias are named by their first column."""
    fresh()
    nodes = ids(n, "shuffled")
    lab = labels(ctx, nodes, [0, 1, 1, 2])
    cols = {k: {v: ctx.num(f"{k}{i}") for i, v in enumerate(nodes)} for k in "ABC"}
    g = mkgraph(nodes, path(n), {k: [c[v] for v in nodes] for k, c in cols.items()})
    want = {"A": ["A", "B", "C"], "B": ["B", "A"], "C": ["C"]}
    given = {k: list(fs) for k, fs in want.items()}
    p = Partition(g, dict(lab), {"A": Tally(given["A"]), "B": Tally(given["B"]), "C": Tally("C")})
    exist = list(p.parts)
    for s, k in enumerate((1, 2)):
        f = arbitrary_flips(ctx, nodes, exist, k, f"s{s}")
        p = p.flip(f)
        lab = apply_flips(lab, f)
        for name, fs in want.items():
            for part in p.parts:
                ctx.check(eq(p[name][part], Sum([part_sum(lab, part, cols[c]) for c in fs])), "an unnamed tally is not the sum of its columns")
    ctx.check(given == want, "the caller's list of columns was changed")
    ctx.cover("default alias")


ALL4 = nonisomorphic(connected_graphs(4), 4)
P34 = [0, 0, 1, 1, 0, 2, 2, 1, 3, 3, 2, 1]
CASES = [
    Case("long", h, dict(n=16, edges=grid_edges(4, 4), pattern=blocks(4, 4, [2, 1, 0]), concrete=True, steps=(("some", 1, 1),) * 40 + (1,)), ["tally"],
         bounds="4x4 grid, 3 districts, arbitrary integer data, 40 single flips (a fixed scattered history), then an arbitrary one"),
    Case("large", h, dict(n=100, edges=grid_edges(10, 10), pattern=blocks(10, 10, list("edcba")), concrete=True, kind="shuffled", steps=(("some", 1, 1), ("some", 60), ("shift", 40))), ["tally"],
         bounds="10x10 grid, 5 districts, arbitrary integer data, flips of 1, 60 and 40 nodes together (fixed scattered choices)"),
    Case("large-whole", h, dict(n=64, edges=grid_edges(8, 8), pattern=blocks(8, 8, [3, 0, 2]), concrete=True, lazy=True, steps=(("all",), ("some", 64, 1), 0, ("some", 1))), ["tally"],
         bounds="8x8 grid, 3 districts, arbitrary integer data, all nodes moved into one district, all redistributed, nothing, one node; read at the end"),
    Case("n4-1", h, dict(edges=path(4), steps=(1,)), ["tally"], bounds="4 nodes, arbitrary labels and arbitrary integer data, one single flip (inductive step)"),
    Case("n4-2", h, dict(edges=star(4), steps=(2,), kind="str"), ["tally"], bounds="4 nodes, arbitrary labels and integer data, 2 nodes flipped together"),
    Case("n4-1-1-real", h, dict(edges=cycle(4), steps=(1, 1), real=True, pattern=[0, 1, 1, 2]), ["tally"], bounds="4 nodes, 3 districts, arbitrary real data, 2 single flips"),
    Case("n3-1-1", h, dict(n=3, edges=path(3), steps=(1, 1), lazy=True, kind="tuple"), ["tally"], bounds="3 nodes, arbitrary labels and integer data, 2 single flips, first read at the end"),
    Case("reused-dict", h, dict(n=3, edges=path(3), steps=(1, 1, 1), lazy=True, reuse=True, pattern=[0, 1, 1]), ["tally"], bounds="3 nodes, 2 districts, arbitrary integer data, 3 single flips given in one dictionary that is changed in between; first read at the end"),
    Case("empty-flip", h, dict(n=3, edges=path(3), steps=(0, 1, 0)), ["tally"], bounds="3 nodes, arbitrary labels and integer data, a flip of nothing before and after a single flip"),
    Case("odd-labels", h, dict(n=4, edges=path(4), pattern=[None, 0, "", 0], steps=(1,), concrete=True), ["tally"], bounds="4 nodes in districts called None, 0 and '', one single flip"),
    Case("n3-2-2", h, dict(n=3, edges=path(3), steps=(2, 1), kind="offset"), ["tally"], bounds="3 nodes, arbitrary labels and integer data, flips of 2 and 1 nodes"),
    Case("n4-nan", h, dict(edges=path(4), steps=(1, 1), nan=True, pattern=[0, 0, 1, 1], real=True), ["tally", "a district of nan nodes only"], bounds="4 nodes, 2 districts, arbitrary reals with one or two nan nodes, 2 single flips"),
    Case("n4-nan-2", h, dict(edges=path(4), steps=(2,), nan=True, pattern=[0, 1, 1, 0], real=True, kind="tuple"), ["tally"], bounds="4 nodes, 2 districts, arbitrary reals with one or two nan nodes, 2 nodes flipped together"),
    Case("n5-nan-3", h, dict(n=5, edges=path(5), steps=(3,), nan=True, pattern=[0, 1, 1, 0, 2], real=True), ["tally"], bounds="5 nodes, 3 districts, arbitrary reals with one or two nan nodes, 3 nodes flipped together", thorough=True),
    Case("default-alias", h_default, {}, ["default alias"], bounds="4 nodes, arbitrary labels and integer data, unnamed tallies of 1-3 columns under their first column's name, flips of 1 and 2 nodes"),
    Case("grid34", h, dict(n=12, edges=grid_edges(3, 4), pattern=P34, steps=(1,), kind="shuffled"), ["tally"], bounds="3x4 grid, 4 districts with arbitrary distinct labels, arbitrary integer data, one single flip"),
    Case("grid34-c", h, dict(n=12, edges=grid_edges(3, 4), pattern=["p%d" % k for k in P34], steps=(1, 1), kind="str", concrete=True), ["tally"], bounds="3x4 grid, 4 string-labelled districts, arbitrary integer data, 2 single flips"),
    Case("grid34-all", h, dict(n=12, edges=grid_edges(3, 4), pattern=[0] * 6 + [1] * 6, steps=(11,), kind="int", concrete=False), ["tally"], bounds="3x4 grid, 2 districts, 11 nodes flipped together to arbitrary districts", thorough=True),
    Case("reuse", h_reuse, {}, ["reuse"], bounds="3 nodes, two graphs with arbitrary integer data sharing updater objects, one flip"),
    Case("n5-1-1", h, dict(n=5, edges=cycle(5), steps=(1, 1)), ["tally"], bounds="5 nodes, arbitrary labels and data, 2 single flips", thorough=True),
    Case("n4-1-1-1", h, dict(n=4, edges=path(4), steps=(1, 1, 1)), ["tally"], bounds="4 nodes, arbitrary labels and data, 3 single flips", thorough=True),
]
