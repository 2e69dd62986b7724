from checks.lib import *
from gerrychain.grid import Grid, create_grid_graph, color_half, color_quadrants, get_boundary_perim
import math


def cells(m, n):
    return [(i, j) for i in range(m) for j in range(n)]


def around(c):
    i, j = c
    return [(i - 1, j), (i + 1, j), (i, j - 1), (i, j + 1)]


def structure(ctx, g, m, n, diag, what="grid"):
    C = cells(m, n)
    ctx.check(set(g.nodes) == set(C) and len(g.nodes) == m * n, f"the {what}'s nodes are not the cells")
    want = {}
    for c in C:
        for d in around(c):
            if d in C:
                want[frozenset((c, d))] = 1
        if diag:
            for d in ((c[0] + 1, c[1] + 1), (c[0] + 1, c[1] - 1)):
                if d in C:
                    want[frozenset((c, d))] = 0
    ctx.check({frozenset(e) for e in g.edges} == set(want) and len(g.edges) == len(want), f"the {what}'s edges are not the adjacent cells")
    for e in g.edges:
        ctx.check(g.edges[e]["shared_perim"] == want[frozenset(e)], "shared_perim is not 1 for sides and 0 for corners")
    for c in C:
        a = g.nodes[c]
        out = sum(d not in C for d in around(c))
        ctx.check(a["population"] == 1 and a["area"] == 1, "a cell has not population 1 and area 1")
        ctx.check(bool(a["boundary_node"]) == (out > 0), "boundary_node is not 'has a side on the outside'")
        ctx.check(a["boundary_perim"] == out if out else "boundary_perim" not in a, "boundary_perim is not the number of outer sides")


def h_shape(ctx, lo=1, hi=4):
    """Every size, with and without diagonals; the default plan."""
    fresh()
    m, n = lo + ctx.pick("m", hi - lo + 1), lo + ctx.pick("n", hi - lo + 1)
    diag = ctx.flag("diagonals")
    structure(ctx, create_grid_graph((m, n), diag), m, n, diag)
    p = Grid((m, n), with_diagonals=diag)
    structure(ctx, p.graph, m, n, diag)
    ctx.check(tuple(p.dimensions) == (m, n), "dimensions differ")
    for (i, j) in cells(m, n):
        ctx.check(p.assignment[(i, j)] == (0 if i < m // 2 else 1) + (0 if j < n // 2 else 2), "the default plan is not the four quadrants")
    ctx.cover("diagonals" if diag else "plain")


def claims(ctx, p, lab, m, n, diag):
    C = cells(m, n)
    ds = [d for d in p.parts if ctx.branch(Or([eq(d, lab[c]) for c in C]))]
    for d in ds:
        mem = {c: eq(lab[c], d) for c in C}
        area = Count(list(mem.values()))
        ctx.check(eq(p["area"][d], area), "area is not the number of cells")
        ctx.check(eq(p["population"][d], area), "population is not the number of cells")
        ext = Sum([Ite(mem[c], sum(x not in C for x in around(c)), 0) for c in C])
        inn = Sum([Ite(And(mem[c], Not(mem[x])), 1, 0) for c in C for x in around(c) if x in C])
        ctx.check(eq(p["exterior_boundaries"][d], ext), "the exterior boundary is not the number of outer sides")
        ctx.check(eq(p["interior_boundaries"][d], inn), "the interior boundary is not the number of sides to other districts")
        ctx.check(eq(p["perimeter"][d], ext + inn), "the perimeter is not the number of sides of the district")
        pp = p["polsby_popper"][d]
        ctx.check(le(Abs(pp * (ext + inn) * (ext + inn) - 4 * 3.141592653589793 * area), 1e-6), "polsby_popper is not 4 pi area / perimeter^2")
    ctx.check(set(p["boundary_nodes"]) == {c for c in C if any(x not in C for x in around(c))}, "boundary_nodes are not the outer cells")
    E_ = [(c, x) for c in C for x in around(c) if x in C and c < x]
    if diag:
        E_ += [(c, x) for c in C for x in ((c[0] + 1, c[1] + 1), (c[0] + 1, c[1] - 1)) if x in C]
    got = {frozenset(e) for e in p["cut_edges"]}
    for c, x in E_:
        ctx.check(ne(lab[c], lab[x]) if frozenset((c, x)) in got else eq(lab[c], lab[x]), "cut edges are not the adjacent cells in different districts")


def h_plan(ctx, m=2, n=2, diag=False, steps=1, own=False, L=2, default=False):
    fresh()
    C = cells(m, n)
    if default:
        p = Grid((m, n), with_diagonals=diag)
        lab = {c: (0 if c[0] < m // 2 else 1) + (0 if c[1] < n // 2 else 2) for c in C}
    else:
        lab = {c: ctx.label(f"a{i}", 0, L - 1) for i, c in enumerate(C)}
        p = Grid((m, n), with_diagonals=diag, assignment=dict(lab), updaters={"mine": lambda q: len(q.parts)} if own else None)
    for s in range(steps + 1):
        if s:
            i = ctx.pick(f"who{s}", len(C))
            to = ctx.choose(f"to{s}", list(p.parts))
            q = p.flip({C[i]: to})
            ctx.check(type(q) is Grid and tuple(q.dimensions) == (m, n), "a flipped grid is not a grid of the same size")
            old = lab
            lab = dict(lab)
            lab[C[i]] = to
            for c in C:
                ctx.check(eq(p.assignment[c], old[c]), "the flip changed its parent")
            p = q
        for c in C:
            ctx.check(eq(p.assignment[c], lab[c]), "a cell has another district")
        if not ctx.branch(And([Or([eq(lab[c], d) for c in C]) for d in p.parts])):
            ctx.prune()  # an emptied district has no perimeter
        claims(ctx, p, lab, m, n, diag)
        if own:
            ctx.check(p["mine"] == len(p.parts), "the caller's updater is missing")
        ctx.cover(f"step {s}")


def h_color(ctx):
    """The plan helpers with unknown coordinates and sizes."""
    x, y = ctx.num("x", 0), ctx.num("y", 0)
    tx, ty = ctx.num("tx"), ctx.num("ty")
    ctx.check(eq(color_half((x, y), tx), Ite(le(x, tx), 0, 1)), "color_half is not 'x <= threshold'")
    ctx.check(eq(color_quadrants((x, y), (tx, ty)), Ite(lt(x, tx), 0, 1) + Ite(lt(y, ty), 0, 2)), "color_quadrants is not the quadrant")
    m, n = ctx.num("m", 1), ctx.num("n", 1)
    ctx.assume(And(lt(x, m), lt(y, n)))
    sides = Sum([Ite(eq(x, 0), 1, 0), Ite(eq(x, m - 1), 1, 0), Ite(eq(y, 0), 1, 0), Ite(eq(y, n - 1), 1, 0)])
    ctx.check(eq(get_boundary_perim((x, y), (m, n)), sides), "get_boundary_perim is not the number of outer sides")
    ctx.cover("colors")


def h_bad(ctx):
    fresh()
    ctx.raises(ValueError, lambda: create_grid_graph((2, 2, 2), False), "three dimensions")
    ctx.raises(Exception, lambda: Grid(), "neither size nor parent")
    ctx.cover("refused")


ASSUMPTIONS = ["all districts of a plan are non-empty (an emptied district has no Polsby-Popper score)"]
CASES = [
    Case("shape", h_shape, {}, ["diagonals", "plain"], bounds="all sizes from 1x1 to 4x4"),
    Case("shape-large", h_shape, dict(lo=11, hi=13), ["diagonals", "plain"], bounds="all sizes from 11x11 to 13x13"),
    Case("colors", h_color, {}, ["colors"], bounds="arbitrary coordinates, sizes and thresholds"),
    Case("bad", h_bad, {}, ["refused"], bounds="bad arguments"),
    Case("plan-2x2", h_plan, dict(m=2, n=2, L=2), ["step 0", "step 1"], bounds="2x2, every plan with 2 districts, every flip"),
    Case("plan-2x2-d", h_plan, dict(m=2, n=2, L=3, diag=True), ["step 0", "step 1"], bounds="2x2 with diagonals, every plan with 3 districts, every flip"),
    Case("plan-1x4", h_plan, dict(m=1, n=4, L=2), ["step 0", "step 1"], bounds="1x4, every plan, every flip"),
    Case("plan-3x1", h_plan, dict(m=3, n=1, L=3, own=True), ["step 0", "step 1"], bounds="3x1, every plan, every flip"),
    Case("plan-1x3-twice", h_plan, dict(m=1, n=3, L=2, steps=2), ["step 2"], bounds="1x3, every plan with 2 districts, every two flips"),
    Case("default-2x3-twice", h_plan, dict(m=2, n=3, default=True, diag=True, steps=2), ["step 2"], bounds="2x3 quadrants, every two flips"),
    Case("plan-2x3", h_plan, dict(m=2, n=3, L=2), ["step 0", "step 1"], bounds="2x3, every plan with 2 districts, every flip"),
    Case("plan-3x2-d", h_plan, dict(m=3, n=2, L=2, diag=True), ["step 0", "step 1"], thorough=True, bounds="3x2 with diagonals, every plan with 2 districts, every flip"),
    Case("plan-3x3", h_plan, dict(m=3, n=3, L=2, steps=0), ["step 0"], thorough=True, bounds="3x3, every plan with 2 districts"),
    Case("default-4x4", h_plan, dict(m=4, n=4, default=True, diag=True), ["step 0", "step 1"], bounds="4x4 quadrants, every flip"),
    Case("default-3x5", h_plan, dict(m=3, n=5, default=True), ["step 0", "step 1"], bounds="3x5 quadrants, every flip"),
]
