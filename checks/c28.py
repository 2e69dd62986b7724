import math
from fractions import Fraction

from checks.lib import *
from gerrychain.updaters import num_spanning_trees


def trees(mem, edges):
    """number of spanning trees on mem, by trying every set of edges"""
    mem = list(mem)
    if len(mem) > 9:
        return kirchhoff(mem, edges)
    inside = [(u, v) for u, v in edges if u in mem and v in mem]
    return sum(is_connected(mem, es) for es in itertools.combinations(inside, len(mem) - 1))


def kirchhoff(mem, edges):
    """the same number by the matrix-tree theorem in exact fractions"""
    k = len(mem) - 1
    at = {v: i for i, v in enumerate(mem)}
    a = [[Fraction(0)] * (k + 1) for _ in range(k + 1)]
    for u, v in edges:
        if u in at and v in at:
            i, j = at[u], at[v]
            a[i][i] += 1
            a[j][j] += 1
            a[i][j] -= 1
            a[j][i] -= 1
    det = Fraction(1)
    for c in range(k):
        r = next((r for r in range(c, k) if a[r][c]), None)
        if r is None:
            return 0
        if r != c:
            a[c], a[r] = a[r], a[c]
            det = -det
        det *= a[c][c]
        for r in range(c + 1, k):
            f = a[r][c] / a[c][c]
            if f:
                a[r] = [x - f * y for x, y in zip(a[r], a[c])]
    return int(det)


def h_count(ctx, n, edges, kind="int", pattern=None, weights=False, flips=0, cls=Partition, arbitrary=False):
    fresh()
    nodes = ids(n, kind)
    data = {"weight": [k + 2 for k in range(len(edges))]} if weights else {}
    g = mkgraph(nodes, edges, {"area": [1] * n, "boundary_node": [False] * n, "boundary_perim": [1] * n}, {**data, "shared_perim": [1] * len(edges)})
    lab = labels(ctx, nodes, None if arbitrary else pattern)
    p = cls(g, lab, {"trees": num_spanning_trees, "again": num_spanning_trees})
    exist = list(p.parts)
    for step in range(flips + 1):
        ix = {v: i for i, v in enumerate(nodes)}
        got = p["trees"]
        ctx.check(len(got) == len(p.parts), "a count for a district that does not exist, or none for one that does")
        for d, mem in p.parts.items():
            if not mem:
                ctx.prune()
            k = trees([ix[v] for v in mem], edges)
            v = got[d]
            ctx.check(abs(v - k) <= (1e-9 * k if k else 1e-6), lambda: f"a district with {k} spanning trees is reported to have {v}")
            ctx.cover("single" if len(mem) == 1 else "none" if k == 0 else "one" if k == 1 else "many")
        ctx.observe("counts", sorted(round(x) for x in got.values()))
        if step < flips:
            p = p.flip(arbitrary_flips(ctx, nodes, exist, 1 + step, name=f"f{step}"))


B = "every plan with arbitrary labels; the linear algebra runs for real on each plan (relative error below 1e-9)"


def C(name, n, edges, covers=("single", "one", "many", "none"), thorough=False, **kw):
    return Case(name, h_count, dict(n=n, edges=edges, **kw), covers=covers, thorough=thorough, bounds=f"{n} nodes, {len(edges)} edges; {B}")


diamond = cycle(4) + [(0, 2)]
CASES = [
    C("c4", 4, cycle(4), arbitrary=True),
    C("diamond", 4, diamond, arbitrary=True, kind="str"),
    C("k4", 4, complete(4), arbitrary=True, covers=("single", "one", "many"), kind="tuple"),
    C("k4-weights", 4, complete(4), arbitrary=True, covers=("single", "one", "many"), weights=True),
    C("p4", 4, path(4), arbitrary=True, covers=("single", "one", "none"), kind="offset"),
    C("wheel5", 5, star(5) + [(1, 2), (2, 3), (3, 4), (4, 1)], arbitrary=True, kind="shuffled"),
    C("k5", 5, complete(5), arbitrary=True, covers=("single", "one", "many")),
    C("two", 2, [(0, 1)], arbitrary=True, covers=("single", "one")),
    C("g23-flip", 6, grid_edges(2, 3), pattern=(0, 0, 0, 1, 1, 1), flips=1, covers=("one", "none")),
    C("g33-flip2", 9, grid_edges(3, 3), pattern=(0, 0, 0, 0, 0, 0, 1, 1, 1), flips=1, covers=("many", "none")),
    C("g23-geo", 6, grid_edges(2, 3), pattern=(0, 0, 1, 0, 0, 1), flips=1, cls=GeographicPartition, covers=("many", "one")),
    C("g33-one", 9, grid_edges(3, 3), pattern=(0,) * 9, covers=("many",)),
    C("g55-one", 25, grid_edges(5, 5), pattern=(0,) * 25, covers=("many",)),
    C("k12", 12, complete(12), pattern=(0,) * 12, covers=("many",)),
    C("g66-flip", 36, grid_edges(6, 6), pattern=(0,) * 18 + (1,) * 18, flips=1, covers=("many",)),
    C("g75-one", 35, grid_edges(7, 5), pattern=(0,) * 35, covers=("many",)),
    C("g23-all", 6, grid_edges(2, 3), arbitrary=True),
    C("k5-flip2", 5, complete(5), pattern=(0, 0, 0, 1, 1), flips=2, thorough=True, covers=("many", "one")),
    C("g33-two", 9, grid_edges(3, 3), pattern=(0, 0, 0, 0, 0, 0, 1, 1, 1), flips=2, thorough=True, covers=("many", "none")),
    C("k6", 6, complete(6), arbitrary=True, thorough=True, covers=("many", "one", "single")),
]
