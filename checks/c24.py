from checks.lib import *
from gerrychain.meta import DiversityStats, collect_diversity_stats


def canon(ctx, lab, nodes):
    return frozenset(frozenset(g) for g in groups(ctx, lab, nodes))


def cuts(plan, nodes, edges):
    of = {v: g for g in plan for v in g}
    return frozenset((i, j) for i, j in edges if of[nodes[i]] != of[nodes[j]])


def h_stats(ctx, n=3, edges=None, kind="int", T=3, L=2, mode="flips", connected=True, plans_of=None, first=(), late=None):
    """A run of plans, with repetitions, relabellings and reversals."""
    fresh()
    nodes = ids(n, kind)
    g = mkgraph(nodes, edges)
    E_ = [(nodes[i], nodes[j]) for i, j in edges]
    if mode == "list":
        # a run over a list of plans: the first ones as given, then any of them
        k = first[0] if first else ctx.pick("plan0", len(plans_of))
        lab = {v: plans_of[k][i] for i, v in enumerate(nodes)}
    else:
        lab = {v: ctx.label(f"a{i}", 0, L - 1) for i, v in enumerate(nodes)}
    p = Partition(g, dict(lab))
    runs, plans = [p], [canon(ctx, lab, nodes)]
    dists = set(plans[0])
    for t in range(1, T):
        if mode == "flips":
            fl = {}
            for i, v in enumerate(nodes):
                if ctx.flag(f"move{t}_{i}"):
                    fl[v] = ctx.choose(f"to{t}_{i}", list(p.parts))
            lab = dict(lab, **{}) if not fl else {**lab, **fl}
            p = p.flip(fl)
        elif mode == "list":
            if t < len(first):
                k = first[t]
            else:
                k = ctx.choose(f"plan{t}", late) if late else ctx.pick(f"plan{t}", len(plans_of))
            lab = {v: plans_of[k][i] for i, v in enumerate(nodes)}
            p = p.flip(dict(lab)) if set(plans_of[k]) <= set(p.parts) and t % 2 else Partition(g, dict(lab))
        else:
            # an unrelated plan with labels of its own
            lab = {v: ctx.label(f"b{t}_{i}", 0, L - 1) for i, v in enumerate(nodes)}
            p = Partition(g, dict(lab))
        c = canon(ctx, lab, nodes)
        if any(len(p.parts[d]) == 0 for d in p.parts):
            ctx.prune()
        runs.append(p)
        plans.append(c)
    if connected and not all(is_connected(d, E_) for c in plans for d in c):
        ctx.prune()
    seen = []

    def source():
        for k, q in enumerate(runs):
            seen.append(k)
            yield q

    k = -1
    cutsets, districts = set(), set()
    for k, (q, st) in enumerate(collect_diversity_stats(source())):
        ctx.check(q is runs[k], "the plans are not passed through as they come")
        ctx.check(seen == list(range(k + 1)), "plans are taken from the chain ahead of time")
        ctx.check(isinstance(st, DiversityStats), "not a DiversityStats")
        ctx.check(st.steps_taken == k + 1, "steps_taken is not the number of plans so far")
        # equal cut edges = the same plan up to relabelling (districts connected)
        cutsets.add(cuts(plans[k], nodes, edges))
        districts.update(plans[k])
        up = len(cutsets)
        if connected:
            assert up == len(set(plans[: k + 1]))
        ctx.check(st.unique_plans == up, "unique_plans is not the number of different plans up to relabelling")
        ctx.check(st.unique_districts == len(districts), "unique_districts is not the number of different districts")
    ctx.check(k == T - 1, "the wrapper lost plans")
    ctx.cover("repeat" if len(set(plans)) < T else "all different")


C12 = [[1 if k <= i < k + 6 or i < k - 6 else 2 for i in range(12)] for k in range(6)] + [[1 if k <= i < k + 5 or i < k - 7 else 2 for i in range(12)] for k in range(4)]
C12 += [[3 - x for x in C12[0]], [7 if x == 1 else "x" for x in C12[7]]]
P9 = [[0] * 6 + [1] * 3, [0] * 7 + [1] * 2, [1] * 6 + [0] * 3, [0] * 2 + [1] * 7]
G34 = [[0] * 4 + [1] * 4 + [2] * 4, [0, 0, 1, 1] * 3, [0] * 8 + [1] * 4, [0] * 4 + [1] * 8, [0, 0, 0, 0, 0, 1, 1, 1, 2, 2, 2, 1], [0, 0, 0, 1, 0, 1, 1, 1, 2, 2, 2, 2]]
P24 = [[0] * i + [1] * (j - i) + [2] * (24 - j) for i in range(1, 23) for j in range(i + 1, 24)]
P24 += [[2 - x for x in P24[0]]]
P27 = [[0] * i + [1] * (j - i) + [2] * (47 - j) for i in range(1, 46) for j in range(i + 1, 47)]
def strips(m, k):
    """the m x m grid in rows, two of the last nodes of row k with the next"""
    return [i // m if i // m != k or i % m < m - 2 else k + 1 for i in range(m * m)]


G10 = [strips(10, 99), strips(10, 0), strips(10, 5), strips(10, 8), [9 - x for x in strips(10, 8)]]
ASSUMPTIONS = ["districts are connected and non-empty"]
CASES = [
    Case("p3", h_stats, dict(n=3, edges=path(3), T=3), ["repeat"], bounds="path of 3, every run of 3 plans by arbitrary flips"),
    Case("k3", h_stats, dict(n=3, edges=complete(3), T=3, kind="str"), ["repeat", "all different"], bounds="triangle, every run of 3 plans by arbitrary flips"),
    Case("k3-3", h_stats, dict(n=3, edges=complete(3), T=2, L=3, kind="tuple"), ["repeat", "all different"], bounds="triangle, 3 districts, runs of 2 plans"),
    Case("p3-other", h_stats, dict(n=3, edges=path(3), T=3, mode="other", kind="shuffled"), ["repeat", "all different"], bounds="path of 3, runs of 3 unrelated plans"),
    Case("c4-other", h_stats, dict(n=4, edges=cycle(4), T=2, mode="other", kind="offset", L=3), ["repeat", "all different"], bounds="cycle of 4, 2 unrelated plans"),
    Case("p3-4", h_stats, dict(n=3, edges=path(3), T=4, kind="shuffled"), ["repeat"], thorough=True, bounds="path of 3, every run of 4 plans by arbitrary flips"),
    Case("star-2", h_stats, dict(n=4, edges=star(4), T=2, kind="shuffled"), ["repeat", "all different"], bounds="star of 4, runs of 2 plans"),
    Case("c4", h_stats, dict(n=4, edges=cycle(4), T=3, kind="offset"), ["repeat", "all different"], thorough=True, bounds="cycle of 4, every run of 3 plans by arbitrary flips"),
    Case("c12", h_stats, dict(n=12, edges=cycle(12), T=12, mode="list", kind="tuple", first=range(10), plans_of=C12), ["repeat"], bounds="cycle of 12: ten plans, then any two of the ten plans or of two relabelled ones"),
    Case("p9", h_stats, dict(n=9, edges=path(9), T=5, mode="list", kind="int", plans_of=P9), ["repeat"], bounds="path of 9, every run of 5 over 4 plans (districts agreeing in their first or last nodes, and one relabelled)"),
    Case("g34", h_stats, dict(n=12, edges=grid_edges(3, 4), T=3, mode="list", kind="shuffled", plans_of=G34), ["repeat", "all different"], bounds="3x4 grid, every run of 3 over 6 plans with the same number of cut edges or the same nodes at the boundary"),
    Case("g10", h_stats, dict(n=100, edges=grid_edges(10, 10), T=4, mode="list", kind="int", plans_of=G10), ["repeat", "all different"], bounds="10x10 grid, every run of 4 over 5 plans of 10 districts"),
    Case("p24-long", h_stats, dict(n=24, edges=path(24), T=255, mode="list", kind="shuffled", plans_of=P24, first=range(253), late=[0, 1, 60, 125, 200, 252, 253]), ["repeat"], bounds="path of 24: 253 different plans, then any two of seven (early, late and relabelled ones)"),
    Case("p47-long", h_stats, dict(n=47, edges=path(47), T=1036, mode="list", kind="int", plans_of=P27, first=range(1035), late=[0, 500, 1034]), ["repeat"], bounds="path of 47: 1035 different plans, then an early, a middle or a late one again"),
]
