import numpy
from checks.lib import *
from gerrychain.constraints import Validator
from gerrychain.metagraph import all_cut_edge_flips, all_valid_flips, all_valid_states_one_flip_away, metagraph_degree


def begin(ctx, n, edges, kind, L, flipped=False, pattern=None):
    fresh()
    nodes = ids(n, kind)
    lab = labels(ctx, nodes, pattern) if pattern else {v: (ctx.label(f"a{i}") if L is None else ctx.label(f"a{i}", 0, L - 1)) for i, v in enumerate(nodes)}
    gs = groups(ctx, lab, nodes)
    of = {v: k for k, g in enumerate(gs) for v in g}
    p = Partition(mkgraph(nodes, edges), dict(lab))
    if flipped:
        # reach the plan by a flip: the first node comes from another district
        k = ctx.pick("from", len(gs))
        if len(gs[of[nodes[0]]]) == 1 and k != of[nodes[0]]:
            ctx.prune()
        start = dict(lab)
        start[nodes[0]] = lab[gs[k][0]]
        p = Partition(mkgraph(nodes, edges), start).flip({nodes[0]: lab[nodes[0]]})
    nb = {v: set() for v in nodes}
    for i, j in edges:
        nb[nodes[i]].add(nodes[j])
        nb[nodes[j]].add(nodes[i])
    moves = {(v, of[u]) for v in nodes for u in nb[v] if of[u] != of[v]}
    return nodes, lab, gs, of, p, moves


def district(ctx, lab, gs, to):
    """which group a (possibly unknown) label denotes on this path"""
    out = [k for k, g in enumerate(gs) if ctx.branch(eq(to, lab[g[0]]))]
    ctx.check(len(out) == 1, "a flip to a district that does not exist")
    return out[0]


def h_flips(ctx, n=4, edges=None, kind="int", L=3, flipped=False, pattern=None):
    nodes, lab, gs, of, p, moves = begin(ctx, n, edges, kind, L, flipped, pattern)
    got = []
    for f in all_cut_edge_flips(p):
        ctx.check(len(f) == 1, "a flip of several nodes")
        (v, to), = f.items()
        got.append((v, district(ctx, lab, gs, to)))
    ctx.check(len(got) == len(set(got)), "a flip is listed twice")
    ctx.check(set(got) <= moves, "a flip that no cut edge allows")
    ctx.check(set(got) == moves, "a flip is missing")
    ctx.check(metagraph_degree(p, []) == len(moves), "the degree without constraints is not the number of flips")
    ctx.cover("moves" if moves else "none")


def h_valid(ctx, n=4, edges=None, kind="int", L=2, form="callable", what="states", pattern=None, hard=()):
    """An arbitrary constraint over the neighbouring plans."""
    nodes, lab, gs, of, p, moves = begin(ctx, n, edges, kind, L, pattern=pattern)

    def key(state):
        diff = [v for v in nodes if ctx.branch(ne(state.assignment[v], lab[v]))]
        ctx.check(len(diff) == 1, "a judged state does not differ in one node")
        return diff[0], district(ctx, lab, gs, state.assignment[diff[0]])

    # with `hard` given only those nodes' moves are judged arbitrarily, all others are valid
    good = {mv: ctx.num(f"good{nodes.index(mv[0])}_{mv[1]}") if not hard or nodes.index(mv[0]) in hard else 1 for mv in sorted(moves, key=lambda m: (nodes.index(m[0]), m[1]))}
    also = {mv: ctx.num(f"also{nodes.index(mv[0])}_{mv[1]}") if not hard or nodes.index(mv[0]) in hard else 1 for mv in good} if form in ("list", "iterator", "validator") else {}

    def cons(state):
        r = bool(good[key(state)] > 0)
        return numpy.bool_(r) if form.startswith("numpy") else r

    def cons2(state):
        return bool(also[key(state)] > 0)

    cs = {"callable": lambda: cons, "list": lambda: [cons, cons2], "iterator": lambda: iter([cons, cons2]), "one": lambda: [cons], "tuple": lambda: (cons,),
          "validator": lambda: Validator([cons, cons2]), "numpy": lambda: cons, "numpy-list": lambda: [cons]}[form]
    ok = {mv: And(gt(good[mv], 0), gt(also[mv], 0)) if also else gt(good[mv], 0) for mv in moves}
    if what == "degree":
        d = metagraph_degree(p, cs())
        ctx.check(eq(d, Count(list(ok.values()))), "the degree is not the number of valid flips")
        ctx.cover("decided")
        return
    got = []
    if what == "states":
        for q in all_valid_states_one_flip_away(p, cs()):
            ctx.check(q.parent is p, "a state's parent is not the given plan")
            got.append(key(q))
    else:
        for f in all_valid_flips(p, cs()):
            ctx.check(len(f) == 1, "a flip of several nodes")
            (v, to), = f.items()
            got.append((v, district(ctx, lab, gs, to)))
    ctx.check(len(got) == len(set(got)), "a state is listed twice")
    for mv in moves:
        ctx.check(ok[mv] if mv in got else Not(ok[mv]), "an invalid state is listed" if mv in got else "a valid state is missing")
    ctx.check(set(got) <= moves, "a state that is not one flip away")
    for v in nodes:
        ctx.check(eq(p.assignment[v], lab[v]), "the given plan changed")
    ctx.cover("decided")


ASSUMPTIONS = ["constraints answer True or False (Python's or numpy's)"]
ALL4 = nonisomorphic(connected_graphs(4), 4)
KINDS = ["int", "str", "shuffled", "tuple", "offset"]
HOUSE = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]
CASES = []
for i, es in enumerate(ALL4):
    CASES.append(Case(f"flips-{i}", h_flips, dict(edges=es, kind=KINDS[i % 5], L=4), ["moves", "none"], bounds=f"graph {es}, every plan"))
    CASES.append(Case(f"after-flip-{i}", h_flips, dict(edges=es, kind=KINDS[(i + 2) % 5], L=3, flipped=True), ["moves", "none"], bounds=f"graph {es}, every plan with 3 districts, reached by a flip"))
for form in ("callable", "list", "iterator", "one", "tuple", "validator", "numpy", "numpy-list"):
    for what in ("states", "flips", "degree"):
        CASES.append(Case(f"{what}-{form}", h_valid, dict(n=3, edges=path(3) if what == "degree" else complete(3), form=form, what=what, kind="str" if what == "flips" else "int"), ["decided"], bounds="3 nodes, every plan with 2 districts, arbitrary verdicts"))
CASES += [
    Case("flips-free", h_flips, dict(n=3, edges=complete(3), L=None), ["moves", "none"], bounds="triangle, arbitrary labels"),
    Case("flips-house", h_flips, dict(n=5, edges=HOUSE, L=2), ["moves", "none"], bounds="house, every plan with 2 districts"),
    Case("flips-house-3", h_flips, dict(n=5, edges=HOUSE, L=3, kind="tuple"), ["moves", "none"], thorough=True, bounds="house, every plan with 3 districts"),
    Case("states-p3-3", h_valid, dict(n=3, edges=path(3), L=3, form="list"), ["decided"], bounds="path of 3, 3 districts, two arbitrary constraints"),
    Case("states-star", h_valid, dict(n=4, edges=star(4), form="callable", kind="shuffled"), ["decided"], bounds="star of 4, arbitrary verdicts"),
    Case("states-c4", h_valid, dict(n=4, edges=cycle(4), L=3, form="one"), ["decided"], thorough=True, bounds="cycle of 4, 3 districts, arbitrary verdicts"),
    Case("flips-3-districts", h_valid, dict(n=4, edges=path(4), L=3, form="one", what="flips", kind="str"), ["decided"], bounds="path of 4, every plan with up to 3 districts, arbitrary verdicts (a move may empty a district)"),
    Case("degree-3-districts", h_valid, dict(n=3, edges=path(3), L=3, form="callable", what="degree"), ["decided"], bounds="path of 3, every plan with up to 3 districts, arbitrary verdicts (a move may empty a district)"),
    Case("flips-k7", h_flips, dict(n=7, edges=complete(7), pattern=(0, 1, 2, 0, 1, 3, 3), kind="shuffled"), ["moves"], bounds="K7, 4 districts with arbitrary labels"),
    Case("flips-g44", h_flips, dict(n=16, edges=grid_edges(4, 4), pattern=(0, 0, 1, 1, 0, 0, 1, 1, 2, 3, 2, 3, 2, 2, 3, 4), kind="tuple"), ["moves"], bounds="4x4 grid, 5 districts with arbitrary labels"),
    Case("flips-star", h_flips, dict(n=14, edges=star(14), pattern=tuple(range(14)), kind="str"), ["moves"], bounds="star of 14, every node a district of its own"),
] + [
    Case(f"{what}-g33", h_valid, dict(n=9, edges=grid_edges(3, 3), pattern=(0, 0, 1, 0, 2, 1, 2, 2, 3), form="list" if what == "states" else "one", what=what, kind="str", hard=(1, 8)), ["decided"],
         bounds="3x3 grid, 4 districts (one of a single node), arbitrary verdicts on the moves of two nodes") for what in ("states", "flips", "degree")
]
