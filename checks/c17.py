from checks.lib import *
from fractions import Fraction
from gerrychain.proposals import (propose_any_node_flip, propose_chunk_flip, propose_flip_every_district, propose_random_flip,
                                  slow_reversible_propose, slow_reversible_propose_bi, flip)
from gerrychain.proposals import proposals as mod
from gerrychain.updaters import cut_edges_by_part


def begin(ctx, n, edges, kind, pattern, upd=False, hist=()):
    """hist: nodes that came from elsewhere (another district, or one that they leave empty) in an earlier flip"""
    fresh()
    nodes = ids(n, kind)
    if pattern is None:
        lab = labels(ctx, nodes)
    elif isinstance(pattern, int):
        lab = {v: ctx.label(f"a{i}", 0, pattern - 1) for i, v in enumerate(nodes)}
    else:
        lab = labels(ctx, nodes, pattern)
    u = {"cut_edges_by_part": cut_edges_by_part} if upd else {}
    old = dict(lab)
    for i in hist:
        old[nodes[i]] = ctx.label(f"h{i}")
    if hist:
        # a flip can only go to a district that exists
        ctx.assume(And([Or([eq(lab[nodes[i]], old[v]) for v in nodes]) for i in hist]))
    p = Partition(mkgraph(nodes, edges), old, updaters=u)
    if hist:
        if ctx.flag("read before"):
            p["cut_edges"], [p[k] for k in u]
        p = p.flip({nodes[i]: lab[nodes[i]] for i in hist})
        if any(len(m) == 0 for m in p.parts.values()):
            ctx.cover("empty district")
    return nodes, lab, p


def nbrs(nodes, edges):
    out = {v: [] for v in nodes}
    for i, j in edges:
        out[nodes[i]].append(nodes[j])
        out[nodes[j]].append(nodes[i])
    return out


def unchanged(ctx, p, lab):
    for v in lab:
        ctx.check(eq(p.assignment[v], lab[v]), "the given partition changed")


def changes(ctx, p, q, lab):
    """the nodes whose district differs, decided on this path"""
    unchanged(ctx, p, lab)
    ctx.check(q.parent is p, "the proposal's parent is not the given partition")
    return [v for v in lab if ctx.branch(ne(q.assignment[v], lab[v]))]


F = {"random": propose_random_flip, "flip": flip, "slow": slow_reversible_propose, "bi": slow_reversible_propose_bi}


def h_flip(ctx, f="random", n=4, edges=None, kind="int", pattern=None, hist=()):
    """One boundary node moves to the district of one of its neighbours."""
    nodes, lab, p = begin(ctx, n, edges, kind, pattern, hist=hist)
    nb = nbrs(nodes, edges)
    some = ctx.branch(Or([ne(lab[u], lab[v]) for u in nodes for v in nb[u]]))
    if not some:
        if f in ("random", "flip"):
            q = F[f](p)
            ctx.check(q is p, "a plan without cut edges must be returned as it is")
        ctx.cover("no boundary")
        return
    q = F[f](p)
    ch = changes(ctx, p, q, lab)
    ctx.check(len(ch) == 1, f"{len(ch)} nodes change district instead of one")
    v = ch[0]
    to = q.assignment[v]
    ctx.check(Or([eq(to, lab[u]) for u in nb[v]]), "the node moves to a district that none of its neighbours is in")
    ctx.check(q.flips is not None and list(q.flips) == [v], "the flips are not the moved node")
    ctx.cover("moved")
    if not (pattern is None or isinstance(pattern, int)):
        d = [k for k in set(pattern) if ctx.branch(eq(to, lab[nodes[list(pattern).index(k)]]))]
        if d:
            ctx.cover(f"node {nodes.index(v)} to {d[0]}")


def h_any(ctx, n=3, edges=None, kind="int", pattern=None, hist=()):
    nodes, lab, p = begin(ctx, n, edges, kind, pattern, hist=hist)
    q = propose_any_node_flip(p)
    ch = changes(ctx, p, q, lab)
    ctx.check(len(ch) <= 1, "more than one node changes district")
    ctx.check(len(q.flips) == 1, "not exactly one node is flipped")
    v, to = next(iter(q.flips.items()))
    ctx.check(v in lab, "an unknown node is flipped")
    ctx.check(Or([eq(to, d) for d in p.parts]), "a node is flipped to a district that does not exist")
    ctx.cover("moved" if ch else "stays")
    if not (pattern is None or isinstance(pattern, int)):
        d = [k for k in set(pattern) if ctx.branch(eq(to, lab[nodes[list(pattern).index(k)]]))]
        if d:
            ctx.cover(f"node {nodes.index(v)} to {d[0]}")


def h_chunk(ctx, n=4, edges=None, kind="int", pattern=None, hist=()):
    """All neighbours of one boundary node that are in other districts join its district."""
    nodes, lab, p = begin(ctx, n, edges, kind, pattern, hist=hist)
    nb = nbrs(nodes, edges)
    if not ctx.branch(Or([ne(lab[u], lab[v]) for u in nodes for v in nb[u]])):
        ctx.prune()
    q = propose_chunk_flip(p)
    unchanged(ctx, p, lab)
    ctx.check(q.parent is p, "the proposal's parent is not the given partition")
    fit = []
    for x in nodes:
        claim = [Or([ne(lab[u], lab[x]) for u in nb[x]])]
        for v in nodes:
            claim.append(eq(q.assignment[v], lab[x] if v in nb[x] else lab[v]))
        fit.append(And(claim))
    ctx.check(Or(fit), "the proposal is not 'all neighbours of a boundary node join its district'")
    ctx.cover("moved")
    if not (pattern is None or isinstance(pattern, int)):
        for i, c in enumerate(fit):
            if ctx.is_possible(c):
                ctx.cover(f"around {i}")


def h_every(ctx, n=4, edges=None, kind="int", pattern=None, hist=()):
    """For every district with a boundary one boundary node (of either side) is moved across."""
    nodes, lab, p = begin(ctx, n, edges, kind, pattern, upd=True, hist=hist)
    nb = nbrs(nodes, edges)
    gs = groups(ctx, lab, nodes)
    # every district has a boundary unless there is only one
    es = [(nodes[i], nodes[j]) for i, j in edges]
    if len(gs) == 1:
        ctx.prune()
    q = propose_flip_every_district(p)
    ch = changes(ctx, p, q, lab)
    ctx.check(1 <= len(q.flips), "nothing was flipped")
    ctx.check(len(q.flips) <= len(gs), "more nodes are flipped than there are districts")
    for v, to in q.flips.items():
        ctx.check(Or([And(eq(to, lab[u]), ne(lab[u], lab[v])) for u in nb[v]]), "a flip does not follow a cut edge")
    for g in gs:
        # the node moved for a district is an end of one of its cut edges (a later district may send it elsewhere)
        took = Or([Or([v in q.flips for v in g]), Or([u in q.flips for v in g for u in nb[v]])])
        ctx.check(took, "a district takes no part")
    ctx.cover("moved")
    if not (pattern is None or isinstance(pattern, int)):
        to = {nodes.index(v): next(k for k in set(pattern) if ctx.branch(eq(d, lab[nodes[list(pattern).index(k)]]))) for v, d in q.flips.items()}
        ctx.cover(f"flips {sorted(to.items())}")


def every_outcomes(n, edges, pattern):
    """results of independent choices of the districts that do not contradict each other"""
    picks = []
    for d in sorted(set(pattern)):
        picks.append({(a, pattern[b]) for i, j in edges for a, b in ((i, j), (j, i)) if pattern[a] != pattern[b] and d in (pattern[a], pattern[b])})
    out = set()
    for c in itertools.product(*picks):
        if len({a for a, _ in c}) == len(set(c)):
            out.add(f"flips {sorted(set(c))}")
    return sorted(out)


ASSUMPTIONS = ["graphs are connected"]
PAW = [(0, 1), (1, 2), (2, 0), (2, 3)]
HOUSE = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]
DIAMOND = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
G23 = grid_edges(2, 3)
ALL4 = nonisomorphic(connected_graphs(4), 4)
KINDS = ["int", "str", "shuffled", "tuple", "offset"]


def moves(n, edges, pattern):
    return sorted({(a, pattern[b]) for i, j in edges for a, b in ((i, j), (j, i)) if pattern[a] != pattern[b]}, key=repr)


def h_dist(ctx, f="slow", n=4, edges=None, kind="int", pattern=None, past=()):
    """Probability of every proposal (concrete plan, arbitrary discrete draws)."""
    fresh()
    nodes = ids(n, kind)
    p = Partition(mkgraph(nodes, edges), {v: pattern[i] for i, v in enumerate(nodes)})
    for step in past:
        p = p.flip({nodes[i]: d for i, d in step.items()})
        p["cut_edges"]
    q = (propose_any_node_flip if f == "any" else F[f])(p)
    ctx.check(len(q.flips) == 1, "not exactly one node is flipped")
    v, to = next(iter(q.flips.items()))
    ctx.cover(f"=node {nodes.index(v)} to {to}")


def law(f, n, edges, pattern, past=()):
    out = {}
    districts = sorted(set(pattern), key=repr)  # also the emptied ones
    pattern = list(pattern)
    for step in past:
        for i, d in step.items():
            pattern[i] = d
    mv = moves(n, edges, pattern)
    cut = [(i, j) for i, j in edges if pattern[i] != pattern[j]]
    if f == "slow":
        out = {m: Fraction(1, len(mv)) for m in mv}
    elif f == "bi":
        b = {a for a, _ in mv}
        out = {(a, d): Fraction(1, len(b) * sum(1 for x, _ in mv if x == a)) for a, d in mv}
    elif f in ("random", "flip"):
        for i, j in cut:
            for a, b in ((i, j), (j, i)):
                k = (a, pattern[b])
                out[k] = out.get(k, 0) + Fraction(1, 2 * len(cut))
    elif f == "any":
        out = {(a, d): Fraction(1, n * len(districts)) for a in range(n) for d in districts}
    return {f"=node {a} to {d}": v for (a, d), v in out.items()}


CASES = []
for f in F:
    for i, es in enumerate(ALL4):
        CASES.append(Case(f"{f}-4-{i}", h_flip, dict(f=f, edges=es, kind=KINDS[i % 5], pattern=3 if f != "random" else None), ["moved", "no boundary"],
                          bounds=f"graph {es}, every plan of arbitrary labels, every draw"))
    for nm, n, es, pt in [("house", 5, HOUSE, (0, 0, 1, 1, 2)), ("g23", 6, G23, (0, 0, 1, 2, 0, 1)), ("p3", 3, path(3), (0, 1, 2))]:
        CASES.append(Case(f"{f}-reach-{nm}", h_flip, dict(f=f, n=n, edges=es, pattern=pt, kind="str"), ["moved"],
                          reach=[f"node {a} to {d}" for a, d in moves(n, es, pt)], bounds="every boundary flip must be possible; arbitrary distinct labels"))
        CASES.append(Case(f"{f}-law-{nm}", h_dist, dict(f=f, n=n, edges=es, pattern=pt, kind="tuple"), [], dist=law(f, n, es, pt),
                          bounds="exact probability of every proposal, concrete plan"))
    CASES.append(Case(f"{f}-law-star", h_dist, dict(f=f, n=5, edges=star(5), pattern=(0, 1, 1, 0, 2), kind="tuple"), [], dist=law(f, 5, star(5), (0, 1, 1, 0, 2)),
                      bounds="exact probability of every proposal, concrete plan"))
    for nm, n, es, pt in [("hub", 6, star(6), (0, 1, 2, 3, 4, 0)), ("g26", 12, grid_edges(2, 6), (0, 1, 0, 1, 2, 1, 0, 2, 0, 1, 2, 2)), ("wheel", 8, star(8) + [(i, i % 7 + 1) for i in range(1, 8)], (0, 1, 1, 2, 2, 3, 0, 4))]:
        CASES.append(Case(f"{f}-law-{nm}", h_dist, dict(f=f, n=n, edges=es, pattern=pt, kind="str"), [], dist=law(f, n, es, pt),
                          bounds=f"exact probability of every proposal, {n} nodes, concrete plan"))
    CASES.append(Case(f"{f}-house-2", h_flip, dict(f=f, n=5, edges=HOUSE, pattern=2), ["moved", "no boundary"], bounds="house, every plan with 2 labels"))
    CASES.append(Case(f"{f}-g23-2", h_flip, dict(f=f, n=6, edges=G23, pattern=2), ["moved", "no boundary"], thorough=True, bounds="2x3 grid, every plan with 2 labels"))
for i, es in enumerate(ALL4):
    CASES.append(Case(f"any-4-{i}", h_any, dict(n=4, edges=es, kind=KINDS[i % 5], pattern=3), ["moved", "stays"], bounds=f"graph {es}, every plan"))
    CASES.append(Case(f"chunk-4-{i}", h_chunk, dict(n=4, edges=es, kind=KINDS[i % 5], pattern=3), ["moved"], bounds=f"graph {es}, every plan"))
    CASES.append(Case(f"every-4-{i}", h_every, dict(n=4, edges=es, kind=KINDS[i % 5], pattern=3 if len(es) < 5 else 2), ["moved"], bounds=f"graph {es}, every plan"))
CASES += [
    Case("any-free", h_any, dict(n=3, edges=path(3)), ["moved", "stays"], bounds="path of 3, arbitrary labels"),
    Case("any-reach", h_any, dict(n=4, edges=path(4), pattern=(0, 0, 1, 2), kind="str"), ["moved", "stays"],
         reach=[f"node {i} to {d}" for i in range(4) for d in (0, 1, 2)], bounds="every node to every district must be possible"),
    Case("any-law", h_dist, dict(f="any", n=4, edges=path(4), pattern=(0, 0, 1, 2)), [], dist=law("any", 4, path(4), (0, 0, 1, 2)), bounds="exact probabilities"),
    Case("chunk-reach", h_chunk, dict(n=6, edges=G23, pattern=(0, 0, 1, 0, 1, 1), kind="tuple"), ["moved"], reach=[f"around {i}" for i in (1, 2, 3, 4)], bounds="2x3 grid; every boundary node can be chosen"),
    Case("chunk-house", h_chunk, dict(n=5, edges=HOUSE, pattern=2), ["moved"], bounds="house, every plan with 2 labels"),
    Case("every-free", h_every, dict(n=3, edges=path(3)), ["moved"], bounds="path of 3, arbitrary labels"),
    Case("every-p5", h_every, dict(n=5, edges=path(5), pattern=(0, 0, 1, 2, 2), kind="str"), ["moved"], reach=every_outcomes(5, path(5), (0, 0, 1, 2, 2)), bounds="path of 5, 3 districts; every combination of their flips must be possible"),
    Case("every-c4", h_every, dict(n=4, edges=cycle(4), pattern=(0, 0, 1, 1), kind="int"), ["moved"], reach=every_outcomes(4, cycle(4), (0, 0, 1, 1)), bounds="4-cycle, 2 districts; every combination of their flips must be possible"),
    Case("every-p6", h_every, dict(n=6, edges=path(6), pattern=(0, 0, 1, 2, 3, 3), kind="str"), ["moved"], reach=every_outcomes(6, path(6), (0, 0, 1, 2, 3, 3)), bounds="path of 6, 4 districts; every combination of their flips must be possible"),
    Case("every-p6-5", h_every, dict(n=6, edges=path(6), pattern=(0, 1, 2, 3, 4, 4), kind="int"), ["moved"], reach=every_outcomes(6, path(6), (0, 1, 2, 3, 4, 4)), bounds="path of 6, 5 districts; every combination of their flips must be possible"),
    Case("chunk-star", h_chunk, dict(n=7, edges=star(7), pattern=(0, 1, 2, 1, 3, 0, 4)), ["moved"], reach=[f"around {i}" for i in (0, 1, 2, 3, 4, 6)], bounds="star of 7, 5 districts"),
    Case("chunk-g33", h_chunk, dict(n=9, edges=grid_edges(3, 3), pattern=(0, 0, 1, 0, 2, 1, 3, 3, 1), kind="str"), ["moved"], reach=[f"around {i}" for i in (1, 2, 3, 4, 5, 6, 7, 8)], bounds="3x3 grid, 4 districts"),
    Case("any-law-9", h_dist, dict(f="any", n=9, edges=path(9), pattern=(0, 0, 1, 2, 2, 2, 3, 3, 3)), [], dist=law("any", 9, path(9), (0, 0, 1, 2, 2, 2, 3, 3, 3)), bounds="path of 9, 4 districts, exact probabilities"),
    Case("every-house", h_every, dict(n=5, edges=HOUSE, pattern=2), ["moved"], bounds="house, every plan with 2 labels", thorough=True),
]
for nm, h, kw in [("random", h_flip, dict(f="random")), ("slow", h_flip, dict(f="slow")), ("bi", h_flip, dict(f="bi")), ("any", h_any, {}), ("chunk", h_chunk, {}), ("every", h_every, {})]:
    CASES += [
        Case(f"{nm}-after-p3", h, dict(n=3, edges=path(3), hist=(0,), **kw), ["moved", "empty district"], bounds="path of 3, arbitrary labels, after an arbitrary flip of one node"),
        Case(f"{nm}-after-c4", h, dict(n=4, edges=cycle(4), pattern=(0, 0, 1, 1), hist=(1, 2), kind="str", **kw), ["moved"] + (["empty district"]), bounds="4-cycle, after an arbitrary flip of two nodes"),
    ]
for f in list(F) + ["any"]:
    for nm, n, es, pt, past in [("p5", 5, path(5), (0, 0, 1, 2, 2), [{2: 0}]), ("c5", 5, cycle(5), (0, 0, 1, 2, 3), [{2: 0, 3: 0}, {1: 3}]), ("g23", 6, G23, ("a", "a", "b", "c", "a", "b"), [{3: "a"}, {3: "b"}, {0: "b"}])]:
        CASES.append(Case(f"{f}-law-after-{nm}", h_dist, dict(f=f, n=n, edges=es, pattern=pt, kind="int", past=past), [], dist=law(f, n, es, pt, past),
                          bounds=f"exact probability of every proposal, concrete plan of {n} nodes reached by {len(past)} flips, a district emptied"))
BIG = [(0, 1)[(i // 10 + i % 10) % 2] for i in range(100)]
for f in list(F) + ["any"]:
    CASES.append(Case(f"{f}-law-large", h_dist, dict(f=f, n=100, edges=grid_edges(10, 10), pattern=BIG, kind="int"), [], dist=law(f, 100, grid_edges(10, 10), BIG), bounds="exact probability of every proposal, 10x10 grid, every node at the boundary"))
CASES += [
    Case("chunk-hub", h_chunk, dict(n=40, edges=star(40), pattern=(0,) + (1, 2, 3) * 13, kind="str"), ["moved"], bounds="star of 40, 4 districts"),
    Case("every-many", h_every, dict(n=24, edges=path(24), pattern=tuple(i // 12 for i in range(24)), kind="str"), ["moved"], bounds="path of 24, 2 districts"),
]
