from checks.lib import *
from gerrychain.constraints import contiguous, contiguous_bfs, single_flip_contiguous, no_more_discontiguous, SelfConfiguringLowerBound
from gerrychain.constraints.contiguity import number_of_contiguous_parts, contiguous_components, affected_parts


def first(ctx, n, edges, kind, pattern):
    fresh()
    nodes = ids(n, kind)
    if isinstance(pattern, int):
        lab = {v: ctx.label(f"a{i}", 0, pattern - 1) for i, v in enumerate(nodes)}
    else:
        lab = labels(ctx, nodes, pattern)
    p = Partition(mkgraph(nodes, edges), dict(lab))
    return nodes, lab, p


def counts(ctx, lab, nodes, edges):
    es = [(nodes[i], nodes[j]) for i, j in edges]
    gs = groups(ctx, lab, nodes)
    return sum(1 for g in gs if is_connected(g, es)), gs, es


def pieces(ctx, p, lab, gs, es):
    comps = contiguous_components(p)
    ctx.check(len(comps) == len(gs), "contiguous_components misses a district")
    for g in gs:
        mine = comps[lab[g[0]]]
        got = sorted(sorted(map(repr, c.nodes)) for c in mine)
        exp = sorted(sorted(map(repr, c)) for c in components(g, es))
        ctx.check(got == exp, "contiguous_components are not the connected pieces of the district")
        for c in mine:
            e1 = {frozenset(e) for e in c.edges}
            e2 = {frozenset(e) for e in es if e[0] in c.nodes and e[1] in c.nodes}
            ctx.check(e1 == e2, "a contiguous component lost edges")


def h_first(ctx, n=4, edges=None, kind="int", pattern=None):
    """A partition without history: every check agrees with connectedness of all districts."""
    nodes, lab, p = first(ctx, n, edges, kind, pattern)
    good, gs, es = counts(ctx, lab, nodes, edges)
    want = good == len(gs)
    for f in (contiguous, contiguous_bfs, single_flip_contiguous):
        ctx.check(bool(f(p)) == want, f"{f.__name__} of a first partition is not 'every district is connected'")
    ctx.check(number_of_contiguous_parts(p) == good, "number_of_contiguous_parts is not the number of connected districts")
    pieces(ctx, p, lab, gs, es)
    ctx.observe("connected", want)
    ctx.cover("connected" if want else "disconnected")


def h_move(ctx, n=4, edges=None, kind="int", pattern=None, k=1, adjacent=False, movers=None):
    """A child of a contiguous partition."""
    nodes, lab, p = first(ctx, n, edges, kind, pattern)
    if not all_connected(ctx, lab, nodes, edges):
        ctx.prune()
    exist = list(p.parts)
    f = arbitrary_flips(ctx, nodes if movers is None else [nodes[i] for i in movers], exist, k)
    l2 = apply_flips(lab, f)
    nb = {v: [nodes[b if nodes[a] == v else a] for a, b in edges if v in (nodes[a], nodes[b])] for v in nodes}
    if adjacent:
        # a single-flip proposal moves a node to the district of one of its neighbours
        v = next(iter(f))
        if ctx.branch(eq(f[v], lab[v])) or not any(ctx.branch(eq(lab[u], f[v])) for u in nb[v]):
            ctx.prune()
    q = p.flip(f)
    good, gs, es = counts(ctx, l2, nodes, edges)
    if len(gs) < len(exist):
        # a district vanished; the breadth-first check must give an answer all the same
        ans = contiguous_bfs(q)
        ctx.check(ans is True or ans is False, "contiguous_bfs gives no answer for a plan with an empty district")
        ctx.check(good == len(gs) or ans is False, "contiguous_bfs accepts a disconnected plan with an empty district")
        if adjacent:
            ctx.check(bool(single_flip_contiguous(q)) is False, "single_flip_contiguous accepts the loss of a district")
            ctx.cover("vanished")
        return
    want = good == len(gs)
    fs = [contiguous, contiguous_bfs]
    if adjacent:
        fs.append(single_flip_contiguous)
    for c in fs:
        ctx.check(bool(c(q)) == want, f"{c.__name__} of a child is not 'every district is connected'")
    ctx.check(number_of_contiguous_parts(q) == good, "number_of_contiguous_parts of a child is wrong")
    pieces(ctx, q, l2, gs, es)
    ctx.observe("connected", want)
    ctx.cover("connected" if want else "disconnected")


def h_history(ctx, n=4, edges=None, steps=2, pattern=None):
    """Along a history in which every state passed, every check keeps agreeing; a lower bound on
    the number of connected districts remembers the first state."""
    nodes, lab, p = first(ctx, n, edges, "int", pattern)
    low = SelfConfiguringLowerBound(number_of_contiguous_parts)
    exist = list(p.parts)
    start, gs, _ = counts(ctx, lab, nodes, edges)
    ctx.check(bool(low(p)) is True, "the first state satisfies its own bound")
    ok = start == len(gs)
    for s in range(steps):
        f = arbitrary_flips(ctx, nodes, exist, 1, f"s{s}")
        q = p.flip(f)
        l2 = apply_flips(lab, f)
        good, gs2, _ = counts(ctx, l2, nodes, edges)
        if len(gs2) < len(exist):
            ctx.prune()
        ctx.check(bool(low(q)) == (good >= start), "no_more_discontiguous: not 'at least as many connected districts as at the start'")
        if ok:
            r = bool(contiguous(q))
            ctx.check(r == (good == len(gs2)), "contiguous along a history")
            ctx.check(bool(contiguous_bfs(q)) == r, "contiguous_bfs along a history")
            ok = r
        p, lab = q, l2
    ctx.cover("ran")


def h_dropped(ctx, n=4, edges=None, kind="int", pattern=None, k=1, grand=False):
    """A plan whose parent is gone (a chain drops it when it moves on); the earlier plans need not be contiguous."""
    nodes, lab, p = first(ctx, n, edges, kind, pattern)
    exist = list(p.parts)
    f = arbitrary_flips(ctx, nodes, exist, k)
    q = p.flip(f)
    lab = apply_flips(lab, f)
    if grand:
        f = arbitrary_flips(ctx, nodes, exist, 1, "g")
        q.parent = None
        q = q.flip(f)
        lab = apply_flips(lab, f)
    if ctx.flag("subgraphs read before"):
        list(q.subgraphs)
    q.parent = None
    good, gs, es = counts(ctx, lab, nodes, edges)
    if len(gs) < len(exist):
        ctx.prune()
    want = good == len(gs)
    for c in (contiguous, contiguous_bfs, single_flip_contiguous):
        ctx.check(bool(c(q)) == want, f"{c.__name__} of a plan without its parent is not 'every district is connected'")
    ctx.check(number_of_contiguous_parts(q) == good, "number_of_contiguous_parts of a plan without its parent is wrong")
    pieces(ctx, q, lab, gs, es)
    ctx.cover("connected" if want else "disconnected")


ALL4 = nonisomorphic(connected_graphs(4), 4)
ALL5 = nonisomorphic(connected_graphs(5), 5)
KINDS = ["int", "str", "offset", "shuffled", "tuple"]
ASSUMPTIONS = ["incremental checks are asked about first plans, plans without their parent, or children of a partition that was itself contiguous (as in a chain that started contiguous)",
               "a flip does not empty a district (the library raises on empty districts), except for single_flip_contiguous, which must refuse",
               "single_flip_contiguous is asked about flips of one node into the district of a neighbour"]
CASES = [
    Case(f"first4-{i}", h_first, dict(edges=es, kind=KINDS[i % 5]), ["connected"], bounds=f"connected graph {es}, arbitrary districts")
    for i, es in enumerate(ALL4)
] + [
    Case(f"move4-{i}", h_move, dict(edges=es, kind=KINDS[i % 5]), ["connected"], bounds=f"connected graph {es}, arbitrary contiguous districts, one arbitrary node moved to an arbitrary district")
    for i, es in enumerate(ALL4)
] + [
    Case(f"flip4-{i}", h_move, dict(edges=es, kind=KINDS[(i + 2) % 5], adjacent=True), ["connected", "vanished"], bounds=f"connected graph {es}, arbitrary contiguous districts, one node moved across a cut edge, arbitrary random choice")
    for i, es in enumerate(ALL4)
] + [
    Case("first-loose", h_first, dict(n=5, edges=[(0, 1), (1, 2), (3, 4)], kind="shuffled"), ["connected", "disconnected"], bounds="disconnected graph on 5 nodes, arbitrary districts"),
    Case("first-island", h_first, dict(n=4, edges=[(0, 1), (1, 2)], kind="int"), ["connected", "disconnected"], bounds="an isolated node, arbitrary districts"),
    Case("first-loop", h_first, dict(n=4, edges=[(0, 1), (1, 2), (2, 3), (1, 1)], kind="int"), ["connected", "disconnected"], bounds="a self-loop, arbitrary districts"),
    Case("flip-g23", h_move, dict(n=6, edges=grid_edges(2, 3), adjacent=True, pattern=[0, 0, 0, 1, 1, 0]), ["connected", "disconnected"], bounds="2x3 grid, 2 districts, one node moved across a cut edge"),
    Case("flip-g33", h_move, dict(n=9, edges=grid_edges(3, 3), adjacent=True, pattern=[0, 0, 0, 0, 1, 1, 0, 0, 1], kind="shuffled"), ["connected", "disconnected"], bounds="3x3 grid, 2 districts (one of them winding), one node moved across a cut edge"),
    Case("flip-ring", h_move, dict(n=8, edges=cycle(8), adjacent=True, pattern=[0, 0, 0, 1, 1, 2, 2, 2], kind="str"), ["connected", ], bounds="8-cycle, 3 districts"),
    Case("flip-wheel", h_move, dict(n=6, edges=star(6) + [(1, 2), (3, 4), (4, 5)], adjacent=True, pattern=[0, 0, 0, 0, 0, 1]), ["connected", "disconnected"], bounds="fan graph, 2 districts; the hub may leave"),
    Case("two-p5", h_move, dict(n=5, edges=path(5), k=2, pattern=[0, 0, 1, 1, 2], kind="tuple"), ["connected", "disconnected"], bounds="path of 5, 3 districts, 2 nodes moved together"),
    Case("flip-long-ring", h_move, dict(n=9, edges=cycle(8) + [(0, 8)], adjacent=True, pattern=[0] * 8 + [1], kind="shuffled"), ["connected", "vanished"], bounds="ring of 8 in one district and a pendant node in another, one node moved across the cut edge"),
    Case("flip-longer-ring", h_move, dict(n=81, edges=cycle(80) + [(0, 80)], adjacent=True, pattern=[0] * 80 + [1], kind="int", movers=[0, 80]), ["connected", "vanished"], bounds="ring of 80 in one district and a pendant node in another, one node moved across the cut edge"),
    Case("flip-long-ring2", h_move, dict(n=12, edges=cycle(10) + [(0, 10), (5, 11), (10, 11)], adjacent=True, pattern=[0] * 10 + [1, 1], kind="int"), ["connected"], bounds="ring of 10 in one district, 2 nodes in another touching opposite sides, one node moved across a cut edge"),
    Case("many-parts", h_move, dict(n=14, edges=grid_edges(2, 7), pattern=[0, 1, 2, 3, 4, 5, 6] * 2, k=3, movers=[0, 2, 4], kind="str"), ["connected", "disconnected"], bounds="2x7 grid, 7 districts, 3 nodes moved together to arbitrary districts"),
    Case("many-parts-2", h_move, dict(n=12, edges=grid_edges(2, 6), pattern=[0, 1, 2, 3, 4, 5] * 2, k=3, movers=[11, 9, 6], kind="int"), ["connected", "disconnected"], bounds="2x6 grid, 6 districts, 3 nodes moved together to arbitrary districts"),
    Case("dropped-p4", h_dropped, dict(edges=path(4)), ["connected", "disconnected"], bounds="path of 4, arbitrary districts, one arbitrary move, parent dropped"),
    Case("dropped-c5-2", h_dropped, dict(n=5, edges=cycle(5), pattern=[0, 1, 0, 1, 0], k=2, kind="str"), ["connected", "disconnected"], bounds="cycle of 5, 2 disconnected districts, two nodes moved, parent dropped"),
    Case("dropped-g23", h_dropped, dict(n=6, edges=grid_edges(2, 3), pattern=[0, 1, 0, 2, 2, 2], kind="tuple"), ["connected", "disconnected"], bounds="2x3 grid, 3 districts, one node moved, parent dropped"),
    Case("dropped-grand", h_dropped, dict(n=5, edges=path(5), pattern=[0, 1, 1, 0, 0], grand=True, kind="shuffled"), ["connected", "disconnected"], bounds="path of 5, 2 moves, both parents dropped"),
    Case("hist-c4", h_history, dict(edges=cycle(4), pattern=[0, 0, 1, 1]), ["ran"], bounds="4-cycle, 2 districts, 2 arbitrary moves"),
    Case("hist-p5", h_history, dict(n=5, edges=path(5), pattern=[0, 1, 0, 1, 1]), ["ran"], bounds="path of 5, 2 districts that start disconnected, 2 arbitrary moves"),
    Case("hist-c5-3", h_history, dict(n=5, edges=cycle(5), pattern=[0, 0, 1, 1, 1], steps=3), ["ran"], thorough=True, bounds="5-cycle, 2 districts, 3 arbitrary moves"),
] + [
    Case(f"first5-{i}", h_first, dict(n=5, edges=es, kind=KINDS[i % 5]), ["connected"], bounds=f"connected graph {es}, arbitrary districts")
    for i, es in enumerate(ALL5)
] + [
    Case(f"flip5-{i}", h_move, dict(n=5, edges=es, kind=KINDS[i % 5], adjacent=True), ["connected"], bounds=f"connected graph {es}, arbitrary contiguous districts, one node moved across a cut edge")
    for i, es in enumerate(ALL5)
] + [
    Case("first-g33", h_first, dict(n=9, edges=grid_edges(3, 3), kind="shuffled", pattern=2), ["connected", "disconnected"], bounds="3x3 grid, all assignments to 2 districts"),
    Case("flip-g23-any", h_move, dict(n=6, edges=grid_edges(2, 3), adjacent=True, pattern=2, kind="str"), ["connected", "disconnected"], bounds="2x3 grid, all assignments to 2 districts, one node moved across a cut edge"),
    Case("move-g23-any", h_move, dict(n=6, edges=grid_edges(2, 3), pattern=3, kind="tuple"), ["connected", "disconnected"], thorough=True, bounds="2x3 grid, all assignments to 3 districts, one node moved"),
    Case("flip-g33-any", h_move, dict(n=9, edges=grid_edges(3, 3), adjacent=True, pattern=2, kind="int"), ["connected", "disconnected"], thorough=True, bounds="3x3 grid, all assignments to 2 districts, one node moved across a cut edge"),
    Case("first-g34", h_first, dict(n=12, edges=grid_edges(3, 4), kind="shuffled", pattern=2), ["connected", "disconnected"], thorough=True, bounds="3x4 grid, all assignments to 2 districts"),
    Case("first-deep", h_first, dict(n=1500, edges=path(1500), pattern=[0] * 700 + [1] * 800, kind="shuffled"), ["connected"], bounds="path of 1500, 2 districts"),
    Case("first-deep-broken", h_first, dict(n=1500, edges=path(1500), pattern=[0] * 700 + [1] * 799 + [0], kind="int"), ["disconnected"], bounds="path of 1500, 2 districts, the last node with the first district"),
    Case("first-deeper", h_first, dict(n=2400, edges=path(2400), pattern=[0] * 2200 + [1] * 200, kind="int"), ["connected"], bounds="path of 2400, 2 districts, one of them of 2200"),
    Case("first-large-broken", h_first, dict(n=1600, edges=grid_edges(40, 40), pattern=[2] + [i // 40 // 30 for i in range(1, 1599)] + [0], kind="int"), ["disconnected"], bounds="40x40 grid, 3 districts, the largest in two pieces"),
    Case("move-bulk", h_move, dict(n=100, edges=grid_edges(10, 10), pattern=[str(i // 20) for i in range(100)], kind="shuffled", k=("rows", 30)), ["connected", "disconnected"], bounds="10x10 grid, 5 districts, a run of 30 nodes moved together, each to the district of some strip"),
    Case("move-deep", h_move, dict(n=1500, edges=path(1500), pattern=[0] * 700 + [1] * 800, kind="int", movers=[0, 300, 699, 700, 1499]), ["connected", "disconnected"], bounds="path of 1500, 2 districts, one of five nodes moved"),
    Case("move-large", h_move, dict(n=900, edges=grid_edges(30, 30), pattern=[i // 450 for i in range(900)], kind="shuffled", k=2, movers=[0, 29, 420, 449, 450, 899]), ["connected", "disconnected"], bounds="30x30 grid, 2 districts, two of six nodes moved"),
]
