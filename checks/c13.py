import warnings
from checks.lib import *
from gerrychain.tree import (bipartition_tree, bipartition_tree_random, find_balanced_edge_cuts_contraction,
                             find_balanced_edge_cuts_memoization, random_spanning_tree, uniform_spanning_tree,
                             BipartitionWarning, ReselectException)

BALANCE = {"memo": find_balanced_edge_cuts_memoization, "contract": find_balanced_edge_cuts_contraction}


def all_trees(n, edges):
    return [list(es) for es in itertools.combinations([tuple(e) for e in edges], n - 1) if is_connected(range(n), es)]


def sides(n, tree, e):
    a, b = components(range(n), [x for x in tree if x != e])
    return frozenset(a), frozenset(b)


class Balance:
    def __init__(self, pops, target, eps):
        self.pops, self.target, self.slack = pops, target, eps * target
        self.total = Sum(pops)

    def pop(self, side):
        return Sum([self.pops[i] for i in side])

    def within(self, side):
        return le(Abs(self.pop(side) - self.target), self.slack)

    def both(self, side, n):
        return And(self.within(side), self.within(frozenset(range(n)) - side))


def split_label(sub, n):
    other = frozenset(range(n)) - frozenset(sub)
    a, b = sorted([sorted(sub), sorted(other)])
    return f"split {a}|{b}"


def balanced_splits(n, edges, pops, target, eps):
    out = []
    for r in range(1, n):
        for s in itertools.combinations(range(n), r):
            o = [x for x in range(n) if x not in s]
            if 0 in s and is_connected(s, edges) and is_connected(o, edges) and all(
                    abs(sum(pops[i] for i in t) - target) <= eps * target for t in (s, o)):
                out.append(split_label(s, n))
    return out


def pop_values(ctx, pops, n):
    if pops is None:
        vals = [ctx.num(f"p{i}", 1) for i in range(n)]
    else:
        vals = [ctx.num(f"p{i}", 1) if x is None else x for i, x in enumerate(pops)]
    return vals


def h_split(ctx, fn="tree", n=4, edges=None, kind="int", tree="any", balance="memo", eps=0.5, target=None, pops=None,
            one_sided=False, max_attempts=2, node_repeats=1, reselect=False, frozen=False, warn=None, limit=None, once=False, streams=None):
    fresh()
    if streams:
        ctx.stream(streams)
    if limit:
        ctx.rnd_limit = limit
    nodes = ids(n, kind)
    vals = pop_values(ctx, pops, n)
    g = mkgraph(nodes, edges, {"TOTPOP": vals, "other": [f"o{i}" for i in range(n)]})
    if frozen:
        g = Partition(g, {v: 0 for v in nodes}).graph
    ix = {v: i for i, v in enumerate(nodes)}
    if target is None:
        target = Div(Sum(vals), 2)
    elif target == "sym":
        target = ctx.num("target", 1)
    bal = Balance(vals, target, eps)
    drawn, roots = [], []

    def any_tree(graph):
        ctx.check(set(graph.nodes) == set(nodes), "the tree is drawn from another graph")
        ts = all_trees(n, edges)
        t = ts[ctx.pick("tree", len(ts))]
        drawn.append(t)
        out = nx.Graph()
        out.add_nodes_from(nodes)
        out.add_edges_from((nodes[i], nodes[j]) for i, j in t)
        return out

    def choice(seq):
        seq = list(seq)
        r = seq[ctx.pick("choice", len(seq))]
        if r in ix:
            roots.append(r)
        return r

    kw = dict(pop_col="TOTPOP", pop_target=target, epsilon=eps, node_repeats=node_repeats, max_attempts=max_attempts)
    if tree == "any":
        kw["spanning_tree_fn"] = any_tree
    elif tree == "uniform":
        kw["spanning_tree_fn"] = uniform_spanning_tree
    if balance != "memo":
        kw["balance_edge_fn"] = BALANCE[balance]
    if one_sided:
        kw["one_sided_cut"] = True
    if reselect:
        kw["allow_pair_reselection"] = True
    if warn:
        kw["warn_attempts"] = warn
    if tree == "any":
        kw["choice"] = choice
    if once:
        kw["repeat_until_valid"] = False
    f = bipartition_tree if fn == "tree" else bipartition_tree_random
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        try:
            sub = f(g, **kw)
            failed = None
        except (RuntimeError, ReselectException) as e:
            sub, failed = None, e
    warned = sum(1 for w in ws if issubclass(w.category, BipartitionWarning))

    def cuttable(t):
        """some edge of tree t is a balanced cut"""
        out = []
        for e in t:
            a, b = sides(n, t, e)
            out.append(And(bal.within(a), bal.within(b)) if not one_sided else Or(bal.within(a), bal.within(b)))
        return Or(out)

    if not (one_sided and balance == "contract"):
        for t in drawn[:-1]:
            ctx.check(Not(cuttable(t)), "a tree with a balanced cut was thrown away")
        if drawn and (failed is not None or sub is None):
            ctx.check(Not(cuttable(drawn[-1])), "gave up although the last tree has a balanced cut")
    if roots:
        ctx.check(len(roots) <= max_attempts, "more attempts than max_attempts")
        if node_repeats == 1:
            ctx.check(len(drawn) == len(roots), "not one tree per attempt")
        else:
            ctx.check(len(drawn) == (len(roots) + node_repeats - 1) // node_repeats, "a new tree must be drawn after node_repeats roots and not before")
    if once and sub is None and failed is None:
        ctx.check(len(drawn) <= 1, "tried again although asked to try once")
        ctx.cover("none")
        return
    if failed is not None:
        ctx.check(not once, "raised although asked to return None")
        ctx.check(isinstance(failed, ReselectException) == reselect, "the wrong exception announces that no balanced cut was found")
        if roots:
            ctx.check(len(roots) == max_attempts, "gave up before max_attempts attempts")
        if warn and fn == "tree":
            ctx.check(warned == (1 if warn <= max_attempts and not reselect else 0), "warning after warn_attempts failed attempts")
        ctx.observe("result", "failed")
        ctx.cover("failed")
        return
    ctx.check(sub is not None, "nothing returned")
    ctx.check(set(sub) <= set(nodes), "the subset has foreign nodes")
    s = frozenset(ix[v] for v in sub)
    o = frozenset(range(n)) - s
    ctx.check(s and o, "one side is empty")
    ctx.check(is_connected(s, edges), "the subset is not connected")
    ctx.check(is_connected(o, edges), "the complement is not connected")
    ctx.check(bal.within(s), "the subset's population is not within epsilon of the target")
    if not one_sided:
        ctx.check(bal.within(o), "the complement's population is not within epsilon of the target")
    if drawn:
        ctx.check(any(s in sides(n, drawn[-1], e) for e in drawn[-1]), "the subset is not a side of an edge of the drawn tree")
    ctx.check(set(g.nodes) == set(nodes) and {frozenset(ix[x] for x in e) for e in g.edges} == {frozenset(e) for e in edges}, "the graph changed")
    for i, v in enumerate(nodes):
        ctx.check(g.nodes[v]["TOTPOP"] is vals[i] or g.nodes[v]["TOTPOP"] == vals[i], "the graph's populations changed")
        ctx.check(g.nodes[v]["other"] == f"o{i}", "the graph's data changed")
    ctx.cover("split")
    ctx.cover(split_label(s, n))
    ctx.observe("result", sorted(s))


def h_regions(ctx, n=4, tree=None, regions=None, surcharge=None, pops=None, eps=0.5, target=None, kind="int", fn="tree"):
    """Which of the balanced cuts of a given tree (with given edge weights) is taken."""
    fresh()
    nodes = ids(n, kind)
    vals = pop_values(ctx, pops, n)
    data = {"TOTPOP": vals}
    data.update(fresh_strings(regions))
    g = mkgraph(nodes, tree, data)
    ix = {v: i for i, v in enumerate(nodes)}
    target = Div(Sum(vals), 2) if target is None else target
    bal = Balance(vals, target, eps)
    t = nx.Graph()
    for i, v in enumerate(nodes):
        t.add_node(v, **dict(g.nodes[v]))
    w = {}
    for i, j in tree:
        w[(i, j)] = ctx.real(f"w{i}{j}", 0, 1)
        t.add_edge(nodes[i], nodes[j], random_weight=w[(i, j)])
    kw = {} if surcharge is None else {"region_surcharge": dict(surcharge)}
    try:
        sub = bipartition_tree(g, pop_col="TOTPOP", pop_target=target, epsilon=eps, spanning_tree=t, max_attempts=1, **kw)
    except RuntimeError:
        ctx.check(And([Not(bal.both(sides(n, tree, e)[0], n)) for e in tree]), "gave up although the tree has a balanced cut")
        ctx.cover("failed")
        return
    s = frozenset(ix[v] for v in sub)
    mine = [e for e in tree if s in sides(n, tree, e)]
    ctx.check(len(mine) == 1, "the subset is not a side of a tree edge")
    e0 = mine[0]
    ctx.check(bal.both(s, n), "the cut is not balanced")
    ctx.cover(f"cut {e0[0]}{e0[1]}")
    ctx.observe("cut", list(e0))
    if surcharge is None:
        return

    def crossed(e):
        return frozenset(k for k in surcharge if regions[k][e[0]] != regions[k][e[1]])

    def rank(c):
        return (len(c), sum(surcharge[k] for k in c))

    for e in tree:
        if e == e0:
            continue
        ok = bal.both(sides(n, tree, e)[0], n)
        c, c0 = crossed(e), crossed(e0)
        if 1 <= len(surcharge) <= 3:
            ctx.check(Implies(ok, rank(c) <= rank(c0)), "a balanced cut along more or dearer region borders was passed over")
        if c == c0 or not 1 <= len(surcharge) <= 3:
            ctx.check(Implies(ok, le(w[e], w[e0])), "a balanced cut with a higher weight along the same borders was passed over")
    ctx.cover("chosen")


def h_law(ctx, n=5, tree=None, pops=None, target=None, eps=0.5, kind="int", balance="memo"):
    """the cut is chosen uniformly among the balanced cuts of the tree"""
    fresh()
    nodes = ids(n, kind)
    ix = {v: i for i, v in enumerate(nodes)}
    t = mkgraph(nodes, tree, {"TOTPOP": pops})
    sub = bipartition_tree_random(t, "TOTPOP", target, eps, spanning_tree=t, balance_edge_fn=BALANCE[balance])
    ctx.check(And(Balance(pops, target, eps).both(frozenset(ix[v] for v in sub), n)), "unbalanced cut")
    ctx.cover("=" + split_label([ix[v] for v in sub], n))


def cut_law(n, tree, pops, target, eps):
    ok = []
    for e in tree:
        a, b = sides(n, tree, e)
        if all(abs(sum(pops[i] for i in s) - target) <= eps * target for s in (a, b)):
            ok.append("=" + split_label(a, n))
    return {k: Rat(1, len(ok)) for k in ok}


C4, P4, K4 = cycle(4), path(4), complete(4)
PAW = [(0, 1), (1, 2), (2, 0), (2, 3)]
HOUSE = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]
G23 = grid_edges(2, 3)
DIAMOND = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)]
KINDS = ["int", "str", "shuffled", "tuple", "offset"]
ASSUMPTIONS = ["positive populations and target", "at most max_attempts (1-3) attempts; with None attempts are unbounded and outside",
               "'any tree' cases: the caller's tree generator returns any spanning tree of the graph"]
CASES = []


def add(name, covers, h=h_split, thorough=False, reach=(), bounds="", dist=None, **kw):
    CASES.append(Case(name, h, kw, covers, thorough=thorough, reach=reach, dist=dist, bounds=bounds or f"{ {k: v for k, v in kw.items()} }, populations arbitrary unless given"))


for k, (nm, n, es) in enumerate([("c4", 4, C4), ("paw", 4, PAW), ("p4", 4, P4), ("star", 4, star(4)), ("p3", 3, path(3)), ("p2", 2, path(2)), ("c3", 3, cycle(3))]):
    for b in ("memo", "contract"):
        for f in ("tree", "random"):
            for one in (False, True):
                add(f"{f}-{nm}-{b}{'-one' if one else ''}", ["split", "failed"] if n > 2 or one else ["split"], fn=f, n=n, edges=es, kind=KINDS[k % 5], balance=b,
                    one_sided=one, target="sym" if one else None, eps=[0.25, 0.5, 0.125][k % 3], max_attempts=2 if len(es) < 4 and not one else 1)
for f in ("tree", "random"):
    add(f"{f}-repeats", ["split", "failed"], fn=f, n=4, edges=path(4), node_repeats=2, max_attempts=3, eps=0.25)
    add(f"{f}-repeats-c3", ["split", "failed"], fn=f, n=3, edges=cycle(3), node_repeats=2, max_attempts=3, eps=0.25)
    add(f"{f}-kruskal-c4", ["split", "failed"], fn=f, n=4, edges=C4, tree="kruskal", max_attempts=1, eps=0.25, kind="str")
    add(f"{f}-kruskal-unit", ["split"], fn=f, n=4, edges=C4, tree="kruskal", max_attempts=1, eps=0.25, pops=[1, 1, 1, 1],
        reach=balanced_splits(4, C4, [1] * 4, 2, .25))
    add(f"{f}-any-unit-house", ["split"], fn=f, n=5, edges=HOUSE, max_attempts=1, eps=0.25, pops=[1, 1, 1, 1, 2], kind="tuple",
        reach=balanced_splits(5, HOUSE, [1, 1, 1, 1, 2], 3, .25))
    add(f"{f}-any-g23", ["split"], fn=f, n=6, edges=G23, max_attempts=1, eps=0.5, pops=[1] * 6, kind="shuffled",
        reach=balanced_splits(6, G23, [1] * 6, 3, .5))
    add(f"{f}-uniform-c4", ["split", "failed"], fn=f, n=4, edges=C4, tree="uniform", max_attempts=1, eps=0.25, limit=8)
    add(f"{f}-frozen", ["split", "failed"], fn=f, n=4, edges=DIAMOND, frozen=True, max_attempts=1, eps=0.25)
    add(f"{f}-one-unit", ["split"], fn=f, n=5, edges=path(5), max_attempts=1, eps=0.25, pops=[1] * 5, target=2, one_sided=True)
    add(f"{f}-repeats-5", ["split", "failed"], fn=f, n=3, edges=path(3), node_repeats=2, max_attempts=5, eps=0.25, kind="str")
    add(f"{f}-attempts-4", ["split", "failed"], fn=f, n=3, edges=path(3), max_attempts=4, eps=0.25, kind="tuple")
    add(f"{f}-repeats-3", ["split", "failed"], fn=f, n=4, edges=star(4), node_repeats=3, max_attempts=7, eps=0.25)
    add(f"{f}-repeats-many", ["split", "failed"], fn=f, n=3, edges=path(3), node_repeats=10, max_attempts=4, eps=0.25)
add("tree-reselect-1", ["split", "failed"], n=3, edges=path(3), max_attempts=1, reselect=True, eps=0.25)
add("tree-reselect-4", ["split", "failed"], n=3, edges=path(3), max_attempts=4, reselect=True, node_repeats=2, eps=0.25)
add("tree-warn-4", ["split", "failed"], n=3, edges=path(3), max_attempts=5, warn=3, eps=0.25)
add("random-once-2", ["split", "none"], fn="random", n=4, edges=P4, once=True, eps=0.25, node_repeats=2, max_attempts=3)
add("random-once-5", ["split", "none"], fn="random", n=3, edges=path(3), once=True, eps=0.25, node_repeats=5, max_attempts=1)
add("tree-reselect", ["split", "failed"], n=3, edges=path(3), max_attempts=2, reselect=True, warn=1, eps=0.25)
add("tree-warn", ["split", "failed"], n=3, edges=path(3), max_attempts=2, warn=2, eps=0.25)
add("random-once", ["split", "none"], fn="random", n=4, edges=C4, once=True, eps=0.25)
add("tree-house", ["split", "failed"], n=5, edges=HOUSE, max_attempts=1, eps=0.125, kind="offset", thorough=True)
add("random-house", ["split", "failed"], fn="random", n=5, edges=HOUSE, max_attempts=1, eps=0.125, thorough=True)
add("tree-k4-2", ["split", "failed"], n=4, edges=K4, max_attempts=2, eps=0.125, thorough=True)
add("tree-c4-3", ["split", "failed"], n=4, edges=C4, max_attempts=3, eps=0.25, node_repeats=2, thorough=True)
add("tree-kruskal-diamond", ["split", "failed"], n=4, edges=DIAMOND, tree="kruskal", max_attempts=1, eps=0.25, thorough=True)
for nm, n, t, pp, tg, e in (("p6", 6, path(6), [1] * 6, 3, 0.75), ("star6", 6, star(6), [1] * 6, 3, 0.75), ("mixed", 7, [(0, 1), (1, 2), (1, 3), (3, 4), (3, 5), (5, 6)], [3, 1, 2, 1, 2, 1, 2], 6, 0.5)):
    for b in ("memo", "contract"):
        add(f"law-{nm}-{b}", [], h=h_law, n=n, tree=t, pops=pp, target=tg, eps=e, balance=b, kind="str" if b == "memo" else "int", dist=cut_law(n, t, pp, tg, e),
            bounds=f"tree {t}, populations {pp}, target {tg}, tolerance {e}: every balanced cut is equally likely")
T5 = [(0, 1), (1, 2), (2, 3), (3, 4)]
R = dict(h=h_regions, n=4, tree=P4)
add("region-one", ["chosen", "cut 01", "cut 12", "cut 23", "failed"], regions={"c": ["a", "a", "b", "b"]}, surcharge={"c": 1}, eps=0.75, **R)
add("region-one-str", ["chosen"], h=h_regions, n=5, tree=[(0, 1), (0, 2), (0, 3), (3, 4)], regions={"c": ["a", "b", "a", "a", None]}, surcharge={"c": 0.5}, eps=1, kind="str",
    pops=[1, 1, None, 1, None], target=3)
add("region-two", ["chosen", "cut 01", "cut 12", "cut 23"], regions={"c": ["a", "a", "b", "b"], "m": ["x", "y", "y", "z"]}, surcharge={"c": 1, "m": 3}, eps=0.75, **R)
add("region-two-nested", ["chosen", "cut 01", "cut 12", "cut 23"], regions={"c": ["a", "a", "b", "b"], "m": ["x", "y", "z", "z"]}, surcharge={"c": 2, "m": 0.5}, eps=0.75, kind="tuple", **R)
add("region-three", ["chosen"], regions={"c": "aabb", "m": "xyyz", "s": "uuvw"}, surcharge={"c": 1, "m": 2.5, "s": 1}, eps=0.75, **R)
T6 = [(0, 1), (1, 2), (2, 3), (3, 4), (4, 5)]
for k, sc in enumerate([{"c": 3, "m": 1, "s": 2.5}, {"c": 1, "m": 2, "s": 2.5}, {"c": 0.5, "m": 0.25, "s": 0.125}]):
    add(f"region-three-pairs-{k}", ["chosen"], h=h_regions, n=6, tree=T6, regions={"c": "aabbcc", "m": "xyyzzz", "s": "uuvwww"}, surcharge=sc, eps=1, pops=[1, None, 2, 1, None, 1], target=6, kind=KINDS[k])
    add(f"region-three-mixed-{k}", ["chosen"], h=h_regions, n=6, tree=T6, regions={"c": "abbbcc", "m": "xyyzzz", "s": "uuvwwx"}, surcharge=sc, eps=1, pops=[1, None, 2, 1, None, 1], target=6, kind=KINDS[k + 1])
add("region-four", ["chosen"], regions={"c": "aabb", "m": "xyyz", "s": "uuvw", "t": "kkkl"}, surcharge={"c": 1, "m": 2, "s": 3, "t": 1}, eps=0.75, **R)
add("region-none", ["chosen"], regions={}, surcharge={}, eps=0.75, **R)
add("no-surcharge", ["cut 01", "cut 12", "cut 23"], regions={}, eps=0.75, reach=["cut 01", "cut 12", "cut 23"], **R)
for f in ("tree", "random"):
    for b in ("memo", "contract"):
        add(f"{f}-large-{b}", ["split"], fn=f, n=600, edges=grid_edges(20, 30), pops=[1] * 600, target=300, eps=0.25, tree="kruskal", balance=b, max_attempts=1000, kind="shuffled", streams=2, bounds="20x30 grid, unit populations, two fixed streams of draws")
        add(f"{f}-deep-{b}", ["split"], fn=f, n=2048, edges=path(2048), pops=[1] * 2048, target=1024, eps=0.0078125, tree="kruskal", balance=b, max_attempts=10, kind="int", streams=2, bounds="path of 2048, unit populations, two fixed streams of draws")
add("tree-large-uniform", ["split"], n=600, edges=grid_edges(20, 30), pops=[1] * 600, target=300, eps=0.25, tree="uniform", max_attempts=1000, kind="tuple", streams=2, bounds="20x30 grid, unit populations, uniform trees, two fixed streams of draws")
add("tree-many-attempts", ["failed"], n=5, edges=star(5), pops=[1, 1, 1, 1, 5], target=4.5, eps=0.0625, tree="kruskal", max_attempts=3000, warn=2000, streams=1, bounds="a star of 5 without balanced cut, 3000 attempts")
