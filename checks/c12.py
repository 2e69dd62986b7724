from checks.lib import *
from gerrychain.tree import PopulatedGraph, find_balanced_edge_cuts_contraction, find_balanced_edge_cuts_memoization

FINDERS = {"memo": find_balanced_edge_cuts_memoization, "contract": find_balanced_edge_cuts_contraction}


def sides(n, edges, k):
    rest = [e for i, e in enumerate(edges) if i != k]
    a, b = components(range(n), rest)
    return frozenset(a), frozenset(b)


def setup(ctx, n, edges, kind, eps, ideal, integral, weighted, known=None):
    fresh()
    nodes = ids(n, kind)
    t = nx.Graph()
    t.add_nodes_from(nodes)
    weights = {}
    for k, (i, j) in enumerate(edges):
        t.add_edge(nodes[i], nodes[j])
        if weighted:
            weights[k] = ctx.real(f"w{k}", 0, 1)
            t.edges[nodes[i], nodes[j]]["random_weight"] = weights[k]
    pops = [(ctx.num if integral else ctx.real)(f"p{i}", 0) if known is None or known[i] is None else known[i] for i in range(n)]
    if ideal is None:
        ideal = ctx.num("ideal", 1)
        ctx.assume(gt(ideal, 0))
    if eps is None:
        eps = ctx.real("eps", 0)
    given = {v: pops[i] for i, v in enumerate(nodes)}
    return nodes, t, weights, pops, given, ideal, eps


def h_find(ctx, n=4, edges=None, kind="int", how="memo", one_sided=False, eps=None, ideal=None, integral=True, weighted=False, known=None):
    nodes, t, weights, pops, given, ideal, eps = setup(ctx, n, edges, kind, eps, ideal, integral, weighted, known)
    kept = dict(given)
    h = PopulatedGraph(t, given, ideal, eps)
    roots = []

    def choice(seq):
        seq = list(seq)
        r = seq[ctx.pick("root", len(seq))]
        roots.append(r)
        return r

    kw = {"one_sided_cut": True} if one_sided else {}
    cuts = FINDERS[how](h, choice=choice, **kw)
    ix = {v: i for i, v in enumerate(nodes)}
    es = [frozenset(e) for e in edges]
    found = {}
    total = Sum(pops)
    slack = eps * ideal

    def pop(side):
        return Sum([pops[i] for i in side])

    def within(x):
        return le(Abs(x - ideal), slack)

    for c in cuts:
        e = frozenset(ix[x] for x in c.edge)
        ctx.check(len(c.edge) == 2 and e in es, "a cut's edge is not an edge of the tree")
        k = es.index(e)
        ctx.check(k not in found, "the same tree edge is reported as a cut twice")
        sub = frozenset(ix[x] for x in c.subset)
        ctx.check(sub in sides(n, edges, k), "a cut's subset is not one side of the tree without that edge")
        found[k] = (c, sub)
        ctx.check(within(pop(sub)), "a cut's subset is not within epsilon of the ideal population")
        if weighted:
            ctx.check(eq(c.weight, weights[k]), "a cut does not carry its tree edge's weight")
    for k in range(len(edges)):
        a, b = sides(n, edges, k)
        if not one_sided:
            ctx.check(Iff(k in found, And(within(pop(a)), within(pop(b)))), "an edge is a cut iff both sides are within epsilon")
        elif how == "memo":
            ctx.check(Iff(k in found, Or(within(pop(a)), within(pop(b)))), "an edge is a one-sided cut iff either side is within epsilon")
        else:
            strict = lambda s: lt(Abs(pop(s) - ideal), slack)
            ctx.check(Implies(And(strict(a), strict(b)), k in found), "an edge whose sides are both within epsilon is not a one-sided cut")
            if len(roots) == 1 and roots[0] in ix:
                far = b if ix[roots[0]] in a else a
                ctx.check(Implies(strict(far), k in found), "an edge that cuts off a balanced district is not a one-sided cut")
    ctx.check(set(given) == set(kept) and all(given[v] is kept[v] for v in kept), "the given populations changed")
    ctx.check({frozenset(ix[x] for x in e) for e in t.edges} == set(es) and set(t.nodes) == set(nodes), "the tree changed")
    ctx.observe("cuts", sorted(sorted(s) for _, s in found.values()))
    ctx.cover("cuts" if cuts else "none")
    if len(cuts) > 1:
        ctx.cover("several")


def h_ideal(ctx, n=2, eps=0.25):
    """The balance test itself, for arbitrary populations."""
    nodes, t, _, pops, given, ideal, eps = setup(ctx, n, path(n), "int", eps, None, False, False)
    h = PopulatedGraph(t, given, ideal, eps)
    tot = Sum(pops)
    ctx.check(eq(h.tot_pop, tot), "the total population is not the sum of the populations")
    for i, v in enumerate(nodes):
        two = bool(h.has_ideal_population(v))
        want = And(le(Abs(pops[i] - ideal), eps * ideal), le(Abs(tot - pops[i] - ideal), eps * ideal))
        ctx.check(Iff(two, want), "the two-sided balance test is not 'both sides within epsilon'")
        one = bool(h.has_ideal_population(v, one_sided_cut=True))
        d = Abs(pops[i] - ideal)
        ctx.check(Implies(one, le(d, eps * ideal)), "the one-sided balance test passes outside epsilon")
        ctx.check(Implies(lt(d, eps * ideal), one), "the one-sided balance test fails inside epsilon")
        ctx.cover(f"{two}-{one}")


def h_deep(ctx, shape="path", n=2048, how="memo", one_sided=False, ideal=1024, width=3, kind="int"):
    """Large trees, deeper than the interpreter's call stack; unit populations but for one node."""
    fresh()
    nodes = ids(n, kind)
    if shape == "path":
        edges = path(n)
    else:  # a comb: a long spine, a tooth on every node of it
        edges = path(n // 2) + [(i, i + n // 2) for i in range(n // 2)]
    extra = ctx.num("extra", 0)
    ctx.assume(le(extra, 3))
    t = nx.Graph()
    t.add_nodes_from(nodes)
    t.add_edges_from((nodes[i], nodes[j]) for i, j in edges)
    given = {v: 1 for v in nodes}
    given[nodes[0]] = 1 + extra
    slack = width
    h = PopulatedGraph(t, given, ideal, width / ideal)

    def choice(seq):
        seq = list(seq)
        return seq[ctx.choose("root", [0, len(seq) // 2, len(seq) - 1])]

    cuts = FINDERS[how](h, choice=choice, **({"one_sided_cut": True} if one_sided else {}))
    ix = {v: i for i, v in enumerate(nodes)}
    half = n if shape == "path" else n // 2
    per = 1 if shape == "path" else 2
    found = set()
    for c in cuts:
        a, b = sorted(ix[x] for x in c.edge)
        ctx.check((a, b) in set(edges) if len(found) == 0 else b == a + 1 or b == a + half, "a cut's edge is not an edge of the tree")
        ctx.check((a, b) not in found, "the same tree edge is reported as a cut twice")
        found.add((a, b))
        if b == a + 1:
            low = set(range(b)) | (set(range(half, half + b)) if per == 2 else set())
            sub = {ix[x] for x in c.subset}
            ctx.check(sub == low or sub == set(range(n)) - low, "a cut's subset is not one side of the tree without that edge")
    for k in range(half - 1):
        a = (k + 1) * per + extra
        b = n - (k + 1) * per
        if abs(b - ideal) > 3 * width + 9:
            ctx.check((k, k + 1) not in found, "an edge with unbalanced sides is a cut")
            continue
        wa, wb = le(Abs(a - ideal), slack), le(Abs(b - ideal), slack)
        sa, sb = lt(Abs(a - ideal), slack), lt(Abs(b - ideal), slack)
        if not one_sided:
            ctx.check(Iff((k, k + 1) in found, And(wa, wb)), "an edge is a cut iff both sides are within epsilon")
        elif how == "memo":
            ctx.check(Iff((k, k + 1) in found, Or(wa, wb)), "an edge is a one-sided cut iff either side is within epsilon")
        else:
            ctx.check(Implies(And(sa, sb), (k, k + 1) in found), "an edge whose sides are both within epsilon is not a one-sided cut")
    ctx.cover("cuts" if cuts else "none")


def trees(n):
    return nonisomorphic([es for es in itertools.combinations(complete(n), n - 1) if is_connected(range(n), es)], n)


KINDS = ["int", "str", "shuffled", "tuple", "offset"]
ASSUMPTIONS = ["non-negative populations, positive ideal population, non-negative epsilon", "trees with at least 2 nodes"]
CASES = [Case("ideal", h_ideal, dict(n=3), ["True-True", "False-True", "False-False"], bounds="3 nodes, arbitrary real populations and ideal, epsilon 1/4")]
_k = 0
for n in (2, 3, 4, 5, 6):
    for i, es in enumerate(trees(n)):
        for how in FINDERS:
            for one in (False, True):
                _k += 1
                eps, ideal = [(0.25, None), (None, 8), (0.5, None), (0.0625, None), (None, 2.5)][_k % 5]
                if n == 6 and one:
                    eps, ideal = 0.125, 16
                CASES.append(Case(f"{how}{'1' if one else '2'}-n{n}-{i}", h_find,
                                  dict(n=n, edges=list(es), kind=KINDS[_k % 5], how=how, one_sided=one, eps=eps, ideal=ideal,
                                       integral=_k % 3 != 0, weighted=_k % 2 == 0),
                                  ["cuts", "none"], thorough=n == 6 and (one and how == "memo" or i > 2),
                                  bounds=f"tree {list(es)}, every root, arbitrary populations, eps={'arbitrary' if eps is None else eps}, ideal={'arbitrary' if ideal is None else ideal}"))

# larger trees: wide nodes, long paths, many leaves; all but two or three populations are given
_ = None
BIG = {
    "star9": (star(9), [1, _, 2, 3, _, 1, 2, 1, 4]),
    "path9": (path(9), [2, _, 1, 1, 3, 1, _, 2, 1]),
    "broom": ([(0, 1), (1, 2), (2, 3)] + [(3, i) for i in range(4, 10)], [_, 3, 1, 1, 1, 1, _, 2, 1, 1]),
    "twostars": ([(0, 1)] + [(0, i) for i in range(2, 6)] + [(1, i) for i in range(6, 11)], [1, 1, _, 2, 1, 1, 3, _, 1, 1, 2]),
    "binary": ([(i, 2 * i + 1) for i in range(5)] + [(i, 2 * i + 2) for i in range(5)], [1, 1, 1, _, 2, 1, 1, _, 1, 2, 1]),
    "spider": ([(0, 1), (1, 2), (0, 3), (3, 4), (0, 5), (5, 6), (0, 7), (7, 8), (0, 9), (9, 10)], [1, 2, _, 1, 1, 3, 1, 1, _, 1, 2]),
    "caterpillar": (path(6) + [(i, i + 6) for i in range(6)], [0, 1, 2, _, 1, 0, 3, 1, _, 1, 2, 1]),
    "zeros": (path(5) + [(2, 5), (2, 6), (6, 7)], [0, _, 0, 0, 4, 0, 0, _]),
}
for k, (nm, (es, known)) in enumerate(BIG.items()):
    for how in FINDERS:
        for one in (False, True):
            tot = sum(x for x in known if x)
            CASES.append(Case(f"{how}{'1' if one else '2'}-{nm}", h_find,
                              dict(n=len(known), edges=es, kind=KINDS[(k + one) % 5], how=how, one_sided=one, eps=0.75, ideal=tot // 2 + 2, known=known, weighted=one),
                              ["cuts"] if one else ["cuts", "none"], bounds=f"tree {es}, every root, populations {known} with the unlisted ones arbitrary, eps={0.75}, ideal={tot // 2 + 2}"))
for shape in ("path", "comb"):
    for how in FINDERS:
        for one in (False, True):
            CASES.append(Case(f"{how}{'1' if one else '2'}-deep-{shape}", h_deep, dict(shape=shape, how=how, one_sided=one, kind="int" if one else "shuffled"), ["cuts"],
                              bounds=f"a {shape} of 2048 nodes, three roots, unit populations but for one node with up to three more"))
