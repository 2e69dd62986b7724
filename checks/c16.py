from checks.lib import *
from checks.c15 import start, pairs_of, pair_label, merged
from gerrychain.proposals import reversible_recom
from gerrychain.proposals.tree_proposals import ReversibilityError
from gerrychain.tree import find_balanced_edge_cuts_contraction, find_balanced_edge_cuts_memoization


def h_rev(ctx, n=4, edges=None, pattern=(0, 0, 1, 1), kind="int", M=2, eps=0.5, target=None, pops=None, limit=9, finder="memo", repeat=False, choose=True, streams=None):
    ctx.rnd_limit = limit
    if streams:
        ctx.stream(streams)
    nodes, vals, p = start(ctx, n, edges, pattern, kind, pops)
    ix = {v: i for i, v in enumerate(nodes)}
    ks = len(set(pattern))
    if target is None:
        target = Sum(vals) / ks
    calls, chosen = [], []
    real = find_balanced_edge_cuts_memoization if finder == "memo" else find_balanced_edge_cuts_contraction

    def balance(h, *a, **k):
        cuts = real(h, *a, **k)
        calls.append((frozenset(ix[v] for v in h.graph.nodes), {frozenset(ix[x] for x in e) for e in h.graph.edges}, list(cuts), len(ctx.draws)))
        return cuts

    def choice(seq):
        seq = list(seq)
        c = seq[ctx.pick("cut", len(seq))]
        chosen.append(c)
        return c

    kw = dict(choice=choice) if choose else {}
    if repeat:
        kw["repeat_until_valid"] = True
    lab = list(pattern)
    E = {frozenset(e) for e in edges}
    try:
        q = reversible_recom(p, "POP", target, eps, balance_edge_fn=balance, M=M, **kw)
    except ReversibilityError:
        ctx.check(bool(calls), "ReversibilityError before any cut was found")
        k = len(calls[-1][2])
        if k <= M:
            # only allowed when cuts / (M * seam) exceeds 1, impossible with k <= M
            ctx.fail("ReversibilityError although the number of balanced cuts is within the bound")
        ctx.cover("too many")
        return
    ctx.check([p.assignment[v] for v in nodes] == lab, "the given partition changed")
    adj = pairs_of(edges, lab)
    for mem, tree, cuts, _ in calls:
        pair = frozenset(lab[i] for i in mem)
        ctx.check(pair in adj and mem == {i for i in range(n) if lab[i] in pair}, "the merged piece is not the union of two adjacent districts")
        ctx.check(tree <= E and len(tree) == len(mem) - 1 and is_connected(mem, [tuple(e) for e in tree]), "the tree does not span the merged piece")
        ctx.check(len(cuts) <= M, "more balanced cuts than the bound were tolerated")
    if not repeat:
        ctx.check(len(calls) <= 1, "a second tree was drawn in one step")
    else:
        ctx.check(all(not c[2] for c in calls[:-1]), "a tree with balanced cuts was thrown away")
    if not calls:
        ctx.check(q is p, "the plan changed without drawing a tree")
        ctx.cover("no tree")
        return
    mem, tree, cuts, drawn = calls[-1]
    pair = frozenset(lab[i] for i in mem)
    ctx.cover(pair_label(pair))
    if not cuts:
        ctx.check(q is p, "the plan changed without a balanced cut")
        ctx.cover("no cut")
        return

    def seam(sub):
        return sum(1 for e in edges if (e[0] in sub) != (e[1] in sub) and e[0] in mem and e[1] in mem)

    sets = [frozenset(ix[v] for v in c.subset) for c in cuts]
    r = ctx.draws[drawn:]
    if q is p:
        if choose and chosen and r:
            ctx.check(ge(r[-1], Div(len(cuts), M * seam(sets[cuts.index(chosen[-1])]))), "rejected although the draw is below cuts / (M * seam length)")
        elif not r:
            ctx.fail("rejected without a random draw")
        ctx.cover("rejected")
        return
    ok, new = merged(ctx, p, q, nodes, edges, pattern, pair)
    a, b = sorted(pair)
    side = frozenset(i for i in mem if new[i] == a)
    ctx.check(side in sets or mem - side in sets, "the new plan is not one of the balanced cuts")
    if choose and chosen:
        s = sets[cuts.index(chosen[-1])]
        ctx.check(side == s or mem - side == s, "the new plan is not the chosen cut")
    for s in (side, mem - side):
        ctx.check(is_connected(s, edges), "a redrawn district is not connected")
        ctx.check(le(Abs(Sum([vals[i] for i in s]) - target), eps * target), "a redrawn district is not within epsilon of the target population")
    prob = Rat(len(cuts), M * seam(side))
    if r:
        ctx.check(lt(r[-1], prob), "accepted although the draw is not below cuts / (M * seam length)")
    else:
        ctx.check(len(cuts) >= M * seam(side), "accepted without a random draw")
    ctx.cover("accepted")
    ctx.observe("new", new)


C4, P4 = cycle(4), path(4)
P3 = path(3)
PAW = [(0, 1), (1, 2), (2, 0), (2, 3)]
ASSUMPTIONS = ["positive populations", "Wilson walks and choices of at most `limit` draws", "the acceptance draw is the last one after the cuts are found"]
CASES = []


def add(name, covers, thorough=False, reach=(), **kw):
    CASES.append(Case(name, h_rev, kw, covers, thorough=thorough, reach=reach, bounds=f"{kw}; populations arbitrary unless given"))


def rp(edges, pattern):
    return [pair_label(c) for c in pairs_of(edges, pattern)]


ALL = ["no tree", "no cut", "accepted", "rejected"]
add("p3", ALL, n=3, edges=P3, pattern=(0, 1, 1), M=2, limit=10)
add("p3-M1", ALL[:3], n=3, edges=P3, pattern=(0, 0, 1), M=1, eps=0.25, kind="str", limit=10)
add("p3-too-many", ALL[:3] + ["too many"], n=3, edges=P3, pattern=(0, 0, 1), M=1, eps=0.75, kind="tuple", limit=10)
add("c3", ALL, n=3, edges=cycle(3), pattern=(0, 1, 1), M=2, limit=10)
add("c4", ALL, edges=C4, M=3, limit=11)
add("c4-M1", ALL, edges=C4, M=1, eps=0.25, limit=11, pops=[2, None, None, 3])
add("p4-three", ALL, edges=P4, pattern=(0, 1, 1, 2), target=4, eps=0.5, M=2, limit=10, kind="str", reach=rp(P4, (0, 1, 1, 2)))
add("p4-labels", ALL, edges=P4, pattern=("z", "z", "a", "m"), target=4, eps=0.5, M=3, limit=10, reach=rp(P4, "zzam"), pops=[None, None, None, 2])
add("paw", ALL, edges=PAW, pattern=(0, 1, 1, 1), M=3, limit=11, eps=0.5)
add("contract", ALL, n=3, edges=P3, pattern=(0, 1, 1), M=2, finder="contract", limit=10)
add("many-cuts", ["no tree", "accepted", "rejected"], n=5, edges=star(5), pattern=(0, 0, 1, 1, 1), M=8, eps=0.875, pops=[1] * 5, limit=15)
add("default-choice", ALL, n=3, edges=cycle(3), pattern=(0, 1, 1), M=2, choose=False, limit=9)
add("repeat", ["no tree", "accepted", "rejected"], n=3, edges=P3, pattern=(0, 1, 1), M=2, repeat=True, limit=12)
add("p2", ["no tree", "accepted"], n=2, edges=path(2), pattern=(0, 1), M=1, limit=10, eps=0.5)
add("c4-deep", ALL, edges=C4, M=2, limit=12, eps=0.25, thorough=True)
add("diamond", ALL, edges=C4 + [(0, 2)], M=3, limit=11, eps=0.5, thorough=True)
add("p5-three", ALL, n=5, edges=path(5), pattern=(0, 0, 1, 1, 2), target=4, eps=0.5, M=2, limit=11, thorough=True, pops=[None, 2, None, None, 3])
G12 = [i // 12 // 3 * 2 + i % 12 // 6 for i in range(144)]
for f in ("memo", "contract"):
    add(f"large-{f}", [], n=144, edges=grid_edges(12, 12), pattern=G12, pops=[1] * 144, target=18, eps=0.25, M=12, finder=f, kind="shuffled", streams=40, limit=10**6, repeat=f == "memo")
add("deep", [], n=400, edges=path(400), pattern=[0] * 200 + [1] * 200, pops=[1] * 400, target=200, eps=0.0625, M=30, kind="int", streams=6, limit=10**6)
