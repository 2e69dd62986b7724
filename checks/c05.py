import math
from checks.lib import *
from gerrychain.updaters import county_splits, tally_region_splits, CountySplit
from gerrychain.updaters.locality_split_scores import LocalitySplits
from gerrychain.constraints import refuse_new_splits

ASSUMPTIONS = ["total population is positive"]


def same_county(cty, u, v):
    return eq(cty[u], cty[v])


def h_status(ctx, n=4, edges=None, steps=(1,), kind="int", pattern=None, cpattern=None, concrete=False, lazy=False):
    fresh()
    nodes = ids(n, kind)
    lab = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    cty = {v: cpattern[i] for i, v in enumerate(nodes)} if isinstance(cpattern and cpattern[0], str) else labels(ctx, nodes, cpattern, prefix="c")
    g = mkgraph(nodes, edges, {"county": [cty[v] for v in nodes]})
    p = Partition(g, dict(lab), {"cs": county_splits("cs", "county"), "reg": tally_region_splits(["county"])})
    refuse = refuse_new_splits("cs")
    exist = list(p.parts)
    es = edge_ids(nodes, edges)
    cnames = None

    def split_of(c, l):
        """is county c (a representative node) in more than one district?"""
        return Or([And(same_county(cty, c, v), ne(l[c], l[v])) for v in nodes])

    def claims(q, hist):
        l = hist[-1]
        out = []
        info = q["cs"]
        anynew = []
        covered = {v: 0 for v in nodes}
        for c, ci in info.items():
            for v in nodes:
                out.append((Iff(v in ci.nodes, eq(cty[v], c)), "county_splits: a county's node list is wrong"))
                covered[v] += list(ci.nodes).count(v)
            mem = list(ci.nodes)
            if not mem:
                continue
            r = mem[0]
            districts = list(ci.contains)
            for d in districts:
                out.append((Or([And(eq(cty[v], c), eq(l[v], d)) for v in nodes]), "county_splits: lists a district the county does not touch"))
            for v in nodes:
                out.append((Implies(eq(cty[v], c), Or([eq(l[v], d) for d in districts])), "county_splits: misses a district the county touches"))
            now = split_of(r, l)
            always = And([split_of(r, x) for x in hist])
            out.append((Iff(ci.split == CountySplit.NOT_SPLIT, Not(now)), "a county is NOT_SPLIT iff it lies in one district"))
            out.append((Iff(ci.split == CountySplit.OLD_SPLIT, always), "a county is OLD_SPLIT iff it has been split in every partition since the first"))
            out.append((Iff(ci.split == CountySplit.NEW_SPLIT, And(now, Not(always))), "a county is NEW_SPLIT iff it is split now and was whole in an earlier partition"))
            anynew.append(And(now, Not(always)))
        out.append((all(x == 1 for x in covered.values()), "county_splits: nodes are not partitioned into counties"))
        out.append((Iff(refuse(q) is True, Not(Or(anynew))), "refuse_new_splits rejects exactly the partitions with a newly split county"))
        # regions with an internal cut edge, counted once each
        reps = []
        for i, v in enumerate(nodes):
            first = And([ne(cty[u], cty[v]) for u in nodes[:i]])
            hit = Or([And(eq(cty[a], cty[v]), eq(cty[b], cty[v]), ne(l[a], l[b])) for a, b in es])
            reps.append(And(first, hit))
        got = q["reg"]
        out.append((list(got) == ["county"], "tally_region_splits keys"))
        out.append((eq(got["county"], Count(reps)), "tally_region_splits is not the number of regions with an internal cut edge"))
        return out

    hist = [lab]
    ps = [(p, list(hist))]
    if not lazy:
        ctx.checks(claims(p, hist))
    for s, k in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, k, f"s{s}", concrete=concrete)
        p = p.flip(f)
        lab = apply_flips(lab, f)
        hist = hist + [lab]
        ps.append((p, hist))
        if not lazy:
            ctx.checks(claims(p, hist))
    for q, hh in ps:
        ctx.checks(claims(q, hh))
    for st in CountySplit:
        if any(ci.split == st for ci in p["cs"].values()):
            ctx.cover(st.name)
    ctx.observe("reg", p["reg"]["county"])
    ctx.observe("n", len(p["cs"]))


def h_scores(ctx, n=4, edges=None, steps=(1,), kind="int", pattern=None, cpattern=None, concrete=False, strc=False, alpha=0.5):
    fresh()
    nodes = ids(n, kind)
    lab = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    if strc:
        cty = {v: cpattern[i] for i, v in enumerate(nodes)}
    else:
        cty = labels(ctx, nodes, cpattern, prefix="c")
    pop = [ctx.num(f"pop{i}", 1) for i in range(n)]
    g = mkgraph(nodes, edges, {"county": [cty[v] for v in nodes], "pop": pop})
    ls = LocalitySplits("ls", "county", "pop", ["num_parts", "num_pieces", "naked_boundary", "num_split_localities", "shannon_entropy", "power_entropy"], pent_alpha=alpha)
    p = Partition(g, dict(lab), {"ls": ls})
    exist = list(p.parts)
    es = edge_ids(nodes, edges)

    def expected(l):
        """decided on this path: group nodes by county and district (forks if not yet known)"""
        groups = []  # [ (county rep, district rep, [nodes]) ]
        for v in nodes:
            for gr in groups:
                if bool(cty[gr[0]] == cty[v]) and bool(l[gr[0]] == l[v]):
                    gr.append(v)
                    break
            else:
                groups.append([v])
        counties = []
        for gr in groups:
            for c in counties:
                if bool(cty[c[0][0]] == cty[gr[0]]):
                    c.append(gr)
                    break
            else:
                counties.append([gr])
        pieces = 0
        for gr in groups:
            left = set(gr)
            while left:
                pieces += 1
                todo = [left.pop()]
                while todo:
                    x = todo.pop()
                    for a, b in es:
                        for y, z in ((a, b), (b, a)):
                            if y == x and z in left:
                                left.discard(z)
                                todo.append(z)
        naked = sum(1 for a, b in es if bool(cty[a] == cty[b]) and bool(l[a] != l[b]))
        split = sum(1 for c in counties if len(c) > 1)
        sh = pw = 0.0
        for c in counties:
            tot = sum(len(gr) for gr in c)
            q = tot / n
            sh += q * sum((len(gr) / tot) * math.log(tot / len(gr)) for gr in c)
            pw += (1 / q) * (sum((len(gr) / tot) ** (1 - alpha) for gr in c) - 1)
        return dict(num_parts=len(groups), num_pieces=pieces, naked_boundary=naked, num_split_localities=split,
                    shannon_entropy=sh, power_entropy=pw)

    def claims(q, l):
        got = q["ls"]
        want = expected(l)
        return [(eq(got[k], want[k]), f"{k} does not equal its definition") for k in want]

    hist = [(p, lab)]
    ctx.checks(claims(p, lab))
    for s, k in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, k, f"s{s}", concrete=concrete)
        p = p.flip(f)
        lab = apply_flips(lab, f)
        hist.append((p, lab))
        ctx.checks(claims(p, lab))
    for q, l in hist:
        ctx.checks(claims(q, l))
    if p["ls"]["num_split_localities"]:
        ctx.cover("split")
    if p["ls"]["num_pieces"] > p["ls"]["num_parts"]:
        ctx.cover("disconnected piece")
    ctx.observe("scores", [p["ls"][k] for k in ("num_parts", "num_pieces", "naked_boundary", "num_split_localities")])


def h_symmetric(ctx, n=4, edges=None, strc=("A", "B", "A", "B"), pops=(3, 5, 2, 7), kind="int", pattern=None, moved=False):
    fresh()
    nodes = ids(n, kind)
    lab = labels(ctx, nodes, pattern)
    cty = {v: strc[i] for i, v in enumerate(nodes)}
    g = mkgraph(nodes, edges, {"county": list(strc), "pop": list(pops)})
    ls = LocalitySplits("ls", "county", "pop", ["symmetric_entropy"])
    p = Partition(g, dict(lab), {"ls": ls})
    if moved:
        f = arbitrary_flips(ctx, nodes, list(p.parts), 1, "f")
        p = p.flip(f)
        lab = apply_flips(lab, f)
        if not all(p.parts.values()):
            ctx.cover("emptied a part")
    got = p["ls"]["symmetric_entropy"]
    cells = {}
    reps = []
    for i, v in enumerate(nodes):
        d = next((r for r in reps if bool(lab[r] == lab[v])), None)
        if d is None:
            reps.append(v)
            d = v
        cells[(cty[v], d)] = cells.get((cty[v], d), 0) + pops[i]
    want = 0.0
    for d in reps:
        t = sum(x for (c, e), x in cells.items() if e == d)
        want += t * sum(math.sqrt(x / t) for (c, e), x in cells.items() if e == d and t)
    for c in set(strc):
        t = sum(x for (e, d), x in cells.items() if e == c)
        want += t * sum(math.sqrt(x / t) for (e, d), x in cells.items() if e == c and t)
    ctx.check(eq(got, want), "symmetric_entropy does not equal its definition")
    ctx.cover("symmetric")


def h_reuse(ctx, n=4):
    """one LocalitySplits object used for plans on two graphs"""
    fresh()
    nodes = ids(n)
    la, lb = labels(ctx, nodes), labels(ctx, nodes, [0, 0, 1, 1], prefix="b")
    ca, cb = list("xxyy"), ctx.choose("second", [list("xyxy"), list("zzzy"), list("yxxx")])
    ga = mkgraph(nodes, path(n), {"county": ca, "pop": [1] * n})
    gb = mkgraph(nodes, path(n), {"county": cb, "pop": [2] * n})
    ls = LocalitySplits("ls", "county", "pop", ["num_parts", "num_pieces", "naked_boundary", "num_split_localities"])
    pa, pb = Partition(ga, dict(la), {"ls": ls}), Partition(gb, dict(lb), {"ls": ls})
    order = ctx.choose("order", [[0, 1], [1, 0]])
    for k in order:
        q, l, c = [(pa, la, ca), (pb, lb, cb)][k]
        cells, cut = [], 0
        for i, v in enumerate(nodes):
            if not any(c[i] == c[j] and bool(l[v] == l[nodes[j]]) for j in cells):
                cells.append(i)
        for i, j in path(n):
            cut += c[i] == c[j] and bool(l[nodes[i]] != l[nodes[j]])
        names = [c[i] for i in cells]
        got = q["ls"]
        ctx.check(eq(got["num_parts"], len(cells)), "num_parts of a reused updater is another graph's")
        ctx.check(eq(got["naked_boundary"], cut), "naked_boundary of a reused updater is another graph's")
        ctx.check(eq(got["num_split_localities"], sum(1 for x in set(names) if names.count(x) > 1)), "num_split_localities of a reused updater is another graph's")
    ctx.cover("reuse")


def h_need_cut_edges(ctx):
    fresh()
    nodes = ids(3)
    lab = labels(ctx, nodes)
    g = mkgraph(nodes, path(3), {"county": ["A", "A", "B"]})
    p = Partition(g, dict(lab), {"reg": tally_region_splits(["county"])}, use_default_updaters=False)
    ctx.raises(ValueError, lambda: p["reg"], "tally_region_splits without cut_edges must be refused")
    ctx.cover("refused")


CASES = [
    Case("status-large", h_status, dict(n=64, edges=grid_edges(8, 8), pattern=blocks(8, 8, list("dcba")), cpattern=[f"c{i // 8 // 2}{i % 8 // 3}" for i in range(64)], concrete=True, kind="shuffled", steps=(("some", 1, 1), ("some", 30), ("shift", 16))), ["NEW_SPLIT", "OLD_SPLIT", "NOT_SPLIT"],
         bounds="8x8 grid, 4 districts, 12 counties, flips of 1, 30 and 16 nodes together (fixed scattered choices)"),
    Case("status-wide", h_status, dict(n=144, edges=grid_edges(12, 12), pattern=blocks(12, 12, list("ba")), cpattern=["c0" if i < 120 and i % 12 < 6 else "c1" if i < 120 else "c2" for i in range(144)], concrete=True, steps=(("some", 1, 1), ("all",), ("one",))), ["NEW_SPLIT"],
         bounds="12x12 grid, 2 districts, 3 counties of 24, 60 and 60 nodes, a single flip, all nodes into one district, then one node of six moved"),
    Case("status-long", h_status, dict(n=16, edges=grid_edges(4, 4), pattern=blocks(4, 4, [2, 1, 0]), cpattern=[f"c{i // 4}" if i % 4 else "x" for i in range(16)], concrete=True, steps=(("some", 1, 1),) * 30 + (1,)), ["NEW_SPLIT"],
         bounds="4x4 grid, 3 districts, 5 counties, 30 single flips (a fixed scattered history), then an arbitrary one"),
    Case("status-whole", h_status, dict(n=25, edges=grid_edges(5, 5), pattern=blocks(5, 5, list("dcba")), cpattern=[f"c{i // 5}" for i in range(25)], concrete=True, lazy=True, steps=(("all",), ("some", 25, 1), 0, ("some", 1), ("all",))), ["NOT_SPLIT"],
         bounds="5x5 grid, 4 districts, 5 counties, all nodes moved into one district, all redistributed, nothing, one node, all into one; read at the end"),
    Case("scores-large", h_scores, dict(n=64, edges=grid_edges(8, 8), pattern=blocks(8, 8, list("dcba")), cpattern=[f"c{i // 8 // 2}{i % 8 // 3}" for i in range(64)], strc=True, concrete=True, kind="shuffled", steps=(("some", 1, 1), ("some", 30), ("shift", 16))), ["split"],
         bounds="8x8 grid, 4 districts, 12 counties, flips of 1, 30 and 16 nodes together (fixed scattered choices)"),
    Case("scores-whole", h_scores, dict(n=25, edges=grid_edges(5, 5), pattern=blocks(5, 5, list("dcba")), cpattern=[f"c{i // 5}" for i in range(25)], strc=True, concrete=True, steps=(("all",), ("some", 25, 1), 0, ("some", 1))), [],
         bounds="5x5 grid, 4 districts, 5 counties, all nodes moved into one district, all redistributed, nothing, one node"),
    Case("status-p3-1-1", h_status, dict(n=3, edges=path(3), steps=(1, 1)), ["NOT_SPLIT", "NEW_SPLIT", "OLD_SPLIT"], bounds="path of 3, arbitrary districts and counties, 2 single flips"),
    Case("status-c4-1", h_status, dict(edges=cycle(4), steps=(1,), kind="str", cpattern=[0, 1, 1, 0]), ["NOT_SPLIT", "NEW_SPLIT", "OLD_SPLIT"], bounds="4-cycle, arbitrary districts, 2 counties, one single flip"),
    Case("status-c4-2", h_status, dict(edges=path(4), steps=(2,), kind="offset", cpattern=["x", "x", "y", "x"], lazy=True), ["NOT_SPLIT", "NEW_SPLIT", "OLD_SPLIT"], bounds="path of 4, arbitrary districts, string counties, 2 nodes flipped"),
    Case("status-p3-3steps", h_status, dict(n=3, edges=path(3), steps=(1, 1, 1), cpattern=["x", "x", "y"], pattern=[0, 0, 1]), ["NOT_SPLIT", "NEW_SPLIT"], bounds="path of 3, 2 districts, 3 single flips"),
    Case("status-grid", h_status, dict(n=12, edges=grid_edges(3, 4), steps=(1,), kind="shuffled", pattern=[0, 0, 1, 1, 0, 0, 1, 1, 2, 2, 2, 2], cpattern=list("aabbccddeeff")), ["NEW_SPLIT"], bounds="3x4 grid, 3 districts, 6 counties, one single flip"),
    Case("status-empty-flip", h_status, dict(n=3, edges=path(3), steps=(0, 1, 0)), ["NOT_SPLIT", "NEW_SPLIT", "OLD_SPLIT"], bounds="path of 3, arbitrary districts and counties, a flip of nothing before and after a single flip"),
    Case("scores-n4", h_scores, dict(edges=path(4), steps=(1,)), ["split", "disconnected piece"], bounds="path of 4, arbitrary districts, counties and populations, one single flip"),
    Case("scores-c4-str", h_scores, dict(edges=cycle(4), steps=(1, 1), strc=True, cpattern=list("abab"), kind="str", pattern=[0, 1, 1, 2]), ["split", "disconnected piece"], bounds="4-cycle, 3 districts, 2 counties, 2 single flips"),
    Case("scores-grid", h_scores, dict(n=9, edges=grid_edges(3, 3), steps=(1,), strc=True, cpattern=list("aabaabccb"), pattern=[0, 1, 1, 0, 2, 1, 2, 2, 1], kind="tuple"), ["split"], bounds="3x3 grid, 3 districts, 3 counties, one single flip"),
    Case("scores-3pieces", h_scores, dict(n=5, edges=path(5), steps=(1,), strc=True, cpattern=list("ababa"), kind="shuffled", pattern=[0, 1, 0, 1, 2], alpha=0.25), ["split", "disconnected piece"], bounds="path of 5, 3 districts, 2 counties of up to 3 pieces in a district, one single flip"),
    Case("scores-star6", h_scores, dict(n=6, edges=star(6), steps=(1,), strc=True, cpattern=list("abbbba"), kind="str", pattern=[0, 1, 1, 2, 1, 3], alpha=1.5), ["split", "disconnected piece"], bounds="star of 6, 4 districts, 2 counties of up to 4 pieces in a district, one single flip"),
    Case("symmetric", h_symmetric, dict(edges=path(4)), ["symmetric"], bounds="path of 4, arbitrary districts, 2 counties, fixed populations"),
    Case("symmetric2", h_symmetric, dict(n=5, edges=star(5), strc=("A", "B", "C", "A", "B"), pops=(1, 2, 4, 8, 16), kind="str"), ["symmetric"], bounds="star of 5, arbitrary districts, 3 counties, fixed populations"),
    Case("symmetric-zero", h_symmetric, dict(n=4, edges=path(4), strc=("A", "B", "C", "A"), pops=(0, 3, 0, 2), kind="str"), ["symmetric"], bounds="path of 4, arbitrary districts, 3 counties, nodes, districts and a county without people"),
    Case("symmetric-moved", h_symmetric, dict(n=4, edges=path(4), strc=("A", "B", "B", "A"), pops=(1, 3, 5, 2), pattern=[0, 1, 1, 2], moved=True), ["symmetric", "emptied a part"], bounds="path of 4, 3 districts, 2 counties, one single flip, districts may be emptied"),
    Case("reuse", h_reuse, {}, ["reuse"], bounds="two paths of 4 with different counties sharing one LocalitySplits object, arbitrary districts"),
    Case("status-none", h_status, dict(edges=cycle(4), steps=(1,), kind="str", pattern=[0, 1, 1, 0], cpattern=["x", None, None, "y"]), ["NOT_SPLIT", "NEW_SPLIT"], bounds="4-cycle, 2 districts, counties named x, y and None, one single flip"),
    Case("needs-cut-edges", h_need_cut_edges, {}, ["refused"], bounds="3 nodes"),
    Case("status-p4-any", h_status, dict(n=4, edges=path(4), steps=(1,)), ["NEW_SPLIT"], thorough=True, bounds="path of 4, arbitrary districts and counties, one single flip"),
    Case("status-p3-any-3", h_status, dict(n=3, edges=path(3), steps=(1, 1, 1)), ["NEW_SPLIT"], thorough=True, bounds="path of 3, arbitrary districts and counties, 3 single flips"),
]
