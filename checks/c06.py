import math
from checks.lib import *
from gerrychain.updaters import Election

PARTIES = ["R", "D", "G", "L", "A", "W", "P", "Q", "S", "T"]


def part_sum(lab, p, vals):
    return Sum(Ite(eq(lab[v], p), vals[v], 0) for v in lab)


def isnan(x):
    return type(x) is not Sym and isinstance(x, float) and x != x


def claims(ctx, q, l, votes, parties, name, full=True):
    """Everything an ElectionResults reports, against the definition over the plain vote data."""
    r = q[name]
    out = []
    regions = list(q.parts)
    cnt = {(y, p): part_sum(l, p, votes[y]) for y in parties for p in regions}
    tot = {p: Sum(cnt[y, p] for y in parties) for p in regions}
    all_votes = Sum(Sum(votes[y].values()) for y in parties)
    out.append((eq(r.total_votes(), all_votes), "total_votes is not the sum of all votes"))
    seats = {y: 0 for y in parties}
    for y in parties:
        c, pc, vs = r.counts(y), r.percents(y), r.votes(y)
        out.append((len(c) == len(pc) == len(vs) == len(regions), "not one entry per district"))
        out.append((eq(r.count(y), Sum(votes[y].values())), "count(party) is not the party's overall votes"))
        for k, p in enumerate(regions):
            out.append((eq(r.count(y, p), cnt[y, p]), "count(party, district) is not the sum over its nodes"))
            out.append((eq(r.totals_for_party[y][p], cnt[y, p]), "totals_for_party is not the sum over its nodes"))
            out.append((eq(c[k], cnt[y, p]), "counts(party) is not in district order or wrong"))
            out.append((eq(vs[k], cnt[y, p]), "votes(party) is not in district order or wrong"))
            for v in (r.percent(y, p), pc[k], r.percents_for_party[y][p]):
                if isnan(v):
                    out.append((eq(tot[p], 0), "percent is nan although votes were cast"))
                    ctx.cover("no votes")
                else:
                    out.append((And(gt(tot[p], 0), eq(v, Div(cnt[y, p], tot[p]))), "percent is not the party's share of the district's votes"))
            if not full:
                continue
            w = And([gt(cnt[y, p], cnt[o, p]) for o in parties if o != y])
            won = r.won(y, p)
            out.append((Iff(bool(won), w), "won(party, district) is not 'strictly more votes than every opponent'"))
            seats[y] = seats[y] + Ite(w, 1, 0)
        if not full:
            continue
        out.append((eq(r.seats(y), seats[y]), "seats is not the number of districts won"))
        out.append((eq(r.wins(y), seats[y]), "wins is not the number of districts won"))
    for p in regions:
        out.append((eq(r.totals[p], tot[p]), "totals is not the district's votes over all parties"))
    ctx.checks(out)
    if full and ctx.branch(gt(all_votes, 0)):
        ctx.checks([(eq(r.percent(y), Div(Sum(votes[y].values()), all_votes)), "percent(party) is not the overall vote share") for y in parties])


def h(ctx, n=4, edges=None, kind="int", steps=(1,), pattern=None, k=2, form="dict", real=False, concrete=False, lazy=False, alias=None, lo=0, full_first=False, wins=True, fixed=None):
    fresh()
    nodes = ids(n, kind)
    lab = concrete_labels(nodes, pattern) if concrete else labels(ctx, nodes, pattern)
    parties = PARTIES[:k]
    mk = ctx.real if real else ctx.num
    votes = {y: {v: mk(f"{y}{i}", lo) for i, v in enumerate(nodes)} for y in parties}
    for y in parties[1 : fixed and -1] if fixed else ():
        votes[y] = {v: fixed + (i + ord(y)) % 5 for i, v in enumerate(nodes)}
    for y in parties if fixed else ():
        votes[y].update({v: fixed + i % 3 for i, v in enumerate(nodes) if i})
    g = mkgraph(nodes, edges, {(y if form == "list" else "col_" + y): [votes[y][v] for v in nodes] for y in parties})
    if form == "list":
        el = Election("E", list(parties), alias=alias)
    elif form == "dict":
        el = Election("E", {y: "col_" + y for y in parties}, alias=alias)
    else:
        el = Election("E", {y: dict(votes[y]) for y in parties}, alias=alias)
    name = alias or "E"
    p = Partition(g, dict(lab), {name: el})
    exist = list(p.parts)
    hist = [(p, lab)]
    if not lazy:
        claims(ctx, p, lab, votes, parties, name, full_first)
    for s, m in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, m, f"s{s}", concrete=concrete)
        p = p.flip(f)
        lab = apply_flips(lab, f)
        hist.append((p, lab))
        if not lazy:
            claims(ctx, p, lab, votes, parties, name, wins and s == len(steps) - 1)
    for q, l in reversed(hist if lazy else hist[:1]):
        claims(ctx, q, l, votes, parties, name, full_first or wins and q is p)
    if wins:
        ctx.observe("seats", [p[name].seats(y) for y in parties])
    ctx.observe("counts", [dict(p[name].totals_for_party[y]) for y in parties])
    ctx.cover("election")


def h_two(ctx, n=3):
    """Two elections on one partition, and one Election object on two graphs."""
    fresh()
    nodes = ids(n)
    lab = labels(ctx, nodes, [0, 1, 1])
    parties = ["D", "R"]
    va, vb, vc = ({y: {v: ctx.num(f"{t}{y}{v}", 1) for v in nodes} for y in parties} for t in "abc")
    ga = mkgraph(nodes, path(n), {**{"A" + y: [va[y][v] for v in nodes] for y in parties},
                                  **{"B" + y: [vb[y][v] for v in nodes] for y in parties}})
    gc = mkgraph(nodes, path(n), {"A" + y: [vc[y][v] for v in nodes] for y in parties})
    e1 = Election("E1", {y: "A" + y for y in parties})
    e2 = Election("E2", {y: "B" + y for y in parties})
    p = Partition(ga, dict(lab), {"E1": e1, "E2": e2})
    if ctx.flag("read first"):
        claims(ctx, p, lab, va, parties, "E1", False)
    q = Partition(gc, dict(lab), {"E1": e1})
    f = arbitrary_flips(ctx, nodes, list(p.parts), 1)
    l2 = apply_flips(lab, f)
    p2, q2 = p.flip(f), q.flip(f)
    for x, l, v, nm in ((q2, l2, vc, "E1"), (p2, l2, va, "E1"), (p2, l2, vb, "E2"), (p, lab, vb, "E2"), (q, lab, vc, "E1")):
        claims(ctx, x, l, v, parties, nm, False)
    ctx.cover("two")


def h_bad(ctx):
    ctx.raises(TypeError, lambda: Election("E", ("D", "R")), "parties given as neither dict nor list were accepted")
    ctx.cover("refused")


P33 = [0, 0, 1, 0, 2, 1, 2, 2, 1]
CASES = [
    Case("large", h, dict(n=49, edges=grid_edges(7, 7), pattern=blocks(7, 7, list("dcba")), concrete=True, kind="shuffled", lo=1, k=3, wins=False, steps=(("some", 1, 1), ("some", 30), ("shift", 16))), ["election"],
         bounds="7x7 grid, 4 districts, arbitrary positive votes for 3 parties, flips of 1, 30 and 16 nodes together (fixed scattered choices)"),
    Case("long", h, dict(n=16, edges=grid_edges(4, 4), pattern=blocks(4, 4, [2, 1, 0]), concrete=True, lo=1, wins=False, steps=(("some", 1, 1),) * 30 + (1,)), ["election"],
         bounds="4x4 grid, 3 districts, arbitrary positive votes for 2 parties, 30 single flips (a fixed scattered history), then an arbitrary one"),
    Case("large-whole", h, dict(n=25, edges=grid_edges(5, 5), pattern=blocks(5, 5, [3, 0, 2]), concrete=True, lo=1, lazy=True, wins=False, steps=(("all",), ("some", 25, 1), 0, ("some", 1))), ["election"],
         bounds="5x5 grid, 3 districts, all nodes moved into one district, all redistributed, nothing, one node; read at the end"),
    Case("many-parties", h, dict(n=2, edges=path(2), pattern=["a", "b"], concrete=True, steps=(), k=10, fixed=7, lo=1, full_first=True), ["election"],
         bounds="2 districts, 10 parties, arbitrary votes for the first and the last of them in one district"),
    Case("p3-any", h, dict(n=3, edges=path(3), steps=(1,), full_first=True), ["election", "no votes"], bounds="path of 3, arbitrary districts, arbitrary nonnegative integer votes for 2 parties, one single flip (inductive step)"),
    Case("p4", h, dict(edges=path(4), steps=(1,), pattern=[0, 0, 1, 1], kind="str", form="list"), ["election", "no votes"], bounds="path of 4, 2 districts, arbitrary votes for 2 parties, one flip; parties given as a list"),
    Case("p4-2", h, dict(edges=cycle(4), steps=(2,), pattern=[0, 1, 2, 2], form="data", lazy=True, concrete=True, lo=1), ["election"], bounds="4-cycle, 3 districts, arbitrary positive votes for 2 parties, 2 nodes flipped together, vote columns given as data, read at the end"),
    Case("empty-flip", h, dict(n=3, edges=path(3), steps=(0, 1), pattern=[0, 1, 1], lo=1), ["election"], bounds="path of 3, 2 districts, arbitrary positive votes, a flip of nothing before a single flip"),
    Case("p3-3parties", h, dict(n=3, edges=path(3), steps=(1,), pattern=[0, 1, 1], k=3, alias="PRES", kind="tuple", lo=1), ["election"], bounds="path of 3, 2 districts, 3 parties, one flip; alias used"),
    Case("p3-1-1-real", h, dict(n=3, edges=star(3), steps=(1, 1), pattern=[0, 1, 0], k=2, real=True, concrete=True), ["election", "no votes"], bounds="star of 3, 2 districts, arbitrary nonnegative real votes, 2 successive flips"),
    Case("p3-1party", h, dict(n=3, edges=path(3), steps=(1,), pattern=[0, 1, 1], k=1), ["election"], bounds="one unopposed party"),
    Case("grid33", h, dict(n=9, edges=grid_edges(3, 3), steps=(1,), pattern=P33, kind="shuffled", lo=1), ["election"], bounds="3x3 grid, positive votes, 3 districts with arbitrary distinct labels, one flip", path_timeout=120),
    Case("two", h_two, {}, ["two"], bounds="3 nodes, two elections on one partition and one Election object shared by two graphs, one flip"),
    Case("p2-6parties", h, dict(n=2, edges=path(2), steps=(1,), k=6, form="list", lo=1, wins=False), ["election"], bounds="2 nodes, arbitrary districts, 6 parties with arbitrary positive votes, one flip; wins not compared"),
    Case("p3-4parties", h, dict(n=3, edges=path(3), steps=(2,), k=4, form="dict", lo=1, wins=False, kind="str"), ["election"], bounds="path of 3, arbitrary districts, 4 parties with arbitrary positive votes, 2 nodes flipped together; wins not compared"),
    Case("bad", h_bad, {}, ["refused"], bounds="malformed constructor argument"),
    Case("p4-any", h, dict(n=4, edges=path(4), steps=(1,)), ["election"], thorough=True, bounds="path of 4, arbitrary districts, one flip"),
    Case("p4-3parties-1-1", h, dict(n=4, edges=path(4), steps=(1, 1), pattern=[0, 0, 1, 1], k=3), ["election"], thorough=True, bounds="path of 4, 2 districts, 3 parties, 2 flips"),
]
