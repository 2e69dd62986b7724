import math
from checks.lib import *
from gerrychain.updaters import Election
from gerrychain.metrics.partisan import (mean_median, mean_thirdian, efficiency_gap, partisan_bias, partisan_gini)
from gerrychain.metrics.partisan import wasted_votes

METRICS = {"mean_median": mean_median, "mean_thirdian": mean_thirdian, "efficiency_gap": efficiency_gap,
           "partisan_bias": partisan_bias, "partisan_gini": partisan_gini}


def Sorted(xs):
    """Ascending order as terms (no forking): an exchange network."""
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            a, b = xs[j], xs[j + 1]
            xs[j], xs[j + 1] = Min([a, b]), Max([a, b])
    return xs


def reference(d, t):
    """d: first party's votes, t: all votes, per district."""
    k = len(d)
    share = [Div(a, b) for a, b in zip(d, t)]
    mean = Div(Sum(share), k)
    srt = Sorted(share)
    med = srt[k // 2] if k % 2 else Div(srt[k // 2 - 1] + srt[k // 2], 2)
    third = srt[(2 * k + 3) // 6]  # the index nearest to k/3
    eg = 0
    for a, b in zip(d, t):
        o = b - a
        w1 = Ite(gt(a, o), a - Div(b, 2), a)
        w2 = Ite(gt(a, o), o, o - Div(b, 2))
        eg = eg + (w2 - w1)
    overall = Div(Sum(d), Sum(t))
    gini = Sum(abs(2 * overall - srt[i] - srt[k - 1 - i]) for i in range(k))
    return {
        "mean_median": med - mean,
        "mean_thirdian": third - mean,
        "efficiency_gap": Div(eg, Sum(t)),
        "partisan_bias": Div(Count(gt(s, mean) for s in share), k) - Rat(1, 2),
        "partisan_gini": Div(gini, k),
    }


def h(ctx, turnout=(10, 20, 15), metrics=None, swap=False, free=None):
    """One node per district; arbitrary votes for the first party out of a given turnout."""
    fresh()
    k = len(turnout)
    nodes = ids(k)
    if turnout[0] is None:
        t = [ctx.num(f"t{i}", 1) for i in range(k)]
        d = [ctx.num(f"d{i}", 0) for i in range(k)]
        for a, b in zip(d, t):
            ctx.assume(le(a, b))
    else:
        t = list(turnout)
        d = [ctx.num(f"d{i}", 0, t[i]) if free is None or i in free else (i * 37 + 11) % (t[i] + 1) for i in range(k)]
    r = [b - a for a, b in zip(d, t)]
    g = mkgraph(nodes, path(k), {"D": d, "R": r})
    cols = {"D": "D", "R": "R"} if not swap else {"R": "R", "D": "D"}
    first = d if not swap else r
    el = Election("E", cols)
    p = Partition(g, {v: k - v for v in nodes}, {"E": el})
    res = p["E"]
    want = reference(first, t)
    for m in metrics or METRICS:
        v = METRICS[m](res)
        ctx.check(eq(v, want[m]), f"{m} does not equal its definition")
        ctx.check(eq(getattr(res, m)(), want[m]), f"ElectionResults.{m} does not equal its definition")
        if m == "efficiency_gap":
            ctx.check(And(le(v, Rat(1, 2)), ge(v, Rat(-1, 2))), "efficiency gap outside [-1/2, 1/2]")
        if m == "partisan_gini":
            ctx.check(And(ge(v, 0), le(v, 1)), "partisan Gini outside [0, 1]")
            other = Partition(g, {v: k - v for v in nodes}, {"E": Election("E", dict(reversed(list(cols.items()))))})
            ctx.check(eq(partisan_gini(other["E"]), v), "partisan Gini depends on which party is listed first")
        ctx.observe(m, v)
        ctx.cover(m)


def h_wasted(ctx, real=False):
    mk = ctx.real if real else ctx.num
    a, b = mk("a", 0), mk("b", 0)
    w1, w2 = wasted_votes(a, b)
    ctx.check(eq(w1, Ite(gt(a, b), a - Div(a + b, 2), a)), "wasted votes of the first party")
    ctx.check(eq(w2, Ite(gt(a, b), b, b - Div(a + b, 2))), "wasted votes of the second party")
    ctx.check(eq(w1 + w2, Div(a + b, 2)), "exactly half of the votes are wasted in every race")
    ctx.check(And(ge(w1, 0), ge(w2, 0)), "negative wasted votes")
    ctx.cover("wasted")


def h_moves(ctx, pattern=(0, 0, 1, 1)):
    """The scores of a flipped partition are those of its own districts."""
    fresh()
    n = len(pattern)
    nodes = ids(n)
    lab = concrete_labels(nodes, list(pattern))
    d = [ctx.num(f"d{i}", 0, 10) for i in range(n)]
    g = mkgraph(nodes, path(n), {"D": d, "R": [10 - x for x in d]})
    p = Partition(g, dict(lab), {"E": Election("E", ["D", "R"])})
    if ctx.flag("read first"):
        p["E"].efficiency_gap()
    f = arbitrary_flips(ctx, nodes, list(p.parts), 1, concrete=True)
    q = p.flip(f)
    l2 = apply_flips(lab, f)
    if len(set(l2.values())) < len(set(pattern)):
        ctx.prune()
    dd = [Sum(d[i] for i, v in enumerate(nodes) if l2[v] == part) for part in q.parts]
    tt = [10 * sum(1 for v in nodes if l2[v] == part) for part in q.parts]
    want = reference(dd, tt)
    for m in METRICS:
        ctx.check(eq(METRICS[m](q["E"]), want[m]), f"{m} of a flipped partition is stale")
    ctx.cover("moved")


ASSUMPTIONS = ["every district has at least one vote (a score over a district without votes is undefined)",
               "two parties, as the scores require"]
CASES = [
    Case("k1", h, dict(turnout=(7,)), list(METRICS), bounds="1 district, 7 votes split arbitrarily"),
    Case("k2", h, dict(turnout=(10, 24)), list(METRICS), bounds="2 districts of unequal turnout, arbitrary integer votes"),
    Case("k3", h, dict(turnout=(10, 20, 15)), list(METRICS), bounds="3 districts of unequal turnout, arbitrary integer votes"),
    Case("k3-swap", h, dict(turnout=(100, 20, 50), swap=True), list(METRICS), bounds="3 districts, second party listed first"),
    Case("k4", h, dict(turnout=(10, 20, 15, 40)), list(METRICS), bounds="4 districts of unequal turnout, arbitrary integer votes"),
    Case("k2-anyturnout", h, dict(turnout=(None, None), metrics=["efficiency_gap", "partisan_bias"]), ["efficiency_gap"], bounds="2 districts, arbitrary turnout and votes"),
    Case("k5-eg", h, dict(turnout=(10, 20, 15, 40, 12), metrics=["efficiency_gap"]), ["efficiency_gap"], bounds="5 districts, arbitrary integer votes"),
    Case("k6-order", h, dict(turnout=(10, 10, 10, 10, 10, 10), metrics=["mean_thirdian"]), ["mean_thirdian"], bounds="6 districts of equal turnout", thorough=True),
    Case("k5", h, dict(turnout=(10, 20, 15, 40, 12), metrics=["mean_median", "mean_thirdian", "partisan_bias"]), ["mean_median"], bounds="5 districts, arbitrary integer votes"),
    Case("k3-anyturnout", h, dict(turnout=(None, None, None), metrics=["efficiency_gap"]), ["efficiency_gap"], bounds="3 districts, arbitrary turnout and votes"),
    *[Case(f"k{k}-large", h, dict(turnout=tuple((64, 16, 128, 32)[i % 4] for i in range(k)), free=(k // 2,)), list(METRICS), bounds=f"{k} districts, arbitrary integer votes in one of them, the others given") for k in (6, 7, 8, 9, 10, 11, 13, 18)],
    Case("wasted", h_wasted, dict(real=False), ["wasted"], bounds="arbitrary nonnegative integer votes"),
    Case("wasted-real", h_wasted, dict(real=True), ["wasted"], bounds="arbitrary nonnegative real votes"),
    Case("moves", h_moves, {}, ["moved"], bounds="4 nodes, 2 districts, one arbitrary flip, arbitrary votes"),
    Case("moves3", h_moves, dict(pattern=(0, 0, 1, 1, 2)), ["moved"], bounds="5 nodes, 3 districts, one arbitrary flip, arbitrary votes"),
]
