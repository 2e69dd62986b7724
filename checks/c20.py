import contextlib
import io
import warnings
from checks.lib import *
from gerrychain.optimization import Gingleator as G
from gerrychain.updaters import Tally


def scored(ctx, kind, v, t, got):
    """compare got with the definition; decides on this path which districts reach the threshold"""
    up = [x for x in v if ctx.branch(ge(x, t))]
    lo = [x for x in v if not any(x is y for y in up)]
    n = len(up)
    tol = 1e-7

    def same(a, msg):
        ctx.check(le(Abs(got - a), tol), msg)

    if kind == "num_opportunity_dists":
        ctx.check(eq(got, n), "not the number of districts at or above the threshold")
    elif kind == "reward_partial_dist":
        same(n + (Max(lo) if lo else 0), "not the number of opportunity districts plus the next highest share")
    elif kind == "reward_next_highest_close":
        if not lo:
            same(n, "not the number of opportunity districts when all reach the threshold")
        else:
            m = Max(lo)
            bonus = (m - t + 0.1) * 10
            # continuous where the last tenth begins: the same within the tolerance on either side
            same(n + Ite(gt(bonus, 0), bonus, 0), "the next highest share is not scaled from 0 to 1 over the last tenth below the threshold")
            ctx.cover("close" if ctx.branch(gt(bonus, 0.01)) else "far")
    elif kind == "penalize_maximum_over":
        same(n + Div(1 - Max(up), 1 - t) if up else 0, "not the number of opportunity districts plus (1 - highest share) / (1 - threshold)")
    elif kind == "penalize_avg_over":
        same(n + Div(1 - Div(Sum(up), n), 1 - t) if up else 0, "not the number of opportunity districts plus (1 - average share of them) / (1 - threshold)")
    ctx.cover("all" if not lo else "none" if not up else "some")


class Part(dict):
    """only what a score function looks at"""


def h_score(ctx, kind="num_opportunity_dists", n=3, t=0.5, symt=False, free=None):
    if free is None:
        v = [ctx.real(f"share{i}") for i in range(n)]
    else:
        places = list(itertools.combinations(range(n), free))
        at = places[ctx.pick("places", len(places))]
        v = [ctx.real(f"share{i}") if i in at else Rat([5, 3, 4, 6, 2][i % 5], 8) for i in range(n)]
    for x in v:
        ctx.assume(And(ge(x, 0), le(x, 1)))
    if symt:
        t = ctx.real("threshold")
        ctx.assume(And(gt(t, 0), lt(t, 1)))
    got = getattr(G, kind)(Part(mp=dict(enumerate(v))), "mp", t)
    scored(ctx, kind, v, t, got)


def h_gingleator(ctx, n=3, edges=None, pattern=(0, 1, 1), kind=None, t=0.5, L=2, own=False, name=None, steps=1, tots=(4, 8, 2, 16)):
    """Through the class: percentages of the current districts, along a history of plans."""
    fresh()
    nodes = ids(n, "str")
    tot = [ctx.num(f"tot{i}", 1) for i in range(n)] if tots is None else list(tots[:n])
    mino = [ctx.num(f"min{i}", 0) for i in range(n)]
    g = mkgraph(nodes, edges, {"TOTPOP": tot, "VAP": tot, "MIN": mino})
    lab = {v: pattern[i] for i, v in enumerate(nodes)}
    col = "VAP" if name else "TOTPOP"
    ups = {col: Tally(col, alias=col), "MIN": Tally("MIN", alias="MIN")}
    if own:
        ups["mine"] = lambda p: {k: p["MIN"][k] * 2 for k in p.parts}
    p = Partition(g, dict(lab), updaters=ups)
    kw = {}
    if kind:
        kw["score_function"] = getattr(G, kind)
    if name:
        kw.update(total_pop_col="VAP", min_perc_column_name=name)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        if own:
            o = G(None, lambda q: True, p, minority_perc_col="mine", minority_pop_col="MIN" if own == "both" else None, threshold=t, **kw)
            ctx.check((len(wl) > 0) == (own == "both"), "a warning exactly when both columns are given")
        else:
            o = G(None, lambda q: True, p, minority_pop_col="MIN", threshold=t, **kw)
            ctx.check(not wl, "an unexpected warning")
    for s in range(steps + 1):
        if s:
            fl = {}
            for i, v in enumerate(nodes):
                if ctx.flag(f"move{s}_{i}"):
                    fl[v] = ctx.pick(f"to{s}_{i}", L)
            new = dict(lab, **fl)
            if len(set(new.values())) < L:
                ctx.prune()
            lab = new
            p = p.flip(fl)
        vals = []
        for k in range(L):
            m = Sum([mino[i] for i, v in enumerate(nodes) if lab[v] == k])
            if own:
                vals.append(m * 2)
            else:
                vals.append(Div(m, Sum([tot[i] for i, v in enumerate(nodes) if lab[v] == k])))
        if not own:
            perc = p[name or "_gingleator_auxiliary_helper_updater_min_perc_col"]
            ctx.check(set(perc) == set(range(L)), "the percentages are not given for every district")
            for k in range(L):
                ctx.check(eq(perc[k], vals[k]), "a district's percentage is not its minority over its total population")
        if tots is None:
            ctx.cover(f"step {s}")
            continue
        got = o.score(p)
        n_up = Count([ge(x, t) for x in vals])
        if kind is None:
            ctx.check(eq(got, n_up), "the score is not the number of opportunity districts")
        else:
            scored(ctx, kind, vals, t, got)
        ctx.cover(f"step {s}")


def h_two(ctx, first="MIN", second="OTHER", asked=True, third=None):
    """Two of them on one initial plan, about different minorities (or totals)."""
    fresh()
    n, nodes = 3, ids(3, "int")
    tot, vap = [4, 8, 2], [2, 4, 1]
    data = {"TOTPOP": tot, "VAP": vap, "MIN": [ctx.num(f"min{i}", 0, 8) for i in range(n)], "OTHER": [ctx.num(f"oth{i}", 0, 8) for i in range(n)]}
    lab = {0: 0, 1: 1, 2: 1}
    p = Partition(mkgraph(nodes, path(3), data), dict(lab), updaters={c: Tally(c, alias=c) for c in data})
    cols = [(first, "TOTPOP"), (second, "TOTPOP" if second != first else "VAP")] + list(third or [])
    o = []
    for m, t in cols:
        o.append(G(None, lambda q: True, p, minority_pop_col=m, total_pop_col=t, score_function=G.reward_partial_dist))
        if asked:
            o[-1].score(p)
    q = p.flip({1: 0})
    for part, l in ((p, lab), (q, {0: 0, 1: 0, 2: 1})):
        for k, (m, t) in enumerate(cols):
            vals = [Div(Sum([data[m][i] for i in nodes if l[i] == d]), sum(data[t][i] for i in nodes if l[i] == d)) for d in (0, 1)]
            scored(ctx, "reward_partial_dist", vals, 0.5, o[k].score(part))
    ctx.cover("both")


def h_ctor(ctx):
    fresh()
    p = Partition(mkgraph([0, 1], path(2)), {0: 0, 1: 1})
    ctx.raises(ValueError, lambda: G(None, lambda q: True, p), "neither column given")
    ctx.cover("refused")


def h_optimize(ctx, T=3):
    """Gingleator maximizes."""
    fresh()
    p = Partition(mkgraph([0, 1, 2], path(3)), {0: 0, 1: 0, 2: 1}, updaters={"mp": lambda q: q.__dict__.setdefault("mp", {0: 0, 1: 1})})
    keep, sh = [], {}

    def prop(q):
        r = q.flip({1: len(keep) % 2})
        keep.append(r)
        return r

    def share(q):
        if id(q) not in sh:
            keep.append(q)
            sh[id(q)] = {k: ctx.real(f"share{len(sh)}_{k}") for k in (0, 1)}
        return sh[id(q)]

    p.updaters["mp"] = share
    o = G(prop, lambda q: True, p, minority_perc_col="mp")
    seen = []
    cnt = lambda q: Count([ge(x, 0.5) for x in share(q).values()])
    for y in o.short_bursts(T, 1):
        seen.append(y)
    best = o.best_part
    for y in seen:
        ctx.check(ge(o.best_score, cnt(y)), "a plan with more opportunity districts was seen")
    ctx.check(eq(o.best_score, cnt(best)), "best_score is not the best plan's number of opportunity districts")
    ctx.cover("run")


ASSUMPTIONS = ["shares lie in [0, 1] and the threshold strictly between"]
CASES = []
KINDS = ["num_opportunity_dists", "reward_partial_dist", "reward_next_highest_close", "penalize_maximum_over", "penalize_avg_over"]
for k in KINDS:
    extra = ["far", "close"] if k == "reward_next_highest_close" else []
    for n in (1, 2, 3, 4):
        CASES.append(Case(f"{k}-{n}", h_score, dict(kind=k, n=n), (["all", "none"] + (["some"] if n > 1 else []) + extra), thorough=n > 3, bounds=f"{n} districts, arbitrary shares, threshold 0.5"))
    CASES.append(Case(f"{k}-t", h_score, dict(kind=k, n=2, symt=True), ["all", "none", "some"], bounds="2 districts, arbitrary shares and threshold"))
    CASES.append(Case(f"{k}-t38", h_score, dict(kind=k, n=2, t=0.375), ["all", "none", "some"], bounds="2 districts, arbitrary shares, threshold 0.375"))
    CASES.append(Case(f"class-{k}", h_gingleator, dict(edges=path(3), kind=k), ["step 0", "step 1"], bounds="3 nodes, 2 districts, arbitrary minority populations, any move"))
for k in KINDS:
    CASES.append(Case(f"{k}-5", h_score, dict(kind=k, n=5, free=2), ["some"], bounds="5 districts, two of arbitrary share at arbitrary places, the others given"))
CASES += [
    Case("class-shares", h_gingleator, dict(edges=path(3), tots=None), ["step 1"], bounds="3 nodes, arbitrary populations; the shares only"),
    Case("class-default", h_gingleator, dict(edges=path(3), steps=2), ["step 2"], thorough=True, bounds="3 nodes, 2 moves, arbitrary minority populations"),
    Case("class-4", h_gingleator, dict(n=4, edges=star(4), pattern=(0, 1, 2, 1), L=3), ["step 1"], bounds="4 nodes, 3 districts, arbitrary minority populations"),
    Case("class-names", h_gingleator, dict(edges=path(3), name="mp", t=0.375), ["step 1"], bounds="own column names and threshold"),
    Case("class-own", h_gingleator, dict(edges=path(3), own=True), ["step 1"], bounds="a caller's percentage updater"),
    Case("class-both", h_gingleator, dict(edges=path(3), own="both"), ["step 1"], bounds="both columns given"),
    Case("two", h_two, {}, ["both"], bounds="two optimizers of one plan, different minorities, arbitrary minority populations"),
    Case("two-later", h_two, dict(asked=False), ["both"], bounds="as 'two', both made before any score is asked"),
    Case("three", h_two, dict(third=[("MIN", "VAP"), ("OTHER", "VAP")]), ["both"], bounds="four optimizers of one plan"),
    Case("two-totals", h_two, dict(second="MIN"), ["both"], bounds="two optimizers of one plan, different totals"),
    Case("constructor", h_ctor, {}, ["refused"], bounds="no column given"),
    Case("optimize", h_optimize, {}, ["run"], bounds="3 plans, 2 districts, arbitrary shares"),
]
