import numpy
from checks.lib import *
from gerrychain.constraints import *
from gerrychain.constraints import Bounds
from gerrychain.updaters import Tally, county_splits


class Val:
    """A 'partition' that only carries one unknown number (bounds wrap any numeric function)."""

    def __init__(self, x):
        self.x = x


def get(s):
    return s.x


def h_validator(ctx, k=3):
    kinds = ["bool", "numpy", "int", "none", "str"]
    xs = [ctx.num(f"x{i}") for i in range(k)]
    ks = [ctx.choose(f"kind{i}", kinds) for i in range(k)]
    calls = []

    def mk(i):
        def c(part):
            calls.append(i)
            r = bool(xs[i] > 0)
            return {"bool": r, "numpy": numpy.bool_(r), "int": int(r), "none": None, "str": "True" if r else ""}[ks[i]]

        return c

    v = Validator([mk(i) for i in range(k)])
    proper = [s in ("bool", "numpy") for s in ks]
    allok = And([gt(x, 0) for x in xs])
    for _ in range(2):
        try:
            r = v(object())
        except TypeError:
            # some constraint answered with a non-boolean before any proper one failed
            i = next((j for j in range(k) if not proper[j]), None)
            ctx.check(i is not None, "TypeError although every constraint answered a boolean")
            ctx.cover("type error")
            continue
        ctx.check(r is True or r is False, "a Validator must answer True or False")
        if r:
            ctx.check(all(proper), "a non-boolean answer passed as valid")
            ctx.check(allok, "valid although a constraint failed")
            ctx.cover("valid")
        else:
            ctx.check(Or([And(proper[i], le(xs[i], 0)) for i in range(k)]), "invalid although no constraint failed")
            ctx.cover("invalid")
    ctx.check(Validator([])(object()) is True, "no constraints means valid")


def h_bounds(ctx, k=3, real=False):
    mk = ctx.real if real else ctx.num
    lo, hi = mk("lo"), mk("hi")
    xs = [mk(f"x{i}") for i in range(k)]
    b = Bounds(lambda p: p.x, (lo, hi))
    r = b(Val(list(xs)))
    ctx.check(Iff(bool(r), And([And(le(lo, x), le(x, hi)) for x in xs])), "Bounds is not 'every value within [lower, upper]'")
    r = Bounds(lambda p: p.x, bounds=(lo, hi))(Val({i: x for i, x in enumerate(xs)}.values()))
    ctx.check(Iff(bool(r), And([And(le(lo, x), le(x, hi)) for x in xs])), "Bounds over dict values")
    u, l = UpperBound(get, hi), LowerBound(get, lo)
    for x in xs:
        ctx.check(Iff(bool(u(Val(x))), le(x, hi)), "UpperBound is not 'value <= bound'")
        ctx.check(Iff(bool(l(Val(x))), ge(x, lo)), "LowerBound is not 'value >= bound'")
    ctx.cover("in" if r else "out")


def h_self(ctx, k=3, real=True):
    """Bounds that take their limits from the first value they see."""
    mk = ctx.real if real else ctx.num
    xs = [mk(f"x{i}") for i in range(k)]
    e = ctx.real("eps", 0)
    up, lowe, low = SelfConfiguringUpperBound(get), SelfConfiguringLowerBound(get, e), SelfConfiguringLowerBound(get)
    other = SelfConfiguringUpperBound(get)
    y = mk("y")
    other(Val(y))
    for i, x in enumerate(xs):
        ctx.check(Iff(bool(up(Val(x))), le(x, xs[0])), "SelfConfiguringUpperBound: not 'value <= first value'")
        ctx.check(Iff(bool(lowe(Val(x))), ge(x, xs[0] - e)), "SelfConfiguringLowerBound: not 'value >= first value - epsilon'")
        r = bool(low(Val(x)))
        ctx.check(And(Implies(r, ge(x, xs[0] - Rat(5 * 10**10 + 1, 10**12))), Implies(not r, lt(x, xs[0] - Rat(5 * 10**10 - 1, 10**12)))),
                  "SelfConfiguringLowerBound: default epsilon is 0.05")
        ctx.check(Iff(bool(other(Val(x))), le(x, y)), "two bounds share their limits")
    ctx.cover("self")


def h_percent(ctx, k=3, pct=None):
    xs = [ctx.real(f"x{i}") for i in range(k)]
    ctx.assume(ge(xs[0], 0))
    p = ctx.real("pct", 0, 100) if pct is None else pct
    w = WithinPercentRangeOfBounds(get, p)
    q = p / 100 if type(p) is Sym else E.Fraction(float(p) / 100)
    if type(q) is not Sym:
        q = Rat(q.numerator, q.denominator)
    for i, x in enumerate(xs):
        r = bool(w(Val(x)))
        if i == 0:
            ctx.check(r, "the first value is within its own range")
        else:
            ctx.check(Iff(r, And(ge(x, xs[0] * (1 - q)), le(x, xs[0] * (1 + q)))), "WithinPercentRangeOfBounds: not 'within percent of the first value'")
            ctx.cover("in" if r else "out")


def pops(ctx, lab, nodes, pop, k):
    return {d: Sum(Ite(eq(lab[v], d), pop[v], 0) for v in nodes) for d in k}


def h_pop(ctx, n=4, edges=None, pattern=(0, 0, 1, 1), steps=(1,), key="population", tol=None, concrete=True):
    """Population constraints of real partitions, before and after arbitrary flips."""
    fresh()
    nodes = ids(n)
    pop = {v: ctx.num(f"p{i}", 0) for i, v in enumerate(nodes)}
    total = Sum(pop.values())
    ctx.assume(gt(total, 0))
    tol = ctx.real("tol", 0) if tol is None else tol
    t = tol if type(tol) is Sym else Rat(E.Fraction(tol).numerator, E.Fraction(tol).denominator)
    slack = 0  # decimal defaults are not exact binary fractions
    lab = concrete_labels(nodes, list(pattern)) if concrete else labels(ctx, nodes, list(pattern))
    g = mkgraph(nodes, edges, {"pop": [pop[v] for v in nodes]})
    p = Partition(g, dict(lab), {key: Tally("pop", alias=key)})
    if key == "population" and ctx.flag("defaults"):
        con = within_percent_of_ideal_population(p)
        t, slack = Rat(1, 100), Rat(1, 10**12)
    else:
        con = within_percent_of_ideal_population(p, tol, key)
    k = len(p.parts)
    exist = list(p.parts)
    hist = [(p, lab)]
    for s, m in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, m, f"s{s}", concrete=concrete)
        p = p.flip(f)
        lab = apply_flips(lab, f)
        hist.append((p, lab))
    for q, l in hist:
        dist = pops(ctx, l, nodes, pop, exist)
        def want(t):
            return And([And(ge(x * k, (1 - t) * total), le(x * k, (1 + t) * total)) for x in dist.values()])
        r = bool(con(q))
        ctx.check(And(Implies(r, want(t + slack)), Implies(not r, Not(want(t - slack)))), "within_percent_of_ideal_population: not 'every district within the tolerance of total/districts'")
        dev = deviation_from_ideal(q, key)
        ctx.check(len(dev) == len(dist), "deviation_from_ideal: not one entry per district")
        for d, x in dist.items():
            ctx.check(eq(dev[d], Div(x * k - total, total)), "deviation_from_ideal is not (value - ideal)/ideal")
        ctx.cover("within" if r else "outside")


def h_tol(ctx, k=3, pct=0.1):
    """districts_within_tolerance for arbitrary district totals."""
    fresh()
    xs = [ctx.num(f"x{i}", 0) for i in range(k)]
    nodes = ids(k)
    g = mkgraph(nodes, path(k), {"pop": xs})
    p = Partition(g, {v: v for v in nodes}, {"population": Tally("pop", alias="population"), "other": Tally("pop", alias="other")})
    if pct is None:
        pc = ctx.real("pct", 0, 100)
        q = Ite(ge(pc, 1), pc * Rat(1, 100), pc)
        key = "other"
        r = districts_within_tolerance(p, key, pc)
        # 0.01 is not exactly 1/100: stay off the rounding boundary
        d = Max(xs) - Min(xs)
        ctx.check(Implies(bool(r), le(d, q * Min(xs) * Rat(10**12 + 1, 10**12))), "accepted although the spread exceeds the tolerance")
        ctx.check(Implies(not bool(r), gt(d * Rat(10**12 + 1, 10**12), q * Min(xs))), "refused although the spread is within the tolerance")
    else:
        r = districts_within_tolerance(p) if pct == 0.1 else districts_within_tolerance(p, "population", pct)
        n_, d_ = (E.Fraction(pct).numerator, E.Fraction(pct).denominator) if pct != 0.1 else (1, 10)
        sl = 1 if pct == 0.1 else 0
        d = Max(xs) - Min(xs)
        ctx.check(And(Implies(bool(r), le(d, (Rat(n_, d_) + Rat(sl, 10**12)) * Min(xs))),
                      Implies(not bool(r), Not(le(d, (Rat(n_, d_) - Rat(sl, 10**12)) * Min(xs))))), "districts_within_tolerance: not 'max - min <= percentage * min'")
    ctx.cover("within" if r else "outside")


def h_vanish(ctx, n=3, edges=None, pattern=None, steps=(1, 1)):
    fresh()
    nodes = ids(n)
    lab = labels(ctx, nodes, pattern)
    p = Partition(mkgraph(nodes, edges), dict(lab))
    exist = list(p.parts)
    ctx.check(bool(no_vanishing_districts(p)) is True, "a first partition has no vanished districts")
    for s, m in enumerate(steps):
        f = arbitrary_flips(ctx, nodes, exist, m, f"s{s}")
        p = p.flip(f)
        lab = apply_flips(lab, f)
        r = no_vanishing_districts(p)
        ctx.check(Iff(bool(r), And([Or([eq(lab[v], d) for v in nodes]) for d in exist])), "no_vanishing_districts: not 'every district keeps a node'")
        ctx.cover("kept" if r else "vanished")


def h_splits(ctx, n=4, edges=None, cty="aabb", pattern=(0, 0, 1, 1), steps=(1,)):
    """refuse_new_splits on the first partition and one move later."""
    fresh()
    nodes = ids(n)
    lab = labels(ctx, nodes, None if pattern is None else list(pattern))
    g = mkgraph(nodes, edges, {"county": list(cty)})
    p = Partition(g, dict(lab), {"cs": county_splits("cs", "county")})
    con = refuse_new_splits("cs")

    def split(l, c):
        ms = [v for i, v in enumerate(nodes) if cty[i] == c]
        return Or([ne(l[ms[0]], l[v]) for v in ms[1:]])

    ctx.check(bool(con(p)) is True, "a first partition splits nothing anew")
    exist = list(p.parts)
    f = arbitrary_flips(ctx, nodes, exist, steps[0])
    l2 = apply_flips(lab, f)
    r = bool(con(p.flip(f)))
    ctx.check(Iff(r, And([Not(And(split(l2, c), Not(split(lab, c)))) for c in set(cty)])), "refuse_new_splits: not 'no county is split that was whole before'")
    ctx.cover("ok" if r else "refused")


ASSUMPTIONS = ["WithinPercentRangeOfBounds: the first value is nonnegative", "total population is positive"]
CASES = [
    Case("validator", h_validator, dict(k=2), ["valid", "invalid", "type error"], bounds="2 constraints answering bool, numpy bool, int, None or str, arbitrary verdicts"),
    Case("validator3", h_validator, dict(k=3), ["valid", "invalid", "type error"], bounds="3 constraints, as above"),
    Case("bounds3", h_bounds, dict(k=3), ["in", "out"], bounds="3 arbitrary integers, arbitrary limits"),
    Case("bounds2r", h_bounds, dict(k=2, real=True), ["in", "out"], bounds="2 arbitrary reals, arbitrary limits"),
    Case("bounds4", h_bounds, dict(k=4), ["in", "out"], bounds="4 arbitrary integers, arbitrary limits"),
    Case("self3", h_self, dict(k=3), ["self"], bounds="histories of 3 arbitrary reals (including 0 and negatives)"),
    Case("self2i", h_self, dict(k=2, real=False), ["self"], bounds="histories of 2 arbitrary integers"),
    Case("self4", h_self, dict(k=4), ["self"], thorough=True, bounds="histories of 4 arbitrary reals"),
    Case("percent", h_percent, dict(k=2), ["in", "out"], bounds="2 values, arbitrary percentage in [0,100], arbitrary reals, the first nonnegative (0 included)"),
    Case("percent10", h_percent, dict(k=3, pct=12.5), ["in", "out"], bounds="3 values, 12.5 percent"),
    Case("percent0", h_percent, dict(k=3, pct=0), ["in", "out"], bounds="3 values, 0 percent"),
    Case("pop-p4", h_pop, dict(edges=path(4), steps=(1,)), ["within", "outside"], bounds="path of 4, 2 districts, arbitrary populations and tolerance, one flip"),
    Case("pop-c5", h_pop, dict(n=5, edges=cycle(5), pattern=(0, 0, 1, 2, 2), steps=(1,), key="P"), ["within", "outside"], bounds="5-cycle, 3 districts, arbitrary populations and tolerance, one flip"),
    Case("pop-p4-10", h_pop, dict(edges=path(4), steps=(2,), tol=0.125, key="P", concrete=False), ["within", "outside"], bounds="path of 4, 2 arbitrary labels, arbitrary populations, tolerance 0.125, 2 nodes flipped"),
    Case("tol-default", h_tol, dict(k=3), ["within", "outside"], bounds="3 districts, arbitrary totals, default tolerance"),
    Case("tol-25", h_tol, dict(k=3, pct=0.25), ["within", "outside"], bounds="3 districts, arbitrary totals, tolerance 0.25"),
    Case("tol-any", h_tol, dict(k=2, pct=None), ["within", "outside"], bounds="2 districts, arbitrary totals and tolerance as fraction or percentage"),
    Case("vanish", h_vanish, dict(edges=path(3)), ["kept", "vanished"], bounds="path of 3, arbitrary labels, 2 flips"),
    Case("vanish4", h_vanish, dict(n=4, edges=path(4), steps=(2,), pattern=[0, 1, 1, 2]), ["kept", "vanished"], bounds="path of 4, 3 districts, 2 nodes flipped"),
    Case("splits", h_splits, dict(edges=path(4)), ["ok", "refused"], bounds="path of 4, 2 districts, 2 counties, one flip"),
    Case("splits-any", h_splits, dict(edges=path(4), pattern=None, cty="aabb"), ["ok", "refused"], bounds="path of 4, arbitrary districts, 2 counties, one flip"),
    Case("splits5", h_splits, dict(n=5, edges=path(5), pattern=(0, 0, 1, 1, 1), cty="aabbc", steps=(2,)), ["ok", "refused"], bounds="path of 5, 2 districts, 3 counties, 2 nodes flipped"),
    Case("splits3", h_splits, dict(n=5, edges=path(5), pattern=(0, 0, 0, 1, 2), cty="aaabc", steps=(2,)), ["ok", "refused"], bounds="path of 5, 3 districts, 3 counties, 2 nodes flipped"),
    Case("splits4", h_splits, dict(n=6, edges=path(6), pattern=(0, 0, 0, 0, 1, 2), cty="aaaabb", steps=(3,)), ["ok", "refused"], thorough=True, bounds="path of 6, 3 districts, 2 counties, 3 nodes flipped"),
]
