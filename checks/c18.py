import math
from checks.lib import *
from gerrychain.accept import always_accept, cut_edge_accept
from gerrychain.optimization import SingleMetricOptimizer as SMO


def cutcount(lab, nodes, edges):
    return Count([ne(lab[nodes[i]], lab[nodes[j]]) for i, j in edges])


def verdict(ctx, got, prob, what):
    """got == (a draw uniform in [0,1) falls below prob); a rule that draws nothing must be certain"""
    ctx.check(got is True or got is False or type(got).__name__ == "bool_", "the rule does not answer with a truth value")
    if ctx.draws:
        r = ctx.draws[-1]
        ctx.check(len(ctx.draws) == 1, "the rule draws more than once")
        ctx.check(Iff(bool(got), lt(r, prob)), what)
        ctx.cover("drawn")
    else:
        ctx.check(ge(prob, 1) if got else le(prob, 0), what + " (without a draw)")
    ctx.cover("accepted" if got else "rejected")


def h_cut(ctx, n=3, edges=None, kind="int", steps=1, L=2):
    fresh()
    nodes = ids(n, kind)
    lab = {v: ctx.label(f"a{i}", 0, L - 1) for i, v in enumerate(nodes)}
    # all L districts exist so that flips have somewhere to go
    for k in range(L):
        ctx.assume(Or([eq(lab[v], k) for v in nodes]))
    p = Partition(mkgraph(nodes, edges), dict(lab))
    if steps == 0:
        ctx.check(bool(cut_edge_accept(p)), "an initial state is not accepted")
        ctx.check(always_accept(p) is True, "always_accept does not accept")
        ctx.cover("initial")
        return
    for s in range(steps):
        old = dict(lab)
        fl = {}
        for i, v in enumerate(nodes):
            if ctx.flag(f"move{s}_{i}"):
                fl[v] = ctx.label(f"to{s}_{i}", 0, L - 1)
        lab.update(fl)
        c0, c1 = cutcount(old, nodes, edges), cutcount(lab, nodes, edges)
        ctx.assume(ge(c1, 1))
        q = p.flip(dict(fl))
        ctx.draws.clear()
        ctx.check(always_accept(q) is True, "always_accept does not accept")
        ctx.check(not ctx.draws, "always_accept draws")
        got = cut_edge_accept(q)
        # r < min(1, c0/c1)  (r < 1 always)
        if ctx.draws:
            ctx.check(Iff(bool(got), Or(ge(c0, c1), lt(ctx.draws[-1] * c1, c0))), "the Metropolis rule is not 'draw < min(1, old cut edges / new cut edges)'")
            ctx.cover("drawn")
        else:
            ctx.check(ge(c0, c1) if got else eq(c0, 0), "the Metropolis rule decides without a draw")
        ctx.cover("accepted" if got else "rejected")
        p = q


def h_wide(ctx, n=1100, up=True):
    """one leaf of a wide star moves: the draw decides, however close to 1 the ratio is"""
    fresh()
    lab = {v: 1 for v in range(n)}
    lab[0] = 0
    lab[n - 1] = 0 if up else 1
    p = Partition(mkgraph(list(range(n)), star(n)), lab)
    q = p.flip({n - 1: 1 if up else 0})
    c0, c1 = (n - 2, n - 1) if up else (n - 1, n - 2)
    got = cut_edge_accept(q)
    if ctx.draws:
        ctx.check(Iff(bool(got), lt(ctx.draws[-1] * c1, c0)), "the Metropolis rule is not 'draw < min(1, old cut edges / new cut edges)'")
    else:
        ctx.check(got if c0 >= c1 else False, "the Metropolis rule decides without a draw")
    ctx.cover("accepted" if got else "rejected")


class World:
    """Proposals whose scores are unknown numbers (or the given ones)."""

    def __init__(self, ctx, scores=None, valid=True):
        fresh()
        self.ctx, self.scores, self.keep, self.sc = ctx, scores, [], {}
        g = mkgraph([0, 1], path(2))
        self.p = Partition(g, {0: 0, 1: 1})
        self.name(self.p)
        self.log = []

    def name(self, q):
        k = len(self.keep)
        self.keep.append(q)
        self.sc[id(q)] = self.scores[k] if self.scores is not None else self.ctx.num(f"score{k}")

    def propose(self, p):
        q = p.flip({0: len(self.keep) % 2})
        self.name(q)
        self.log.append((p, q))
        return q

    def score(self, q):
        return self.sc[id(q)]


def ok(p):
    return True


def h_rule(ctx, rule="tilted", maximize=True, T=3, p=0.25, mag=1, beta=None, scores=None, symp=False):
    """The decisions of a run follow the rule, step after step (through the public runs)."""
    if isinstance(scores, dict):
        scores = [ctx.choose(f"s{k}", scores["of"]) for k in range(T)]
    w = World(ctx, scores)
    o = SMO(w.propose, ok, w.p, w.score, maximize=maximize)
    if symp:
        p = ctx.real("p")
        ctx.assume(And(ge(p, 0), le(p, 1)))
    asked = []

    def beta_fn(t):
        asked.append(t)
        return b[len(asked) - 1]

    if rule == "annealing":
        if beta == "any":
            b = [ctx.real(f"beta{k}") for k in range(2 * T)]
            for x in b:
                ctx.assume(And(ge(x, 0), le(x, 1)))
        else:
            b = [ctx.choose(f"beta{k}", beta) for k in range(T - 1)] * 2
        run = o.simulated_annealing(T, beta_fn, mag)
    elif rule == "tilted":
        run = o.tilted_run(T, p)
    else:
        run = o.tilted_short_bursts(T, 1, p)
    cur, moved = w.p, 0
    for k in range(T):
        ctx.draws.clear()
        w.log.clear()
        asked.clear()
        if k and rule == "annealing":
            b = b[1:]
        try:
            y = next(run)
        except StopIteration:
            ctx.fail("the run stopped early")
        if k == 0:
            ctx.check(y is w.p, "the run does not begin with the initial plan")
            continue
        ctx.check(len(w.log) == 1 and w.log[0][0] is cur, "not one proposal from the current plan per step")
        cand = w.log[0][1]
        ctx.check(y is cand or y is cur, "an unknown plan is produced")
        got = y is cand
        new, old = w.sc[id(cand)], w.sc[id(cur)]
        better = ge(new, old) if maximize else le(new, old)
        if rule != "annealing":
            better = ctx.branch(better)
            if better:
                ctx.check(got, "a plan that scores no worse is not accepted")
                ctx.cover("better")
            else:
                verdict(ctx, got, p, "a worse plan is not accepted with probability p")
        else:
            ctx.check(len(asked) >= 1, "the temperature was not asked for")
            ctx.check(all(t == moved + 1 for t in asked), "the temperature is not that of the proposed plan's step")
            worse = (old - new) if maximize else (new - old)
            e = -b[0] * mag * worse
            if ctx.branch(ge(e, 0)):
                ctx.check(got, "a plan that scores no worse (or any plan, when hot) is not accepted")
                ctx.cover("better")
            else:
                verdict(ctx, got, math.exp(e), "a worse plan is not accepted with probability exp(-beta * magnitude * loss)")
        if got:
            moved += 1
        cur = y
    try:
        next(run)
    except StopIteration:
        return
    ctx.fail("the run goes on")


LOGIT = lambda x: (math.log(x / (1 - x)) + 5) / 10


def clamp(x):
    return min(1, max(0, x))


def h_beta(ctx, kind="jumpcycle", hot=2, cool=3, cold=2, cycles=2):
    """A temperature schedule at an arbitrary step."""
    L = hot + (2 * cool if kind in ("linearcycle", "logitcycle") else 0 if kind == "jumpcycle" else cool) + cold
    f = getattr(SMO, kind + "_beta_function")
    f = f(hot, cold) if kind == "jumpcycle" else f(hot, cool, cold)
    t = ctx.pick("step", cycles * L) if "logit" in kind else ctx.num("step", 0, cycles * L - 1)
    y = f(t)
    k = t % L
    want = {}
    for i in range(L):
        if i < hot:
            v = 0
        elif kind == "jumpcycle":
            v = 1
        elif i < hot + cool:
            if "logit" in kind:
                v = 0 if i == hot else clamp(LOGIT((i - hot) / cool))
            else:
                v = (i - hot, cool)
        elif i < hot + cool + cold or kind in ("linear_jumpcycle", "logit_jumpcycle"):
            v = 1
        else:
            j = i - hot - cool - cold
            v = (cool - j, cool) if kind == "linearcycle" else (1 if j == 0 else clamp(1 - LOGIT(j / cool)))
        want[i] = v
    for i, v in want.items():
        if ctx.branch(eq(k, i)):
            v = Rat(*v) if isinstance(v, tuple) else v
            ctx.check(And(ge(y, 0), le(y, 1)), "a temperature outside [0, 1]")
            if "logit" in kind:
                ctx.check(le(Abs(y - v), 0.0000009536743), f"wrong temperature in phase {i} of the cycle")
            else:
                ctx.check(eq(y, v), f"wrong temperature in phase {i} of the cycle")
            ctx.cover(f"phase {i}")
            return
    ctx.fail("no phase")


ASSUMPTIONS = ["exp and log are uninterpreted (with sign, order and overflow axioms) where their argument is symbolic", "cut_edge_accept is asked about plans with at least one cut edge"]
CASES = [
    Case("cut-initial", h_cut, dict(n=3, edges=path(3), steps=0), ["initial"], bounds="path of 3, every plan"),
    Case("cut-p3", h_cut, dict(n=3, edges=path(3)), ["drawn", "accepted", "rejected"], bounds="path of 3, every plan, move and draw"),
    Case("cut-p3-two", h_cut, dict(n=3, edges=path(3), kind="str", steps=2), ["drawn", "accepted", "rejected"], bounds="path of 3, two moves in a row"),
    Case("cut-k3", h_cut, dict(n=3, edges=complete(3), kind="tuple"), ["drawn", "accepted"], bounds="triangle"),
    Case("cut-star", h_cut, dict(n=4, edges=star(4), kind="shuffled"), ["drawn", "accepted", "rejected"], bounds="star of 4"),
    Case("cut-c4", h_cut, dict(n=4, edges=cycle(4)), ["drawn", "accepted", "rejected"], bounds="cycle of 4"),
    Case("cut-star-3", h_cut, dict(n=4, edges=star(4), L=3), ["drawn", "accepted", "rejected"], bounds="star of 4, 3 districts"),
    Case("cut-wide", h_wide, dict(n=1500), ["accepted", "rejected"], bounds="1498 to 1499 cut edges, every draw"),
    Case("cut-wide-down", h_wide, dict(n=1500, up=False), ["accepted"], bounds="1499 to 1498 cut edges, every draw"),
    Case("cut-house", h_cut, dict(n=5, edges=[(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]), ["drawn", "accepted", "rejected"], thorough=True, bounds="house"),
]
for mx in (True, False):
    m = "max" if mx else "min"
    CASES += [
        Case(f"tilted-{m}", h_rule, dict(rule="tilted", maximize=mx, T=3, symp=True), ["better", "drawn", "accepted", "rejected"], bounds="3 states, arbitrary scores, p and draws"),
        Case(f"tilted-long-{m}", h_rule, dict(rule="tilted", maximize=mx, T=5, p=0.25), ["better", "drawn", "accepted", "rejected"], bounds="5 states, arbitrary scores and draws"),
        Case(f"tilted-burst-{m}", h_rule, dict(rule="bursts", maximize=mx, T=3, symp=True), ["better", "drawn", "accepted", "rejected"], bounds="one burst of 3 states, arbitrary scores, p and draws"),
        Case(f"anneal-{m}", h_rule, dict(rule="annealing", maximize=mx, T=3, beta="any", mag=2), ["better", "drawn", "accepted", "rejected"], bounds="3 states, arbitrary scores, temperatures and draws; exp uninterpreted"),
        Case(f"anneal-hard-{m}", h_rule, dict(rule="annealing", maximize=mx, T=3, beta="any", mag=1000000), ["better", "drawn", "accepted", "rejected"], bounds="3 states, arbitrary scores, temperatures and draws; exp uninterpreted; magnitude 10^6"),
        Case(f"anneal-exp-hard-{m}", h_rule, dict(rule="annealing", maximize=mx, T=3, beta=[0.5, 1.0], mag=4096, scores={"of": [0, 0.000244140625, 0.00048828125]}), ["better", "drawn", "accepted", "rejected"], bounds="scores and temperatures from a short list, arbitrary draws; exp computed; magnitude 4096"),
        Case(f"anneal-exp-soft-{m}", h_rule, dict(rule="annealing", maximize=mx, T=3, beta=[0.5, 1.0], mag=0.0009765625, scores={"of": [0, 512, 4096]}), ["better", "drawn", "accepted", "rejected"], bounds="scores and temperatures from a short list, arbitrary draws; exp computed; magnitude 1/1024"),
        Case(f"anneal-exp-{m}", h_rule, dict(rule="annealing", maximize=mx, T=3, beta=[0, 0.5, 1.0], mag=0.5, scores={"of": [0, 1, 3, 4000]}), ["better", "drawn", "accepted", "rejected"], bounds="scores and temperatures from a short list, arbitrary draws; exp computed"),
        Case(f"anneal-exp4-{m}", h_rule, dict(rule="annealing", maximize=mx, T=4, beta=[0.25, 1], mag=3, scores={"of": [0, 1, 2]}), ["better", "drawn", "accepted", "rejected"], thorough=True, bounds="scores and temperatures from a short list, arbitrary draws; exp computed"),
    ]
for kind in ("jumpcycle", "linearcycle", "linear_jumpcycle", "logitcycle", "logit_jumpcycle"):
    for hot, cool, cold in [(2, 3, 2), (0, 2, 3), (3, 1, 0), (1, 4, 1), (2, 0, 2), (4, 7, 3), (1, 0, 0), (0, 1, 1), (1, 1, 0), (0, 0, 1), (1, 12, 2)]:
        L = hot + (2 * cool if kind in ("linearcycle", "logitcycle") else 0 if kind == "jumpcycle" else cool) + cold
        if L and (cool or "logit" not in kind):
            CASES.append(Case(f"{kind}-{hot}-{cool}-{cold}", h_beta, dict(kind=kind, hot=hot, cool=cool, cold=cold), [f"phase {i}" for i in range(L)],
                              bounds="every step of two cycles; durations as given"))
    if "logit" not in kind:
        CASES.append(Case(f"{kind}-late", h_beta, dict(kind=kind, hot=3, cool=5, cold=4, cycles=10**6), ["phase 0"], bounds="every step of a million cycles; durations as given"))
for kind in ("logitcycle", "logit_jumpcycle"):
    # long enough for the logit to leave [0, 1] at both ends
    CASES.append(Case(f"{kind}-long", h_beta, dict(kind=kind, hot=1, cool=200, cold=2, cycles=1), ["phase 2", "phase 200", "phase 202"], bounds="every step of one cycle; durations 1, 200, 2"))
