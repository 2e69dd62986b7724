import contextlib
import io
from checks.lib import *
from gerrychain.optimization import SingleMetricOptimizer as SMO
from gerrychain.updaters import cut_edges


class World:
    """Proposals with unknown scores, validity and acceptance."""

    def __init__(self, ctx, judge=False, accept=False, scores=None, chained=False, free=None):
        fresh()
        self.free = free
        self.ctx, self.keep, self.sc, self.verdicts, self.log = ctx, [], {}, {}, []
        self.judge, self.acc, self.scores = judge, accept, scores
        g = mkgraph([0, 1, 2], path(3))
        self.p = Partition(g, {0: 0, 1: 0, 2: 1}, updaters={"cut_edges": cut_edges})
        if chained:
            self.p = self.p.flip({1: 1})
        self.name(self.p)

    def name(self, q):
        k = len(self.keep)
        self.keep.append(q)
        self.sc[id(q)] = self.ctx.num(f"score{k}") if self.scores is None else self.scores[0] if self.free is not None and k not in self.free else self.ctx.choose(f"score{k}", self.scores)

    def propose(self, p):
        if len(self.log) > 2:
            self.ctx.prune()
        q = p.flip({1: len(self.keep) % 2})
        self.name(q)
        self.log.append((p, q))
        return q

    def constraint(self, q):
        if not self.judge or q is self.p:
            return True
        if id(q) not in self.verdicts:
            self.verdicts[id(q)] = bool(self.ctx.flag(f"valid{len(self.verdicts)}"))
        return self.verdicts[id(q)]

    def accept(self, q):
        r = self.ctx.flag(f"accept{len(self.keep)}") if self.acc else True
        self.log.append(("accept", q, bool(r)))
        return bool(r)

    def score(self, q):
        return self.sc[id(q)]


def follow(ctx, w, o, run, lengths, maximize):
    """lengths: iterator of burst lengths; every burst begins with the best plan so far."""
    best, total = w.p, 0
    cur = None
    fresh_burst = True
    for b in lengths:
        improved = False
        for k in range(b):
            w.log.clear()
            try:
                y = next(run)
            except StopIteration:
                ctx.fail(f"the run stopped after {total} plans")
            if k == 0:
                ctx.check(y is best, "a burst (or the run) does not begin with the best plan so far")
                ctx.check(not w.log, "something was proposed or judged before the first plan")
            else:
                props = [e for e in w.log if e[0] != "accept"]
                accs = [e for e in w.log if e[0] == "accept"]
                ctx.check(len(props) >= 1 and all(e[0] is cur for e in props), "a proposal is not made from the current plan")
                cand = props[-1][1]
                ctx.check(w.constraint(cand), "an invalid plan is considered")
                ctx.check(len(accs) == 1 and accs[0][1] is cand, "acceptance is not consulted once about the proposed plan")
                ctx.check(y is (cand if accs[0][2] else cur), "the plan produced is not the accepted or the current one")
            cur = y
            total += 1
            s, t = w.sc[id(y)], w.sc[id(best)]
            if y is not best and ctx.branch(ge(s, t) if maximize else le(s, t)):
                if ctx.branch(ne(s, t)):
                    improved = True
                    ctx.cover("improved")
                else:
                    ctx.cover("tie")
                best = y
            elif y is not best:
                ctx.cover("worse")
            ctx.check(o.best_part is best, "best_part is not the best plan seen (ties: the later one)")
            ctx.check(eq(o.best_score, w.sc[id(best)]), "best_score is not the best plan's score")
        if hasattr(lengths, "send_improved"):
            lengths.send_improved(improved)
    w.log.clear()
    for _ in range(2):
        try:
            next(run)
        except StopIteration:
            continue
        ctx.fail("the run goes on")
    ctx.check(not w.log, "a finished run still proposes")
    ctx.check(o.best_part is best and w.ctx.branch(eq(o.best_score, w.sc[id(best)])), "best_part changes after the run")


class Variable:
    def __init__(self, steps, buffer):
        self.left, self.buffer, self.length, self.stuck = steps, buffer, 2, 0

    def __iter__(self):
        return self

    def __next__(self):
        if self.left <= 0:
            raise StopIteration
        b = min(self.length, self.left)
        self.left -= b
        return b

    def send_improved(self, improved):
        self.stuck = 0 if improved else self.stuck + 1
        if self.stuck >= self.buffer:
            self.length *= 2
            self.stuck = 0


def start(ctx, w, o, mode, B, N, accept, bar):
    kw = dict(with_progress_bar=True) if bar else {}
    if mode == "bursts":
        return o.short_bursts(B, N, accept=w.accept, **kw), iter([B] * N)
    if mode == "variable":
        return o.variable_length_short_bursts(B, N, accept=w.accept, **kw), Variable(B, N)
    raise ValueError(mode)


def h_run(ctx, mode="bursts", B=2, N=2, maximize=True, judge=False, accept=False, scores=None, again=False, bar=False, chained=False, free=None):
    w = World(ctx, judge, accept, scores, chained, free)
    o = SMO(w.propose, w.constraint, w.p, w.score, maximize=maximize)
    err = io.StringIO()
    with contextlib.redirect_stderr(err):
        run, lengths = start(ctx, w, o, mode, B, N, accept, bar)
        follow(ctx, w, o, run, lengths, maximize)
        if again:
            run, lengths = start(ctx, w, o, again if isinstance(again, str) else mode, B, N, accept, bar)
            follow(ctx, w, o, run, lengths, maximize)
    ctx.cover("done")


def h_chainrun(ctx, mode="tilted", T=3, maximize=True, judge=False, bar=False, again=False, scores=None):
    """tilted_run and simulated_annealing: best tracking over whatever the chain produced."""
    w = World(ctx, judge, False, scores)
    o = SMO(w.propose, w.constraint, w.p, w.score, maximize=maximize)
    with contextlib.redirect_stderr(io.StringIO()):
        for rep in range(2 if again else 1):
            kw = dict(with_progress_bar=True) if bar else {}
            run = o.tilted_run(T, 0.5, **kw) if mode == "tilted" else o.simulated_annealing(T, lambda t: 1, 1, **kw) if mode == "annealing" else o.tilted_short_bursts(T, 1, 0.5, **kw)
            best, total = w.p, 0
            for y in run:
                w.log.clear()
                if total == 0:
                    ctx.check(y is w.p, "the run does not begin with the initial plan")
                total += 1
                s, t = w.sc[id(y)], w.sc[id(best)]
                if y is not best and ctx.branch(ge(s, t) if maximize else le(s, t)):
                    best = y
                    ctx.cover("improved")
                elif y is not best:
                    ctx.cover("worse")
                ctx.check(o.best_part is best, "best_part is not the best plan seen (ties: the later one)")
                ctx.check(eq(o.best_score, w.sc[id(best)]), "best_score is not the best plan's score")
            ctx.check(total == T, f"{total} plans instead of {T}")


ASSUMPTIONS = ["scores are numbers (arbitrary) and a fixed function of the plan"]
CASES = []
IW = ["improved", "tie", "worse"]
for mx in (True, False):
    m = "max" if mx else "min"
    CASES += [
        Case(f"bursts-2x2-{m}", h_run, dict(B=2, N=2, maximize=mx, judge=True, accept=True), IW, bounds="2 bursts of 2, arbitrary scores, validity and acceptance"),
        Case(f"bursts-3x2-{m}", h_run, dict(B=3, N=2, maximize=mx), IW, bounds="2 bursts of 3, arbitrary scores"),
        Case(f"bursts-3x2-acc-{m}", h_run, dict(B=3, N=2, maximize=mx, accept=True), IW, bounds="2 bursts of 3, arbitrary scores and acceptance"),
        Case(f"bursts-2x3-{m}", h_run, dict(B=2, N=3, maximize=mx, accept=True, chained=True), IW, bounds="3 bursts of 2, arbitrary scores and acceptance; the initial plan has a parent"),
        Case(f"bursts-1x3-{m}", h_run, dict(B=1, N=3, maximize=mx), ["done"], bounds="3 bursts of 1"),
        Case(f"bursts-again-{m}", h_run, dict(B=2, N=2, maximize=mx, again=True), IW, bounds="two runs on one optimizer"),
        Case(f"variable-again-{m}", h_run, dict(mode="variable", B=3, N=1, maximize=mx, again=True), IW, bounds="two runs of 3 steps on one optimizer"),
        Case(f"variable-then-bursts-{m}", h_run, dict(mode="variable", B=3, N=1, maximize=mx, again="bursts"), IW, bounds="a run of 3 steps with variable bursts, then one of a burst of 3"),
        Case(f"bursts-then-variable-{m}", h_run, dict(mode="bursts", B=3, N=1, maximize=mx, again="variable"), IW, bounds="a burst of 3, then a run of 3 steps with variable bursts"),
        Case(f"bursts-bar-{m}", h_run, dict(B=2, N=2, maximize=mx, bar=True), IW, bounds="with a progress bar"),
        Case(f"variable-1-{m}", h_run, dict(mode="variable", B=8, N=1, maximize=mx, scores=[1, 0]), IW, bounds="8 steps, buffer 1, scores 0 or 1"),
        Case(f"variable-2-{m}", h_run, dict(mode="variable", B=9, N=2, maximize=mx, scores=[1, 0]), IW, bounds="9 steps, buffer 2, scores 0 or 1"),
        Case(f"variable-any-{m}", h_run, dict(mode="variable", B=6, N=1, maximize=mx), IW, bounds="6 steps, buffer 1, arbitrary scores"),
        Case(f"variable-acc-{m}", h_run, dict(mode="variable", B=5, N=1, maximize=mx, accept=True, scores=[1, 0, 2]), IW, bounds="5 steps, arbitrary acceptance, scores from a list"),
        Case(f"variable-bar-{m}", h_run, dict(mode="variable", B=5, N=1, maximize=mx, bar=True), IW, bounds="with a progress bar"),
        Case(f"variable-long-{m}", h_run, dict(mode="variable", B=14, N=1, maximize=mx, scores=[1, 0]), IW, thorough=True, bounds="14 steps, scores 0 or 1"),
        Case(f"bursts-4x2-{m}", h_run, dict(B=4, N=2, maximize=mx), IW, thorough=True, bounds="2 bursts of 4, arbitrary scores"),
        Case(f"bursts-3x3-{m}", h_run, dict(B=3, N=3, maximize=mx), IW, thorough=True, bounds="3 bursts of 3, arbitrary scores"),
    ]
    up, down = (1, -1) if mx else (-1, 1)
    CASES += [
        Case(f"variable-improve-{m}", h_run, dict(mode="variable", B=60, N=1, maximize=mx, scores=[0, up, down, 2 * up], free=[5, 9, 20]), IW, bounds="60 steps, buffer 1, three plans of the run (the 5th, 9th and 20th proposal) better, worse or equal, all others equal to the initial one"),
        Case(f"variable-improve-3-{m}", h_run, dict(mode="variable", B=70, N=3, maximize=mx, scores=[0, up, down, 2 * up], free=[3, 13, 30]), IW, bounds="70 steps, buffer 3, three plans better, worse or equal"),
        Case(f"variable-fine-{m}", h_run, dict(mode="variable", B=60, N=1, maximize=mx, scores=[0, up * 0.5**20, 2 * up * 0.5**20, down * 0.5**20], free=[5, 9, 20]), IW, bounds="as variable-improve, improvements of a millionth"),
        Case(f"bursts-fine-{m}", h_run, dict(B=2, N=8, maximize=mx, scores=[0, up * 0.5**20, down * 0.5**20], free=[1, 4, 6, 7]), IW, bounds="8 bursts of 2, tiny differences of the scores"),
        Case(f"bursts-huge-{m}", h_run, dict(B=2, N=8, maximize=mx, scores=[10**17, 10**17 + up, 10**17 + down], free=[1, 4, 6, 7]), IW, bounds="8 bursts of 2, huge scores that differ by 1"),
        Case(f"bursts-many-{m}", h_run, dict(B=2, N=8, maximize=mx, scores=[0, up, down], free=[1, 4, 6, 7]), IW, bounds="8 bursts of 2, four plans better, worse or equal"),
        Case(f"bursts-wide-{m}", h_run, dict(B=12, N=6, maximize=mx, scores=[0, up, down], free=[9, 11, 14, 40, 50]), IW, bounds="6 bursts of 12, five plans better, worse or equal"),
    ]
    for mode in ("tilted", "annealing", "tilted-bursts"):
        CASES += [
            Case(f"{mode}-{m}", h_chainrun, dict(mode=mode, T=4, maximize=mx), ["improved", "worse"], bounds="4 states, arbitrary scores and draws"),
            Case(f"{mode}-again-{m}", h_chainrun, dict(mode=mode, T=2, maximize=mx, again=True, judge=True), ["improved", "worse"], bounds="two runs of 2 states"),
            Case(f"{mode}-bar-{m}", h_chainrun, dict(mode=mode, T=2, maximize=mx, bar=True), ["improved", "worse"], bounds="with a progress bar"),
        ]
CASES += [Case("variable-1-deep", h_run, dict(mode="variable", B=16, N=1, scores=[0]), ["tie"], bounds="16 steps that never improve"),
          Case("variable-1-deeper", h_run, dict(mode="variable", B=66, N=1, scores=[0]), ["tie"], bounds="66 steps that never improve"),
          Case("variable-1-deepest", h_run, dict(mode="variable", B=2500, N=1, scores=[0]), ["tie"], bounds="2500 steps that never improve"),
          Case("variable-2-deepest", h_run, dict(mode="variable", B=2100, N=2, scores=[0, 1], free=[700]), ["tie"], bounds="2100 steps, buffer 2, one plan equal or better"),
          Case("bursts-long", h_run, dict(B=300, N=4, scores=[0, 1, -1], free=[250, 500, 1100]), IW, bounds="4 bursts of 300, three plans better, worse or equal"),
          Case("bursts-short", h_run, dict(B=2, N=400, scores=[0, 1, -1], free=[300, 350, 399]), IW, bounds="400 bursts of 2, three plans better, worse or equal"),
          Case("variable-0", h_run, dict(mode="variable", B=1, N=1), ["done"], bounds="1 step"),
          Case("variable-2-deep", h_run, dict(mode="variable", B=26, N=2, scores=[0]), ["tie"], bounds="26 steps that never improve")]
