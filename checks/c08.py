import contextlib
import io
import math
import numpy
from checks.lib import *
from gerrychain.constraints import Validator, Bounds, contiguous, within_percent_of_ideal_population
from gerrychain.updaters import Tally


class World:
    """Proposal, constraints and acceptance rule that only compare unknown scores, and write down
    the order in which the chain consults them."""

    loops = False  # may the proposal return the current state itself (a self-loop)?
    verdict = staticmethod(bool)  # the type of the acceptance rule's answer

    def __init__(self, ctx, p, ncons, retries):
        self.ctx, self.log, self.cands, self.keep = ctx, [], [], []
        self.score, self.bad, self.retries = {}, 0, retries
        self.bound = [ctx.num(f"bound{j}") for j in range(ncons)]
        self.add(p, None)

    def add(self, cand, src):
        k = len(self.keep)
        self.keep.append(cand)
        self.score[id(cand)] = [self.ctx.num(f"score{k}_{j}") for j in range(len(self.bound))]

    def proposal(self, state):
        if self.bad > self.retries:
            self.ctx.prune()
        self.bad += 1
        nodes = list(state.graph.nodes)
        if self.loops and self.ctx.flag("selfloop"):
            self.log.append(("propose", state, state))
            self.ctx.cover("self-loop")
            return state
        c = state.flip({nodes[0]: list(state.parts)[len(self.keep) % 2]})
        self.add(c, state)
        self.log.append(("propose", state, c))
        return c

    def constraint(self, j):
        def check(state):
            s = self.score[id(state)][j]
            r = bool(s <= self.bound[j])
            self.log.append(("constraint", j, state, r))
            return r

        check.__name__ = f"constraint{j}"
        return check

    def valid(self, state):
        return And([le(s, b) for s, b in zip(self.score[id(state)], self.bound)])

    def accept(self, state):
        r = bool(self.ctx.num(f"accept{len(self.log)}") > 0)
        self.log.append(("accept", state, r, state.parent))
        return self.verdict(r)


def depth(p):
    d = 0
    while p.parent is not None and d < 5:
        p = p.parent
        d += 1
    return d


def follow(ctx, w, chain, it, start, T, how="next"):
    """Iterate and compare with the protocol."""
    cur = start
    for step in range(T):
        w.log.clear()
        w.bad = 0
        try:
            y = next(it)
        except StopIteration:
            ctx.fail(f"the chain stopped after {step} of {T} states")
        log = list(w.log)
        if step == 0:
            ctx.check(y is start, "the first state is not the initial state")
            ctx.check(not log, "the initial state was proposed or judged again")
            continue
        ctx.check(len(log) > 0, "a state was produced without a proposal")
        # group the log by proposal
        groups = []
        for ev in log:
            if ev[0] == "propose":
                groups.append([ev])
            else:
                ctx.check(bool(groups), "something was judged before anything was proposed")
                groups[-1].append(ev)
        for gi, grp in enumerate(groups):
            _, src, cand = grp[0]
            ctx.check(src is cur, "a proposal did not start from the current state")
            acc = [e for e in grp if e[0] == "accept"]
            last = gi == len(groups) - 1
            ctx.check(all(e[2] is cand for e in grp if e[0] == "constraint"), "constraints were asked about another state")
            if last:
                ctx.check(w.valid(cand), "an invalid proposal was not retried")
                ctx.check(len(acc) == 1, f"acceptance was consulted {len(acc)} times for a valid proposal")
                ctx.check(acc[0][1] is cand, "acceptance was consulted about another state")
                ctx.check(acc[0][3] is cur if cand is not cur else acc[0][3] is not cur, "the candidate's parent is not the current state when acceptance is consulted")
                ctx.check(not any(e[0] == "constraint" for e in grp[grp.index(acc[0]):]), "constraints judged after acceptance")
                nxt = cand if acc[0][2] else cur
                if acc[0][2]:
                    ctx.cover("accepted")
                else:
                    ctx.cover("rejected")
            else:
                ctx.check(Not(w.valid(cand)), "a valid proposal was thrown away")
                ctx.check(not acc, "acceptance was consulted about an invalid proposal")
                ctx.cover("retried")
        ctx.check(y is nxt, "the yielded state is not the accepted candidate / the unchanged current state")
        ctx.check(chain.state is y, "chain.state is not the yielded state")
        ctx.check(depth(y) <= 1, "a state keeps more than its parent alive")
        cur = y
    w.log.clear()
    for _ in range(2):
        try:
            next(it)
        except StopIteration:
            continue
        ctx.fail(f"the chain produced more than {T} states")
    ctx.check(not w.log, "a finished chain still proposes")
    return cur


def mk(ctx, ncons, retries):
    fresh()
    g = mkgraph(ids(3), path(3))
    p = Partition(g, {0: 0, 1: 0, 2: 1})
    return p, World(ctx, p, ncons, retries)


def h_stubborn(ctx, T=3, misses=2500, form="list"):
    """At one of the steps very many proposals in a row are invalid."""
    fresh()
    p = Partition(mkgraph(ids(3), path(3)), {0: 0, 1: 0, 2: 1})
    at = ctx.pick("step", T - 1) + 1
    seen, good, asked, keep = [0], [None], [], []

    def propose(state):
        seen[0] += 1
        c = state.flip({0: seen[0] % 2})
        keep.append(state)
        good[0] = c if step != at or seen[0] > misses else None
        return c

    def fine(state):
        return state is p or state is good[0]

    def accept(state):
        asked.append(state)
        return bool(ctx.num(f"accept{step}") > 0)

    step = 0
    it = iter(MarkovChain(propose, [fine] if form == "list" else fine, accept, p, T))
    cur = next(it)
    ctx.check(cur is p, "the first state is not the initial state")
    for step in range(1, T):
        seen[0], asked[:], keep[:] = 0, [], []
        try:
            y = next(it)
        except StopIteration:
            ctx.fail(f"the chain stopped after {step} of {T} states")
        want = misses + 1 if step == at else 1
        ctx.check(seen[0] == want, f"{seen[0]} proposals where {want - 1} are invalid")
        ctx.check(all(s is cur for s in keep), "a proposal did not start from the current state")
        ctx.check(len(asked) == 1 and asked[0] is good[0], "the acceptance rule was not asked about the valid proposal only")
        ctx.check(y is cur or y is good[0], "an invalid state was yielded")
        if y is good[0]:
            ctx.cover("accepted")
        cur = y
    ctx.check(next(it, None) is None, f"the chain produced more than {T} states")


def h_long(ctx, T=1500):
    """A long chain in which two steps are judged arbitrarily."""
    fresh()
    p = Partition(mkgraph(ids(3), path(3)), {0: 0, 1: 0, 2: 1})
    free = {1 + ctx.pick("free", 3) * (T // 3), T - 1}
    made, step = [p], 0

    def propose(state):
        made.append(state.flip({step % 2: step % 3 % 2}))
        return made[-1]

    def accept(state):
        return bool(ctx.num(f"accept{step}") > 0) if step in free else step % 7 != 3

    it = iter(MarkovChain(propose, [lambda s: True], accept, p, T))
    cur = None
    for step in range(T):
        try:
            y = next(it)
        except StopIteration:
            ctx.fail(f"the chain stopped after {step} of {T} states")
        ctx.check(len(made) == step + 1, "not one proposal per step")
        new = made[step]
        if step and step in free:
            ctx.check(y is new or y is cur, "neither the proposed nor the current state")
            ctx.cover("accepted" if y is new else "rejected")
        else:
            ctx.check(y is (new if step % 7 != 3 or step == 0 else cur), "the yielded state is not the accepted candidate / the unchanged current state")
        ctx.check(depth(y) <= 1, "a state keeps more than its parent alive")
        cur = y
    ctx.check(next(it, None) is None, f"the chain produced more than {T} states")


def h_protocol(ctx, T=3, ncons=1, retries=1, form="list", again=False, bar=False, loops=False, verdict=None):
    p, w = mk(ctx, ncons, retries)
    w.loops = loops
    if verdict:
        w.verdict = verdict
    cons = [w.constraint(j) for j in range(ncons)]
    if form == "validator":
        cons = Validator(cons)
    elif form == "callable":
        cons = cons[0]
    elif form == "bounds":
        b = w.bound[0]
        cons = [Bounds(lambda s: [w.score[id(s)][0]], (-math.inf, b))]
    elif form == "partial":
        cons = [functools.partial(c) for c in cons]
    elif form == "tuple":
        cons = tuple(cons)
    elif form == "iterator":
        cons = iter(cons)
    try:
        chain = MarkovChain(w.proposal, cons, w.accept, p, T)
    except ValueError:
        ctx.check(Not(w.valid(p)), "a valid initial state was refused")
        ctx.cover("refused")
        return
    ctx.check(w.valid(p), "an invalid initial state was accepted")
    ctx.check(len(chain) == T, "len(chain) is not the number of steps")
    w.log.clear()
    if bar:
        with contextlib.redirect_stderr(io.StringIO()):
            out = list(chain.with_progress_bar())
        ctx.check(len(out) == T and out[0] is p, "the progress bar changed the sequence")
        return ctx.cover("bar")
    it = iter(chain)
    if again:
        # a partial first pass, then start over
        next(it)
        w.bad = 0
        next(it)
        it = iter(chain)
    follow(ctx, w, chain, it, p, T)
    if again:
        follow(ctx, w, chain, iter(chain), p, T)
    ctx.observe("proposals", len(w.keep))
    ctx.cover("ran")


def h_setter(ctx, T=2):
    """Replacing the constraints."""
    p, w = mk(ctx, 2, 1)
    c0, c1 = w.constraint(0), w.constraint(1)
    ctx.assume(le(w.score[id(p)][0], w.bound[0]))
    chain = MarkovChain(w.proposal, [c0], w.accept, p, T)
    form = ctx.choose("form", ["list", "callable", "validator", "empty"])
    new = {"list": [c1], "callable": c1, "validator": Validator([c1]), "empty": []}[form]
    good1 = le(w.score[id(p)][1], w.bound[1]) if form != "empty" else True
    if ctx.flag("under way"):
        it = iter(chain)
        next(it)
        w.bad = 0
        next(it)
        w.log.clear()
    try:
        chain.constraints = new
        ok = True
    except ValueError:
        ok = False
    ctx.check(Iff(ok, good1), "new constraints are accepted iff the initial state satisfies them")
    if not (ok and form == "empty"):
        w.valid = lambda s: le(w.score[id(s)][1 if ok else 0], w.bound[1 if ok else 0])
    else:
        w.valid = lambda s: True
    follow(ctx, w, chain, iter(chain), p, T)
    ctx.cover("replaced" if ok else "kept")


def h_nonbool(ctx):
    """A constraint must answer True or False."""
    fresh()
    p = Partition(mkgraph(ids(3), path(3)), {0: 0, 1: 0, 2: 1})
    answer = ctx.choose("answer", [0, 1, None, "yes", 2.5, [], numpy.int64(1)])
    v = Validator([lambda s: True, lambda s: answer])
    ctx.raises(TypeError, lambda: v(p), "a constraint that answers neither True nor False was taken at its word")
    good = ctx.choose("good", [True, False, numpy.bool_(True), numpy.bool_(False)])
    got = Validator([lambda s: True, lambda s: good, lambda s: True])(p)
    ctx.check(got is bool(good), "a validator's answer is not whether every constraint holds")
    ctx.cover("asked")


def h_real(ctx, T=3, n=4, edges=None, pattern=(0, 0, 1, 1), eps=Rat):
    """A chain over real partitions and constraints with unknown populations: every yielded state
    satisfies every constraint, by definition."""
    fresh()
    nodes = ids(n)
    pops = [ctx.num(f"p{i}", 0) for i in range(n)]
    total = Sum(pops)
    ctx.assume(gt(total, 0))
    tol = ctx.real("tol", 0)
    g = mkgraph(nodes, edges, {"pop": pops})
    lab0 = concrete_labels(nodes, pattern)
    p = Partition(g, dict(lab0), {"population": Tally("pop", alias="population")})
    k = len(set(pattern))
    tries = [0]

    def ok(lab):
        return And([And(ge(Sum(pops[i] for i, v in enumerate(nodes) if lab[v] == d) * k, (1 - tol) * total),
                        le(Sum(pops[i] for i, v in enumerate(nodes) if lab[v] == d) * k, (1 + tol) * total)) for d in set(pattern)])

    def connected(lab):
        es = [(nodes[i], nodes[j]) for i, j in edges]
        return all(is_connected([v for v in nodes if lab[v] == d], es) for d in set(pattern))

    def prop(s):
        if tries[0] > 1:
            ctx.prune()
        tries[0] += 1
        cut = sorted(s["cut_edges"])
        if not cut:
            ctx.prune()
        e = ctx.choose("edge", cut)
        side = ctx.pick("side", 2)
        v, d = e[side], s.assignment[e[1 - side]]
        if len(s.parts[s.assignment[v]]) == 1:
            ctx.prune()
        return s.flip({v: d})

    def acc(s):
        return bool(ctx.num("acc") > 0)

    try:
        chain = MarkovChain(prop, [within_percent_of_ideal_population(p, tol), contiguous], acc, p, T)
    except ValueError:
        ctx.check(Or(not connected(lab0), Not(ok(lab0))), "a valid initial state was refused")
        ctx.cover("refused")
        return
    ctx.check(And(connected(lab0), ok(lab0)), "an invalid initial state was accepted")
    count = 0
    moved = False
    it = iter(chain)
    while True:
        tries[0] = 0
        try:
            s = next(it)
        except StopIteration:
            break
        count += 1
        lab = dict(s.assignment.items())
        ctx.check(connected(lab), "the chain yielded a plan with a disconnected district")
        ctx.check(ok(lab), "the chain yielded a plan outside the population bounds")
        moved = moved or lab != lab0
    ctx.check(count == T, "wrong number of states")
    if moved:
        ctx.cover("moved")
    ctx.cover("ran")


ASSUMPTIONS = ["total_steps >= 1", "at most `retries` consecutive invalid proposals per step (longer runs are outside the bound)",
               "constraints and acceptance answer the same way when asked twice about one state"]
CASES = [
    Case("T3", h_protocol, dict(T=3, retries=2), ["ran", "accepted", "rejected", "retried", "refused"], bounds="3 steps, arbitrary verdicts of one constraint and of acceptance, up to 2 consecutive invalid proposals"),
    Case("T4", h_protocol, dict(T=4, retries=1), ["ran", "accepted", "rejected", "retried"], bounds="4 steps, arbitrary verdicts, up to 1 retry per step"),
    Case("T1", h_protocol, dict(T=1), ["ran", "refused"], bounds="a single step"),
    Case("T2-2cons", h_protocol, dict(T=2, ncons=2, retries=1, form="validator"), ["ran", "accepted", "rejected", "retried", "refused"], bounds="2 steps, two constraints in a Validator, up to 1 retry"),
    Case("T2-tuple", h_protocol, dict(T=2, ncons=3, retries=1, form="tuple"), ["ran", "refused"], bounds="2 steps, three constraints in a tuple"),
    Case("T3-iterator", h_protocol, dict(T=3, ncons=2, retries=1, form="iterator"), ["ran", "refused"], bounds="3 steps, two constraints given by an iterator"),
    Case("T3-callable", h_protocol, dict(T=3, retries=1, form="callable"), ["ran", "refused"], bounds="3 steps, one callable constraint"),
    Case("T2-partial", h_protocol, dict(T=2, ncons=2, retries=1, form="partial"), ["ran", "refused"], bounds="2 steps, constraints that are unnamed callables"),
    Case("T2-bounds", h_protocol, dict(T=2, retries=1, form="bounds"), ["ran", "refused"], bounds="2 steps, a Bounds constraint"),
    Case("again", h_protocol, dict(T=3, retries=0, again=True), ["ran", "accepted"], bounds="3 steps; iteration is broken off after 2 states, restarted and completed twice"),
    Case("bar", h_protocol, dict(T=3, retries=3, bar=True), ["bar"], bounds="3 steps under the progress bar"),
    Case("loops", h_protocol, dict(T=4, retries=1, loops=True), ["ran", "accepted", "rejected", "self-loop"], bounds="4 steps, the proposal may return the current state itself, arbitrary verdicts"),
    Case("numpy-verdict", h_protocol, dict(T=3, retries=0, verdict=numpy.bool_), ["ran", "accepted", "rejected"], bounds="3 steps, the acceptance rule answers with numpy booleans"),
    Case("int-verdict", h_protocol, dict(T=3, retries=0, verdict=int), ["ran", "accepted", "rejected"], bounds="3 steps, the acceptance rule answers 0 or 1"),
    Case("non-boolean", h_nonbool, {}, ["asked"], bounds="7 kinds of non-boolean answers, Python and numpy booleans"),
    Case("setter", h_setter, dict(T=3), ["replaced", "kept"], bounds="constraints replaced in 4 forms (also by none), before the run or after its second state, then 3 steps"),
    Case("real-p4", h_real, dict(T=3, edges=path(4)), ["ran", "moved", "refused"], bounds="path of 4, 2 districts, arbitrary populations and tolerance, arbitrary single flips, 3 steps"),
    Case("real-c5", h_real, dict(T=2, n=5, edges=cycle(5), pattern=(0, 0, 1, 1, 2)), ["ran", "moved", "refused"], bounds="5-cycle, 3 districts, arbitrary populations and tolerance, 2 steps"),
    Case("T5", h_protocol, dict(T=5, retries=2), ["ran"], thorough=True, bounds="5 steps, up to 2 consecutive invalid proposals"),
    Case("T3-3cons", h_protocol, dict(T=3, ncons=3, retries=1), ["ran"], thorough=True, bounds="3 steps, three constraints, 1 retry"),
    Case("real-g23", h_real, dict(T=4, n=6, edges=grid_edges(2, 3), pattern=(0, 0, 1, 0, 1, 1)), ["ran", "moved"], thorough=True, bounds="2x3 grid, 2 districts, 4 steps"),
]
CASES += [
    Case("stubborn", h_stubborn, {}, ["accepted"], bounds="3 states, 2500 invalid proposals in a row at one step"),
    Case("stubborn-1", h_stubborn, dict(T=2, misses=12000, form="callable"), ["accepted"], bounds="2 states, 12000 invalid proposals in a row"),
    Case("long", h_long, {}, ["accepted", "rejected"], bounds="1500 states, two steps judged arbitrarily"),
]
