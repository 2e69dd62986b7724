"""Repeating a run: the same inputs and the same draws give the same result, whatever was run before.

Self-composition: the draws of a first run are recorded (they are symbolic), something else is run,
and the run is repeated from equal inputs with exactly those draws."""
import random
from functools import partial

import numpy
from checks.lib import *
from gerrychain import accept, constraints, proposals, tree
from gerrychain.grid import Grid
from gerrychain.optimization import Gingleator, SingleMetricOptimizer
from gerrychain.updaters import Election, Tally, CountySplit, county_splits

FOREIGN = [n for n in ("random", "rand", "randn", "randint", "random_sample", "choice", "shuffle", "permutation", "uniform", "normal",
                       "seed", "default_rng", "RandomState", "bytes", "exponential") if hasattr(numpy.random, n)]


class OnlyRandom:
    """Randomness from anywhere but the module `random`, and reseeding it, is a failure."""

    def __init__(self, ctx):
        self.ctx, self.old = ctx, []

    def __enter__(self):
        def foreign(*a, **k):
            self.ctx.fail("a run takes random numbers from elsewhere than Python's `random`: seeding it does not repeat the run")

        def reseed():
            self.ctx.fail("a run reseeds Python's `random`")

        for mod, names in ((numpy.random, FOREIGN), (random, ("Random", "SystemRandom"))):
            for n in names:
                self.old.append((mod, n, getattr(mod, n)))
                setattr(mod, n, foreign)
        self.ctx.reseeded = reseed

    def __exit__(self, *a):
        for mod, n, f in self.old:
            setattr(mod, n, f)
        del self.ctx.reseeded


class World:
    """Equal inputs can be built any number of times from the same values."""

    def __init__(self, n, edges, pattern, vals, kind="int", cls=Partition):
        self.nodes = ids(n, kind)
        self.n, self.edges, self.pattern, self.vals, self.cls = n, edges, pattern, vals, cls
        self.build()

    def again(self):
        w = object.__new__(World)
        w.__dict__.update(self.__dict__)
        w.build()
        return w

    def build(self):
        self.__dict__.pop("ch", None)
        n = self.n
        data = {"POP": list(self.vals), "A": [2 + i for i in range(n)], "B": [5 - i for i in range(n)], "county": [i // 2 for i in range(n)],
                "boundary_node": [i == 0 for i in range(n)], "boundary_perim": [1] * n, "area": [1] * n}
        self.graph = mkgraph(self.nodes, self.edges, data, {"shared_perim": [1] * len(self.edges)})
        self.total = Sum(self.vals)
        up = {"pop": Tally("POP", alias="pop"), "A": Tally("A", alias="A"), "B": Tally("B", alias="B"), "E": Election("E", {"a": "A", "b": "B"})}
        self.state = self.cls(self.graph, {v: self.pattern[i] for i, v in enumerate(self.nodes)}, up)
        self.k = len(set(self.pattern))

    def plan(self, p):
        return [p.assignment[v] for v in self.nodes]

    def report(self, p):
        return [self.plan(p), sorted(map(sorted, p["cut_edges"])), [p["pop"][d] for d in sorted(p.parts)],
                [p["E"].percent("a", d) if any(p.parts[d]) or p.parts[d] else None for d in sorted(p.parts)]]

    def chain(self, proposal, steps, cons=(), acc=accept.always_accept):
        return MarkovChain(proposal, list(cons), acc, self.state, steps)


def op_recom(w, steps=2, eps=0.5, **kw):
    pr = partial(proposals.recom, pop_col="POP", pop_target=w.total / w.k, epsilon=eps, node_repeats=1, **kw)
    return [w.report(p) for p in w.chain(pr, steps)]


def op_recom_class(w, eps=0.5):
    return [w.report(p) for p in w.chain(proposals.ReCom("POP", w.total / w.k, eps, method=partial(tree.bipartition_tree, max_attempts=1)), 2)]


def op_reversible(w, M=2, eps=0.5):
    pr = partial(proposals.reversible_recom, pop_col="POP", pop_target=w.total / w.k, epsilon=eps, M=M)
    return [w.report(p) for p in w.chain(pr, 2)]


def op_flips(w, steps=3):
    ch = w.chain(proposals.propose_random_flip, steps, [constraints.no_vanishing_districts, constraints.contiguous], accept.cut_edge_accept)
    return [w.report(p) for p in ch]


def op_twice(w, steps=2):
    """iterating one chain a second time is a run like the first"""
    if not hasattr(w, "ch"):
        w.ch = w.chain(proposals.propose_random_flip, steps, [constraints.no_vanishing_districts, constraints.contiguous])
    return [w.report(p) for p in w.ch]


def op_slow(w):
    return [w.report(p) for p in w.chain(proposals.slow_reversible_propose, 3, [constraints.no_vanishing_districts])]


def op_proposals(w):
    return [w.report(f(w.state)) for f in (proposals.propose_chunk_flip, proposals.propose_any_node_flip)]


def op_tree(w):
    return sorted(tree.recursive_tree_part(w.graph, range(w.k), w.total / w.k, "POP", 0.5,
                                           method=partial(tree.bipartition_tree, max_attempts=1)).items())


def op_seed(w):
    return sorted(tree.recursive_seed_part(w.graph, range(w.k), w.total / w.k, "POP", 0.5,
                                           method=partial(tree.bipartition_tree, max_attempts=1)).items())


def op_assign(w):
    p = w.cls.from_random_assignment(w.graph, w.k, 0.5, "POP", {"pop": Tally("POP", alias="pop"), "E": Election("E", {"a": "A", "b": "B"})},
                                     method=partial(tree.recursive_tree_part, method=partial(tree.bipartition_tree, max_attempts=1)))
    return w.report(p)


def op_uniform(w):
    return sorted(map(sorted, tree.uniform_spanning_tree(w.graph).edges))


def op_kruskal(w):
    return sorted(map(sorted, tree.random_spanning_tree(w.graph, {"county": 0.5}).edges))


def op_bursts(w):
    o = SingleMetricOptimizer(proposals.propose_random_flip, [constraints.no_vanishing_districts], w.state, lambda p: len(p["cut_edges"]), maximize=False)
    out = [w.report(p) for p in o.short_bursts(2, 2)]
    return out + [o.best_score, w.report(o.best_part)]


def op_tilted(w):
    o = SingleMetricOptimizer(proposals.propose_random_flip, [constraints.no_vanishing_districts], w.state, lambda p: len(p["cut_edges"]), maximize=True)
    out = [w.report(p) for p in o.tilted_run(3, 0.25)]
    return out + [o.best_score, w.report(o.best_part)]


def op_gingles(w):
    o = Gingleator(proposals.propose_random_flip, [constraints.no_vanishing_districts], w.state, minority_pop_col="A", total_pop_col="B",
                   score_function=Gingleator.reward_partial_dist)
    out = [w.report(p) for p in o.tilted_run(3, 0.25)]
    return out + [o.best_score, w.report(o.best_part)]


def op_spectral(w):
    return [w.report(p) for p in w.chain(proposals.spectral_recom, 2)]


OPS = {f.__name__[3:]: f for f in (op_recom, op_recom_class, op_reversible, op_flips, op_twice, op_slow, op_proposals, op_tree, op_seed, op_assign, op_uniform,
                                   op_kruskal, op_bursts, op_tilted, op_gingles, op_spectral)}
EXPECTED = (tree.BalanceError, tree.PopulationBalanceError, tree.ReselectException, proposals.tree_proposals.MetagraphError,
            proposals.tree_proposals.ReversibilityError, RuntimeError)


def run(op, w, **kw):
    try:
        return "ok", OPS[op](w, **kw)
    except EXPECTED as e:
        return "error", type(e).__name__


def meanwhile(op, w, **kw):
    """something run in between: what it gives, or whether it fails, does not matter here"""
    try:
        OPS[op](w, **kw)
    except Exception:
        pass


def same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return And([len(a) == len(b)] + [same(x, y) for x, y in zip(a, b)])
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    if issym(a) or issym(b):
        return eq(a, b)
    return a == b


def h_repeat(ctx, op, n=4, edges=None, pattern=(0, 0, 1, 1), kind="int", pops=None, between=("nothing", "same", "other", "mix", "before"), limit=12, cls=Partition, **kw):
    fresh()
    ctx.rnd_limit = limit
    vals = [ctx.num(f"p{i}", 1) if pops is None or pops[i] is None else pops[i] for i in range(n)]
    w = World(n, edges, pattern, vals, kind, cls)
    how = ctx.choose("between", between)
    with OnlyRandom(ctx):
        if how == "before":
            # the first run is the one with a past; the repetition is on new objects
            ctx.script(ctx.pick("stream", 2))
            ctx.rnd_limit = 10**6
            meanwhile(op, w, **kw)
            ctx.script(None)
            ctx.rnd_limit = limit
        ctx.record()
        first = run(op, w, **kw)
        tape = list(ctx.recording)
        ctx.free()
        if how not in ("nothing", "before"):
            ctx.script(ctx.pick("stream", 2))
            ctx.rnd_limit = 10**6
            if how == "same":
                meanwhile(op, w, **kw)
            elif how == "other":
                o = World(n, star(n) + [(1, n - 1)], pattern[::-1], [7 - i for i in range(n)], kind, cls)
                o.k = w.k
                meanwhile(op, o, **kw)
            else:
                o = w.again()
                for other in ("flips", "bursts", "tree", "assign"):
                    if other != op:
                        meanwhile(other, o)
                        meanwhile(other, w)
            ctx.script(None)
        if how == "before" or ctx.flag("fresh inputs"):
            w2 = w.again()
        else:
            w2 = w
        ctx.play(tape)
        second = run(op, w2, **kw)
        left = ctx.free()
    ctx.check(not left, "the repeated run makes fewer random draws than the first")
    ctx.check(first[0] == second[0], "the repeated run ends differently (an error in one of the two)")
    ctx.check(same(first[1], second[1]), "the repeated run gives another result")
    ctx.observe("result", str(first[0]))
    ctx.cover("ran " + first[0])


B = "every draw of the first run (within the draw limit) and the listed populations symbolic; between the runs nothing, the same run, one on another graph with the same node ids, or other operations, along two fixed streams of draws"


def C(name, op, n, edges, pattern, covers=("ran ok",), thorough=False, **kw):
    return Case(name, h_repeat, dict(op=op, n=n, edges=edges, pattern=pattern, **kw), covers=covers, thorough=thorough, bounds=f"{n} nodes; {B}")


c4, p4 = cycle(4), path(4)
ONE = [1] * 9
CASES = [
    C("recom-c4", "recom", 4, c4, (0, 0, 1, 1), pops=ONE),
    C("recom-p4-pops", "recom", 4, p4, (0, 0, 1, 1), pops=[None, 1, 2, None]),
    C("recom-3d", "recom", 5, path(5), (0, 0, 1, 1, 2), pops=ONE, eps=1.0, covers=()),
    C("recom-class", "recom_class", 4, p4, (0, 0, 1, 1), pops=[None, 1, 1, 1], covers=("ran ok", "ran error")),
    C("reversible-c4", "reversible", 4, c4, (0, 0, 1, 1), pops=ONE, limit=9),
    C("flips-p4", "flips", 4, p4, (0, 0, 1, 1), pops=ONE, limit=8),
    C("flips-c4-geo", "flips", 4, c4, (0, 0, 1, 1), pops=[None, 1, 1, None], limit=7, cls=GeographicPartition),
    C("twice-p4", "twice", 4, p4, (0, 0, 1, 1), pops=ONE, limit=8),
    C("slow-c4", "slow", 4, c4, (0, 0, 1, 1), pops=ONE, limit=10),
    C("proposals-c4", "proposals", 4, c4, (0, 0, 1, 1), pops=ONE),
    C("tree-p4", "tree", 4, p4, (0, 1, 2, 2), pops=[1, 1, None, 1]),
    C("tree-c4", "tree", 4, c4, (0, 1, 1, 0), pops=ONE),
    C("seed-p4", "seed", 4, p4, (0, 1, 2, 3), pops=ONE, limit=40, between=("nothing", "same", "before")),
    C("assign-p4", "assign", 4, p4, (0, 1, 1, 0), pops=[None, 1, 1, 1]),
    C("assign-c4", "assign", 4, c4, (0, 1, 1, 0), pops=[1, 1, 1, 1]),
    C("uniform-c4", "uniform", 4, c4 + [(0, 2)], (0, 1, 1, 0), pops=ONE, limit=7),
    C("kruskal-c4", "kruskal", 4, c4, (0, 1, 1, 0), pops=ONE),
    C("bursts-p4", "bursts", 4, p4, (0, 0, 1, 1), pops=ONE, limit=12),
    C("tilted-p4", "tilted", 4, p4, (0, 0, 1, 1), pops=ONE, limit=12),
    C("gingles-p4", "gingles", 4, p4, (0, 0, 1, 1), pops=ONE, limit=12),
    C("spectral-p5", "spectral", 5, path(5), (0, 0, 1, 1, 1), pops=ONE),
    C("recom-str", "recom", 4, c4, (0, 0, 1, 1), pops=ONE, kind="str", thorough=True),
    C("recom-g23", "recom", 6, grid_edges(2, 3), (0, 0, 0, 1, 1, 1), pops=ONE, thorough=True),
    C("flips-g23", "flips", 6, grid_edges(2, 3), (0, 0, 0, 1, 1, 1), pops=ONE, thorough=True, limit=9, steps=4),
    C("reversible-g23", "reversible", 6, grid_edges(2, 3), (0, 0, 0, 1, 1, 1), pops=ONE, thorough=True, limit=14),
    C("tree-g23", "tree", 6, grid_edges(2, 3), (0, 1, 2, 2, 1, 0), pops=ONE, thorough=True),
]
