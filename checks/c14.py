from functools import partial
from checks.lib import *
from gerrychain.tree import (bipartition_tree, bipartition_tree_random, epsilon_tree_bipartition, recursive_seed_part,
                             recursive_tree_part, get_max_prime_factor_less_than, uniform_spanning_tree,
                             find_balanced_edge_cuts_contraction)
from gerrychain.tree import BalanceError, PopulationBalanceError

GIVE_UP = (RuntimeError, BalanceError, PopulationBalanceError)


def any_tree_fn(ctx):
    def any_tree(graph):
        ns = list(graph.nodes)
        es = list(graph.edges)
        ts = [t for t in itertools.combinations(es, len(ns) - 1) if is_connected(ns, t)]
        if not ts:
            raise AssertionError("a tree was asked for on a disconnected piece")
        t = ts[ctx.pick("tree", len(ts))]
        out = nx.Graph()
        out.add_nodes_from(ns)
        out.add_edges_from(t)
        return out

    return any_tree


def stub(ctx, honest):
    """A caller-supplied bipartition method: any connected subset with connected complement
    (honest: within the population range it was asked for)."""

    def method(graph, pop_col, pop_target, epsilon, node_repeats=1, one_sided_cut=False, **kw):
        ns = sorted(graph.nodes, key=repr)
        es = list(graph.edges)
        subs = [s for r in range(1, len(ns)) for s in itertools.combinations(ns, r)
                if is_connected(s, es) and is_connected([x for x in ns if x not in s], es)]
        if not subs:
            raise RuntimeError("no cut")
        s = subs[ctx.pick("subset", len(subs))]
        if honest:
            a = Sum([graph.nodes[x][pop_col] for x in s])
            b = Sum([graph.nodes[x][pop_col] for x in ns if x not in s])
            ok = le(Abs(a - pop_target), epsilon * pop_target)
            if not one_sided_cut:
                ok = And(ok, le(Abs(b - pop_target), epsilon * pop_target))
            if not ctx.branch(ok):
                raise RuntimeError("no cut")
        return frozenset(s)

    return method


def h_part(ctx, how="recursive", n=4, edges=None, parts=2, kind="int", method="any", pops=None, eps=0.25, target=None, frozen=False,
           limit=None, lab="range", seed_n=None, ceil=None, attempts=1, top=3, one=None, streams=None):
    fresh()
    if streams:
        ctx.stream(streams)
    if limit:
        ctx.rnd_limit = limit
    nodes = ids(n, kind)
    ix = {v: i for i, v in enumerate(nodes)}
    vals = [ctx.num(f"p{i}", 1, top) if pops is None or pops[i] is None else pops[i] for i in range(n)]
    g = mkgraph(nodes, edges, {"POP": vals})
    if frozen:
        g = Partition(g, {v: 0 for v in nodes}).graph
        g.node_indices
    total = Sum(vals)
    if target is None:
        target = total / parts
    if method == "any":
        m = partial(bipartition_tree, spanning_tree_fn=any_tree_fn(ctx), max_attempts=attempts)
    elif method == "random":
        m = partial(bipartition_tree_random, spanning_tree_fn=any_tree_fn(ctx), max_attempts=attempts)
    elif method == "contract":
        m = partial(bipartition_tree, spanning_tree_fn=any_tree_fn(ctx), max_attempts=attempts, balance_edge_fn=find_balanced_edge_cuts_contraction)
    elif method == "uniform":
        m = partial(bipartition_tree, spanning_tree_fn=uniform_spanning_tree, max_attempts=attempts)
    elif method == "random-real":
        m = partial(bipartition_tree_random, max_attempts=attempts)
    elif method == "kruskal":
        m = partial(bipartition_tree, max_attempts=attempts)
    elif method == "honest":
        m = stub(ctx, True)
    elif method == "stub":
        m = stub(ctx, False)
    L = {"range": range(parts), "list": [f"d{i}" for i in range(parts)], "odd": ([7, 3, 11, 5, 2] + list(range(20, 60)))[:parts]}[lab]
    f = {"recursive": recursive_tree_part, "epsilon": epsilon_tree_bipartition, "seed": recursive_seed_part,
         "partition": None}[how]
    kw = {}
    if seed_n:
        kw["n"] = seed_n
    if ceil:
        kw["ceil"] = ceil
    if method is not None:
        kw["method"] = m
    try:
        if how == "partition":
            def build(**k):
                return (recursive_tree_part if seed_n is None else recursive_seed_part)(method=m, **k)
            p = Partition.from_random_assignment(g, parts, eps, "POP", method=build)
            out = dict(p.assignment.items())
            ctx.check(len(p) == parts, "the partition has another number of districts")
            ctx.check(all(p.assignment[v] == out[v] for v in nodes), "the partition's assignment is inconsistent")
        else:
            out = f(g, L, target, "POP", eps, **kw)
    except GIVE_UP as e:
        ctx.cover("gave up")
        if how in ("recursive", "epsilon") and method not in ("stub", "random"):
            ctx.check(isinstance(e, RuntimeError), "a plan was refused although every cut was balanced")
        ctx.observe("plan", None)
        ctx.check(set(g.nodes) == set(nodes) == set(g.node_indices), "the graph's node set changed")
        return
    ctx.check(set(out) == set(nodes), "the plan does not assign every node exactly once")
    ctx.check(set(out.values()) == set(L), "the plan does not use exactly the given districts")
    for d in L:
        mem = [ix[v] for v in nodes if out[v] == d]
        ctx.check(is_connected(mem, edges), "a district is not connected")
        pop = Sum([vals[i] for i in mem])
        ctx.check(le(Abs(pop - target), eps * target), "a district is not within epsilon of the target population")
    ctx.check(set(g.nodes) == set(nodes) == set(g.node_indices), "the graph's node set changed")
    ctx.check({frozenset(ix[x] for x in e) for e in g.edges} == {frozenset(e) for e in edges}, "the graph's edges changed")
    ctx.cover("plan")
    ctx.observe("plan", [repr(out[v]) for v in nodes])


def h_debt(ctx, parts=4, eps=0.25, target=8, lab="odd"):
    """Every node is a district; the method takes them in order while they fit what is asked for."""
    fresh()
    pops = [ctx.real(f"p{i}", 0, 3 * target) for i in range(parts - 1)]
    last = parts * target - Sum(pops)
    ctx.assume(ge(last, 0))
    pops.append(last)
    g = mkgraph(list(range(parts)), path(parts), {"POP": pops})
    tol, S = eps * target, 0.03125

    def method(graph, pop_col, pop_target, epsilon, node_repeats=1, one_sided_cut=False, **kw):
        left = sorted(graph.nodes)
        k = left[0]
        ctx.check(left == list(range(k, parts)), "not the rest of the graph is handed to the method")
        low, high = pop_target * (1 - epsilon), pop_target * (1 + epsilon)
        debt = Sum(pops[:k]) - k * target
        if one_sided_cut:
            ctx.check(le(Abs(low - Max([target - tol, target - tol - debt])), 0.0009765625), "the least population asked for does not keep the rest within the tolerance, or rules out one that does")
            ctx.check(le(Abs(high - Min([target + tol, target + tol - debt])), 0.0009765625), "the largest population asked for does not keep the rest within the tolerance, or rules out one that does")
        else:
            ctx.check(len(left) == 2, "a two-sided cut while more than two districts are missing")
            ctx.check(And(le(Abs(low - target + tol), 0.0009765625), le(Abs(high - target - tol), 0.0009765625)), "the last cut is not held to the tolerance")
            ctx.check(le(Abs(debt), tol + 0.0009765625), "the last two districts cannot be balanced any more")
        cuts = [pops[k]] if one_sided_cut else [pops[k], pops[k + 1]]
        for x in cuts:  # keep off the edges of the window: there the float's rounding decides
            ctx.assume(Or(le(x, low + S), And(le(low + 3 * S, x), le(x, high - 3 * S)), le(high - S, x)))
        ok = And([And(le(low + 2 * S, x), le(x, high - 2 * S)) for x in cuts])
        if not ctx.branch(ok):
            raise RuntimeError("no cut")
        return frozenset([k])

    L = [7, 3, 11, 5, 2, 9, 4][:parts]
    try:
        out = recursive_tree_part(g, L, target, "POP", eps, method=method)
    except GIVE_UP as e:
        ctx.check(isinstance(e, RuntimeError), "a plan was refused although every cut was balanced")
        ctx.cover("gave up")
        return
    ctx.check(out == {i: L[i] for i in range(parts)}, "the plan is not the cuts made")
    ctx.check(And([le(Abs(x - target), tol + 0.0009765625) for x in pops]), "a district is not within epsilon of the target population")
    ctx.cover("plan")


def h_factor(ctx, hi=30, chi=12):
    n = ctx.num("n", -2, hi)
    c = ctx.num("ceil", -1, chi)
    r = get_max_prime_factor_less_than(n, c)
    primes = [p for p in range(2, hi + 1) if all(p % d for d in range(2, p))]

    def divides(p):
        return And(ge(n, 2), Or([eq(n, k * p) for k in range(1, hi // p + 1)]))

    if r is None:
        for p in primes:
            ctx.check(Not(And(divides(p), le(p, c))), "None although a prime factor is at most the ceiling")
        ctx.cover("none")
    else:
        ctx.check(Or([And(eq(r, p), divides(p), le(p, c)) for p in primes]), "not a prime factor at most the ceiling")
        for p in primes:
            ctx.check(Implies(And(divides(p), le(p, c)), ge(r, p)), "a larger prime factor is at most the ceiling")
        ctx.cover("factor")
        ctx.observe("r", r)


def h_bad(ctx):
    fresh()
    g = mkgraph([0, 1, 2], path(3), {"POP": [1, 1, 1]})
    k = ctx.pick("parts", 4)
    if k != 2:
        ctx.raises(ValueError, lambda: epsilon_tree_bipartition(g, range(k), 1, "POP", 0.5), "a bipartition into other than two parts")
    ctx.raises(ValueError, lambda: recursive_seed_part(g, range(3), 1, "POP", 0.5, n=ctx.pick("n", 2)), "a chunk count below 2")
    ctx.raises(ValueError, lambda: recursive_seed_part(g, range(3), 1, "POP", 0.5, ceil=ctx.pick("c", 2)), "a ceiling below 2")
    ctx.cover("bad")


C4, P4 = cycle(4), path(4)
PAW = [(0, 1), (1, 2), (2, 0), (2, 3)]
HOUSE = [(0, 1), (1, 2), (2, 3), (3, 0), (0, 4), (1, 4)]
G23 = grid_edges(2, 3)
ASSUMPTIONS = ["positive populations (1..3 where symbolic)", "at least two parts", "the bipartition method is given a bounded number of attempts",
               "'honest' cases: the caller's bipartition method returns any connected balanced split; 'stub': any connected split"]
CASES = []


def add(name, covers=("plan", "gave up"), h=h_part, thorough=False, reach=(), **kw):
    CASES.append(Case(name, h, kw, covers, thorough=thorough, reach=reach, bounds=f"{kw}; populations arbitrary unless given"))


add("factor", ["none", "factor"], h=h_factor)
add("factor-60", ["none", "factor"], h=h_factor, hi=80, chi=40, thorough=True)
add("bad", ["bad"], h=h_bad)
for k, e in [(3, 0.25), (4, 0.125), (5, 0.25), (6, 0.5)]:
    add(f"debt-{k}", h=h_debt, parts=k, eps=e)
add("debt-7", h=h_debt, parts=7, eps=0.25, thorough=True)
for how in ("recursive", "epsilon", "seed"):
    add(f"{how}-2-c4", how=how, edges=C4, kind="str", lab="list")
    add(f"{how}-2-paw", how=how, edges=PAW, kind="tuple", eps=0.5, frozen=True)
    add(f"{how}-2-contract", how=how, edges=P4, method="contract", eps=0.125, lab="odd")
    add(f"{how}-2-uniform", how=how, n=3, edges=path(3), method="uniform", frozen=True, eps=0.5, limit=9, kind="str")
    add(f"{how}-2-kruskal", how=how, edges=C4, method="kruskal", eps=0.25)
    add(f"{how}-2-random", how=how, edges=C4, method="random", eps=0.25)
    add(f"{how}-2-target", how=how, edges=P4, target=4, eps=0.25)
add("epsilon-stub", how="epsilon", edges=C4, method="stub")
add("recursive-stub2", how="recursive", edges=C4, method="stub")
add("recursive-stub3", how="recursive", edges=P4, parts=3, method="stub", eps=0.5)
add("recursive-3-p4", how="recursive", edges=P4, parts=3, eps=0.5, lab="odd")
add("recursive-3-honest", how="recursive", n=5, edges=path(5), parts=3, method="honest", eps=0.5, pops=[None, None, None, 2, 2], target=3)
add("recursive-3-c5", how="recursive", n=5, edges=cycle(5), parts=3, eps=0.5, pops=[None, 2, None, 2, None], target=3, kind="shuffled")
add("recursive-3-contract", how="recursive", n=5, edges=path(5), parts=3, method="contract", eps=0.5, pops=[None, None, 2, None, 2], target=3)
add("recursive-3-unit", ["plan"], how="recursive", n=6, edges=G23, parts=3, pops=[1] * 6, eps=0.25, kind="offset")
add("recursive-4", how="recursive", n=5, edges=path(5), parts=4, pops=[None, 1, None, 3, None], eps=0.5, target=3, method="honest")
add("seed-3-p4", how="seed", edges=P4, parts=3, eps=0.5, lab="odd", method="honest")
add("seed-3-tree", how="seed", n=5, edges=path(5), parts=3, eps=0.5, pops=[None, 2, None, 1, 2], target=3, limit=14)
add("seed-3-bite", how="seed", n=5, edges=path(5), parts=3, eps=0.5, pops=[None, None, 1, 2, None], target=3, seed_n=2)
add("seed-3-ceil", how="seed", n=5, edges=path(5), parts=3, eps=0.5, pops=[None, None, 1, 2, None], target=3, ceil=2, kind="tuple")
add("seed-4", how="seed", n=6, edges=path(6), parts=4, eps=0.5, pops=[None, 2, None, 1, 2, None], target=3, method="honest", limit=30)
add("seed-4-tree", how="seed", n=6, edges=path(6), parts=4, eps=0.5, pops=[2, 1, None, 3, 2, None], target=3)
add("seed-4-n3", how="seed", n=5, edges=path(5), parts=4, eps=0.5, pops=[3, None, 1, 3, None], target=3, seed_n=3)
add("seed-5", how="seed", n=6, edges=path(6), parts=5, eps=0.5, pops=[3, None, 1, 3, 2, None], target=3, method="honest")
add("seed-2-random-house", how="seed", n=5, edges=HOUSE, parts=2, eps=0.25, method="random", pops=[1, None, 2, None, 1], target=4)
add("partition-2", how="partition", edges=C4, parts=2, eps=0.25)
add("partition-3", how="partition", edges=P4, parts=3, eps=0.5, kind="tuple")
add("partition-seed", how="partition", edges=P4, parts=3, eps=0.5, kind="tuple", seed_n=2)
add("recursive-2-house", how="recursive", n=5, edges=HOUSE, parts=2, eps=0.25, thorough=True)
add("recursive-3-house", how="recursive", n=5, edges=HOUSE, parts=3, eps=0.5, thorough=True, method="honest")
add("recursive-3-g23", how="recursive", n=6, edges=G23, parts=3, eps=0.5, thorough=True, method="honest", pops=[None] * 4 + [2, 2], target=4)
add("seed-3-g23", how="seed", n=6, edges=G23, parts=3, eps=0.5, thorough=True, method="honest", pops=[None] * 4 + [2, 2], target=4)
add("recursive-large", [], how="recursive", n=480, edges=grid_edges(16, 30), parts=8, pops=[1] * 480, target=60, eps=0.25, method="kruskal", attempts=5000, kind="shuffled", lab="odd", streams=2)
add("recursive-deep", ["plan"], how="recursive", n=1600, edges=path(1600), parts=5, pops=[1] * 1600, target=320, eps=0.125, method="kruskal", attempts=50, kind="int", streams=2)
add("recursive-many", [], how="recursive", n=240, edges=grid_edges(12, 20), parts=24, pops=[1] * 240, target=10, eps=0.5, method="random-real", attempts=5000, kind="int", streams=2)
add("seed-large", [], how="seed", n=480, edges=grid_edges(16, 30), parts=12, pops=[1] * 480, target=40, eps=0.25, method="kruskal", attempts=5000, kind="shuffled", lab="odd", streams=2)
add("seed-large-7", [], how="seed", n=280, edges=grid_edges(14, 20), parts=7, pops=[1] * 280, target=40, eps=0.25, method="kruskal", attempts=5000, kind="int", streams=2)
add("epsilon-deep", ["plan"], how="epsilon", n=2048, edges=path(2048), parts=2, pops=[1] * 2048, target=1024, eps=0.0078125, method="kruskal", attempts=10, kind="int", streams=2)
add("partition-large", [], how="partition", n=320, edges=grid_edges(16, 20), parts=8, pops=[1] * 320, eps=0.25, method="kruskal", attempts=5000, kind="tuple", streams=2)
