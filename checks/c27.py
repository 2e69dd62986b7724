import json
import os
import tempfile

from checks.lib import *
from gerrychain.grid import Grid
from gerrychain.updaters.flows import on_edge_flow, on_flow

KIND = {"plain": Partition, "geo": GeographicPartition}
DEFAULTS = {"plain": {"cut_edges"},
            "geo": {"perimeter", "exterior_boundaries", "interior_boundaries", "boundary_nodes", "cut_edges", "area", "cut_edges_by_part"}}


def world(ctx, n, edges, kind="int", pops=None):
    fresh()
    nodes = ids(n, kind)
    vals = pops or ctx.nums("p", n)
    g = mkgraph(nodes, edges, {"POP": vals, "area": [1] * n, "boundary_node": [i == 0 for i in range(n)], "boundary_perim": [1] * n},
                {"shared_perim": [1] * len(edges)})
    return nodes, vals, g


class Log:
    """Updaters that write down when and on which partition they are computed."""

    def __init__(self, nodes, vals):
        self.nodes, self.vals, self.calls = nodes, vals, []

    def wrap(self, name, f):
        def updater(partition):
            self.calls.append((name, partition))
            return f(partition)

        return updater

    def updaters(self):
        ns, vs = self.nodes, self.vals

        def first(p):
            d = p.assignment[ns[0]]
            return Sum([vs[i] for i, v in enumerate(ns) if v in p.parts[d]])

        fs = {"first": first, "nothing": lambda p: None, "empty": lambda p: [], "zero": lambda p: 0,
              "twice": lambda p: p["first"] * 2, "attr": lambda p: p.first + 1, "names": lambda p: sorted(len(m) for m in p.parts.values()), "self": lambda p: p,
              **{f"u{i}": lambda p, i=i: (i, len(p.parts)) for i in range(16)}}
        return {k: self.wrap(k, f) for k, f in fs.items()}

    def expected(self, lab):
        ns, vs = self.nodes, self.vals
        s = Sum([Ite(eq(lab[v], lab[ns[0]]), vs[i], 0) for i, v in enumerate(ns)])
        return {"first": s, "nothing": None, "empty": [], "zero": 0, "twice": s * 2, "attr": s + 1}


ORDERS = [("first", "twice", "attr", "nothing", "empty", "zero", "names"), ("attr", "zero", "first", "twice", "names", "empty", "nothing"),
          ("empty", "nothing", "names", "zero", "twice", "first", "attr")]


def h_values(ctx, n, edges, kind="int", of="plain", pattern=None, flips=2, moved=1, drop=False, default=True):
    nodes, vals, g = world(ctx, n, edges, kind)
    lab = labels(ctx, nodes, pattern)
    log = Log(nodes, vals)
    given = log.updaters()
    before = dict(given)
    p = KIND[of](g, lab, given, use_default_updaters=default)
    ctx.check(given == before and list(given) == list(before), "creating a partition changed the caller's updaters")
    given["later"] = lambda q: 1  # the caller's dictionary is the caller's
    names = set(before) | (DEFAULTS[of] if default else set())
    exist = list(p.parts)
    hist = [(p, lab)]
    for step in range(flips):
        f = arbitrary_flips(ctx, nodes, exist, moved, name=f"f{step}")
        lab = apply_flips(lab, f)
        if ctx.flag(f"read{step}"):
            p["first"]
            p["twice"], p["self"]
        q = p.flip(f)
        hist.append((q, lab))
        if drop:
            p.parent = None
        p = q
    order = ctx.choose("order", ORDERS)
    seq = hist if ctx.flag("oldest first") else hist[::-1]
    for q, lb in seq:
        ctx.check(set(q.updaters) == names and set(q.keys()) == names, "a partition does not offer exactly its class's and its own updaters")
        want = log.expected(lb)
        got = {}
        for name in order:
            got[name] = q[name]
            if name in want:
                if issym(want[name]) or issym(got[name]):
                    ctx.check(eq(got[name], want[name]), f"the value under a name is not the updater's on this plan")
                else:
                    ctx.check(got[name] == want[name], "the value under a name is not the updater's on this plan")
        for i in (3, 0, 15, *range(16)) if order is ORDERS[0] else ():
            ctx.check(q[f"u{i}"] == (i, len(q.parts)), "the value under a name is not the updater's on this plan")
        ctx.check(q["self"] is q, "an updater was computed on another partition")
        sizes = []
        for name in order:
            ctx.check(q[name] is got[name], "asking for a value again gives another object")
            ctx.check(getattr(q, name) is got[name], "a value read as an attribute is not the one read by name")
        for d, m in q.parts.items():
            sizes.append(len(m))
        ctx.check(got["names"] == sorted(sizes), "the value under a name is not the updater's on this plan")
        ctx.raises(KeyError, lambda: q["no such updater"], "a name without updater gives a value")
        ctx.raises(KeyError, lambda: q["later"], "an updater added to the caller's dictionary afterwards answers")
        if default:
            ctx.check(eq(len(q["cut_edges"]), Count([ne(lb[nodes[i]], lb[nodes[j]]) for i, j in edges])), "the default cut edges are not those of this plan")
    for k, (name, part) in enumerate(log.calls):
        ctx.check(any(part is q for q, _ in hist), "an updater is computed on something else than the partition asked")
        ctx.check(not any(name == m and part is r for m, r in log.calls[:k]), "an updater is computed more than once for one partition")
    ctx.observe("calls", len(log.calls))
    ctx.cover("read")


def h_override(ctx, of="plain", default=True, flips=1):
    """a given updater replaces the default one of the same name, for this partition and those derived from it"""
    nodes, vals, g = world(ctx, 4, cycle(4))
    lab = labels(ctx, nodes, (0, 0, 1, 1))
    mine = {"cut_edges": lambda p: ("mine", p.assignment[nodes[0]]), "area": lambda p: "my area"}
    p = KIND[of](g, lab, mine, use_default_updaters=default)
    f = arbitrary_flips(ctx, nodes, list(p.parts), 2)
    q = p.flip(f)
    for r, lb in ((p, lab), (q, apply_flips(lab, f))):
        v = r["cut_edges"]
        ctx.check(isinstance(v, tuple) and v[0] == "mine", "a default updater is not replaced by the given one of the same name")
        ctx.check(eq(v[1], lb[nodes[0]]), "the given updater was not computed on this plan")
        ctx.check(r["area"] == "my area", "a default updater is not replaced by the given one of the same name")
        if not default:
            ctx.check(set(r.updaters) == set(mine), "there are other updaters than those given although the defaults were refused")
        elif of == "geo":
            per = r["perimeter"]
            ctx.check(len(per) == 2, "a default updater is missing")
    ctx.cover("overridden")


def h_error(ctx):
    """an updater that fails is not remembered: asking again asks it again"""
    nodes, vals, g = world(ctx, 3, path(3))
    lab = labels(ctx, nodes)
    bad = [True]

    def f(p):
        if bad[0]:
            raise ValueError("not now")
        return p.assignment[nodes[0]]

    p = Partition(g, lab, {"f": f})
    q = p.flip(arbitrary_flips(ctx, nodes, list(p.parts), 1))
    for r in (p, q):
        ctx.raises(ValueError, lambda: r["f"], "the error of an updater is swallowed")
        ctx.raises(ValueError, lambda: r["f"], "the error of an updater is swallowed the second time")
    bad[0] = False
    ctx.check(eq(p["f"], lab[nodes[0]]), "an updater that failed before is not computed again")
    ctx.check(eq(q["f"], q.assignment[nodes[0]]), "an updater that failed before is not computed again")
    ctx.cover("failed and recovered")


def h_flow(ctx, n, edges, pattern, kind="int", flips=1, moved=2, drop=False, of="plain"):
    """updaters built with on_flow and on_edge_flow see exactly the nodes and cut edges that entered and left each district"""
    nodes, vals, g = world(ctx, n, edges, kind, pops=[1] * n)
    lab = labels(ctx, nodes, pattern)
    calls, ecalls = [], []

    @on_flow(lambda p: {d: frozenset(m) for d, m in p.parts.items()}, alias="members")
    def members(partition, previous, new_nodes, old_nodes):
        calls.append((partition, set(new_nodes), set(old_nodes), previous))
        return (previous | frozenset(new_nodes)) - frozenset(old_nodes)

    def einit(p):
        out = {d: frozenset() for d in p.parts}
        for i, j in edges:
            u, v = nodes[i], nodes[j]
            if p.assignment[u] != p.assignment[v]:
                for d in (p.assignment[u], p.assignment[v]):
                    out[d] = out[d] | {frozenset((u, v))}
        return out

    @on_edge_flow(einit, alias="border")
    def border(partition, previous, new_edges, old_edges):
        ecalls.append((partition, {frozenset(e) for e in new_edges}, {frozenset(e) for e in old_edges}, previous))
        return (previous | {frozenset(e) for e in new_edges}) - {frozenset(e) for e in old_edges}

    p = KIND[of](g, lab, {"members": members, "border": border})
    exist = list(p.parts)
    for step in range(flips):
        if ctx.flag(f"read{step}"):
            p["members"], p["border"]
        f = arbitrary_flips(ctx, nodes, exist, moved, name=f"f{step}")
        old, lab = lab, apply_flips(lab, f)
        q = p.flip(f)
        if drop:
            p.parent = None
        calls.clear(), ecalls.clear()
        got, eg = q["members"], q["border"]
        ctx.check(len(got) == len(q.parts) == len(eg), "values for districts that do not exist, or none for some that do")
        for d in exist:
            for v in nodes:
                ctx.check(Iff(v in got[d], eq(lab[v], d)), "a value kept up with on_flow is not that of this plan")
            for i, j in edges:
                u, v = nodes[i], nodes[j]
                cut = And(ne(lab[u], lab[v]), Or(eq(lab[u], d), eq(lab[v], d)))
                ctx.check(Iff(frozenset((u, v)) in eg[d], cut), "a value kept up with on_edge_flow is not that of this plan")
        for part, new, gone, prev in calls:
            if part is not q:
                continue
            ctx.check(bool(new or gone), "on_flow asks about a district nothing entered or left")
            ctx.check(not (new & set(prev)) and gone <= set(prev), "on_flow reports nodes that were there already, or never were, as moved")
        for part, new, gone, prev in ecalls:
            if part is not q:
                continue
            ctx.check(bool(new or gone), "on_edge_flow asks about a district whose border is the same")
            ctx.check(not (new & set(prev)) and gone <= set(prev), "on_edge_flow reports edges that were cut already, or never were, as changed")
        if calls:
            ctx.cover("flowed")
        p = q
    ctx.observe("n", len(calls))


def h_ways(ctx, way):
    """every way of making a partition keeps the given updaters"""
    nodes, vals, g = world(ctx, 4, path(4), kind="int", pops=[1, 1, 1, 1])
    x = ctx.num("x")
    ups = {"x": lambda p: x, "sizes": lambda p: sorted(len(m) for m in p.parts.values())}
    default = ctx.flag("defaults") if way == "random" else True
    if way == "random":
        bare = Partition.from_random_assignment(g, 2, 0.1, "POP", use_default_updaters=default)
        ctx.check(set(bare.updaters) == ({"cut_edges"} if default else set()), "the default updaters are not those asked for")
        p = Partition.from_random_assignment(g, 2, 0.1, "POP", ups, use_default_updaters=default)
        ctx.check(p["sizes"] == [2, 2], "an updater of a randomly drawn plan is not computed on it")
        ctx.check(("cut_edges" in p.updaters) == default, "the default updaters are not those asked for")
    elif way == "districtr":
        for v in nodes:
            g.nodes[v]["code"] = f"c{v}"
        d = tempfile.mkdtemp()
        try:
            with open(os.path.join(d, "plan.json"), "w") as f:
                json.dump({"idColumn": {"key": "code"}, "assignment": {"c0": 1, "c1": 1, "c2": 1, "c3": 2}}, f)
            p = Partition.from_districtr_file(g, os.path.join(d, "plan.json"), ups)
        finally:
            os.remove(os.path.join(d, "plan.json"))
            os.rmdir(d)
        ctx.check(p["sizes"] == [1, 3], "an updater of a plan read from a file is not computed on it")
    elif way == "grid":
        before = dict(ups)
        p = Grid((2, 2), updaters=ups)
        ctx.check(ups == before, "creating a grid changed the caller's updaters")
        own = Grid((2, 2), updaters={"area": lambda q: ("mine", len(q.parts)), "cut_edges": Grid.default_updaters["cut_edges"]})
        r = Grid((2, 3), updaters={"x": lambda q: "another"})
        ctx.check(own["area"] == ("mine", 4) and own.flip({(0, 0): 3})["area"] == ("mine", 4), "a grid's own updater does not replace the default of that name")
        ctx.check(sorted(r["area"].values()) == [1, 1, 2, 2] and r["x"] == "another", "a grid uses another grid's updaters")
        ctx.check("sizes" not in r.updaters and "sizes" not in Grid((2, 2)).updaters, "a grid uses another grid's updaters")
        nodes = list(p.graph.nodes)
        ctx.check(p["sizes"] == [1, 1, 1, 1], "an updater of a grid is not computed on it")
        ctx.check({"cut_edges", "population", "perimeter", "area", "interior_boundaries", "boundary_nodes"} <= set(p.updaters), "a grid lost its default updaters")
        ctx.check(p["population"] == {0: 1, 1: 1, 2: 1, 3: 1}, "a default updater of a grid is wrong")
    ctx.check(eq(p["x"], x), "a given updater is missing")
    q = p.flip({nodes[0]: list(p.parts)[1]})
    ctx.check(eq(q["x"], x) and q["sizes"] == sorted(len(m) for m in q.parts.values()), "a given updater is missing after a flip")
    ctx.check(type(q) is type(p), "a flip changes the class of the partition")
    ctx.cover("kept")


def h_leak(ctx, what, of="plain"):
    """updaters belong to the partition they were given to (and those flipped from it)"""
    nodes, vals, g = world(ctx, 3, path(3))
    lab = labels(ctx, nodes, (0, 0, 1))
    other = KIND["geo" if of == "plain" else "plain"]
    cls = KIND[of]
    a = cls(g, lab, {"x": lambda p: ("a", p.assignment[nodes[0]])})
    if what == "class":
        b = other(g, lab, {"x": lambda p: ("b", 0), "y": lambda p: 1})
        ctx.check(a["x"][0] == "a" and set(a.updaters) == DEFAULTS[of] | {"x"}, "an updater given to a partition of another class answers for this one")
        ctx.check(b["x"][0] == "b", "an updater given to a partition of another class answers for this one")
    elif what == "none":
        b = cls(g, lab, {"y": lambda p: 1}, use_default_updaters=False)
        ctx.check(set(b.updaters) == {"y"} and set(a.updaters) == DEFAULTS[of] | {"x"}, "a partition without defaults shares updaters with another one")
        c = b.flip({nodes[0]: lab[nodes[1]]})
        ctx.check(set(c.updaters) == {"y"} and c["y"] == 1, "a partition without defaults shares updaters with another one")
    elif what == "later":
        b = cls(g, lab, {"y": lambda p: 1})
        ctx.check("x" not in b.updaters, "a partition offers an updater that was given to an earlier partition of its class")
    elif what == "earlier":
        cls(g, lab, {"x": lambda p: ("b", 0)})
        ctx.check(a["x"][0] == "a", "an updater given to a later partition of the class answers for this one")
    ctx.cover("separate")


B = "arbitrary labels, data, moves and order of reading; updaters are test functions of the plan"


def C(name, fn, covers=("read",), thorough=False, bounds="", **kw):
    return Case(name, fn, kw, covers=covers, thorough=thorough, bounds=f"{bounds} {B}".strip())


CASES = [
    C("values-p3", h_values, n=3, edges=path(3), flips=1),
    C("values-empty", h_values, n=3, edges=path(3), flips=2, moved=0, pattern=(0, 0, 1), bounds="flips of nothing;"),
    C("values-p3-2", h_values, n=3, edges=path(3), flips=2, pattern=(0, 0, 1)),
    C("values-c4", h_values, n=4, edges=cycle(4), flips=1, moved=2, pattern=(0, 1, 1, 0), kind="str"),
    C("values-drop", h_values, n=3, edges=path(3), flips=2, pattern=(0, 1, 0), drop=True),
    C("values-geo", h_values, n=3, edges=cycle(3), flips=1, of="geo", pattern=(0, 1, 2), kind="tuple"),
    C("values-nodefault", h_values, n=3, edges=path(3), flips=1, default=False),
    C("values-p4-3", h_values, n=4, edges=path(4), flips=3, pattern=(0, 0, 1, 1), thorough=True),
    C("override", h_override, covers=("overridden",)),
    C("override-geo", h_override, covers=("overridden",), of="geo"),
    C("override-nodefault", h_override, covers=("overridden",), default=False),
    C("error", h_error, covers=("failed and recovered",)),
    C("flow-p3", h_flow, n=3, edges=path(3), pattern=None, flips=1, moved=2, covers=("flowed",)),
    C("flow-c4", h_flow, n=4, edges=cycle(4), pattern=(0, 0, 1, 1), flips=1, moved=3, covers=("flowed",)),
    C("flow-c4-2", h_flow, n=4, edges=cycle(4), pattern=(0, 1, 2, 0), flips=2, moved=1, covers=("flowed",), kind="str"),
    C("flow-drop", h_flow, n=4, edges=path(4), pattern=(0, 0, 1, 1), flips=2, moved=1, covers=("flowed",), drop=True),
    C("flow-k4-geo", h_flow, n=4, edges=complete(4), pattern=(0, 0, 1, 2), flips=1, moved=2, covers=("flowed",), of="geo"),
    C("flow-g23-2", h_flow, n=6, edges=grid_edges(2, 3), pattern=(0, 0, 1, 1, 2, 2), flips=2, moved=2, covers=("flowed",), thorough=True),
    C("ways-random", h_ways, covers=("kept",), way="random"),
    C("ways-districtr", h_ways, covers=("kept",), way="districtr"),
    C("ways-grid", h_ways, covers=("kept",), way="grid"),
    C("separate-class", h_leak, covers=("separate",), what="class"),
    C("separate-class-geo", h_leak, covers=("separate",), what="class", of="geo"),
    C("separate-none", h_leak, covers=("separate",), what="none"),
    C("separate-later", h_leak, covers=(), what="later"),
    C("separate-earlier", h_leak, covers=(), what="earlier"),
]
