import contextlib
import io
import json
import os
import tempfile
import warnings
from fractions import Fraction

import numpy
import pandas
from checks.lib import *
from gerrychain.graph.graph import FrozenGraph

_dump, _dumps, _load, _loads = json.dump, json.dumps, json.load, json.loads


@contextlib.contextmanager
def transport():
    """Real JSON files; unknown numbers travel as tokens."""
    store = []

    def out(o):
        if type(o) is Sym or isinstance(o, Fraction):
            store.append(o)
            return {"__sym__": len(store) - 1}
        if isinstance(o, dict):
            return {k: out(v) for k, v in o.items()}
        if isinstance(o, (list, tuple)):
            return [out(v) for v in o]
        return o

    def hook(d):
        return store[d["__sym__"]] if set(d) == {"__sym__"} else d

    json.dump = lambda o, f, **kw: _dump(out(o), f, **kw)
    json.dumps = lambda o, **kw: _dumps(out(o), **kw)
    json.load = lambda f, **kw: _loads(f.read(), object_hook=hook, **kw)
    json.loads = lambda s, **kw: _loads(s, object_hook=hook, **kw)
    with tempfile.TemporaryDirectory() as d:
        try:
            yield d
        finally:
            json.dump, json.dumps, json.load, json.loads = _dump, _dumps, _load, _loads


class Shape:
    """stands for a shapely geometry"""

    def __init__(self, k):
        self.k = k

    @property
    def __geo_interface__(self):
        return {"type": "Point", "coordinates": [self.k, self.k + 1]}


def h_json(ctx, n=3, edges=None, kind="int", geometry=False, geojson=False, subset=False, named=False, bare=False):
    fresh()
    nodes = ids(n, kind)
    es = [e for k, e in enumerate(edges) if not subset or ctx.flag(f"edge{k}")]
    pop = [ctx.num(f"pop{i}") for i in range(n)]
    w = [ctx.real(f"w{k}") for k in range(len(es))]
    g = mkgraph(nodes, es, {"POP": pop, "name": [f"x{i}" for i in range(n)], "np": [numpy.int64(2**40 + i) for i in range(n)], "small": [(numpy.uint8, numpy.int32, numpy.int16, numpy.uint64)[i % 4](200 + i - 100 * (i % 4 == 1)) for i in range(n)],
                            "nan": [None] * n, "flag": [i % 2 == 0 for i in range(n)], "float": [i + 0.5 for i in range(n)],
                            "zero": [0] * n, "empty": [""] * n, "list": [[1, "a", None] for i in range(n)], "text": ["geometry"] * n},
                {"shared_perim": w, "kind": [f"e{k}" for k in range(len(es))]})
    g.graph["crs"] = "some crs"
    if bare:
        for v in nodes[bare - 1:]:
            g.nodes[v].clear()
    shapes = [Shape(i) for i in range(n)]
    if named:
        for v in nodes:
            g.nodes[v]["geometry"] = "some text"
    if geometry:
        for v, s in zip(nodes, shapes):
            g.nodes[v]["geometry"] = s
            g.nodes[v]["other shape"] = s
    islands = {v for i, v in enumerate(nodes) if not any(i in e for e in es)}
    with transport() as d:
        f = os.path.join(d, "g.json")
        g.to_json(f, **(dict(include_geometries_as_geojson=True) if geojson else {}))
        with warnings.catch_warnings(record=True) as wl:
            warnings.simplefilter("always")
            h = Graph.from_json(f)
    ctx.check((len(wl) > 0) == bool(islands), "a warning exactly when the graph has islands")
    ctx.check(g.islands == islands and h.islands == islands, "islands are not the nodes without neighbours")
    for G, what in ((g, "written"), (h, "read")):
        ctx.check(type(G) is Graph, f"the graph {what} is not a Graph")
        ctx.check(list(G.nodes) == nodes, f"the nodes of the graph {what} differ")
        ctx.check({frozenset(e) for e in G.edges} == {frozenset((nodes[i], nodes[j])) for i, j in es} and len(G.edges) == len(es), f"the edges of the graph {what} differ")
        ctx.check(G.graph.get("crs") == "some crs", f"the data of the graph {what} differ")
        for i, v in enumerate(nodes):
            a = dict(G.nodes[v])
            if bare and i >= bare - 1:
                ctx.check(set(a) <= {"id"}, f"the graph {what} has other node data")
                continue
            ctx.check(eq(a.pop("POP"), pop[i]), f"node data of the graph {what} differ")
            sh = [a.pop("geometry", None), a.pop("other shape", None)]
            if geometry and what == "written":
                ctx.check(all(x is shapes[i] for x in sh), "saving changed the geometries of the graph")
            elif geometry and geojson:
                ctx.check(all(x is not None and x["type"] == "Point" and list(x["coordinates"]) == [i, i + 1] for x in sh), "the geometries are not saved as GeoJSON")
            elif not named:
                ctx.check(sh == [None, None], "geometries were saved")
            want = {"name": f"x{i}", "np": 2**40 + i, "small": 200 + i - 100 * (i % 4 == 1), "nan": None, "flag": i % 2 == 0, "float": i + 0.5, "zero": 0, "empty": "", "list": [1, "a", None], "text": "geometry"}
            if not geometry and named:
                ctx.check(sh == ["some text", None], "data called 'geometry' that is no geometry was lost")
                sh = [None, None]
            ctx.check({k: a.get(k, "missing") for k in want} == want, f"node data of the graph {what} differ")
            ctx.check(set(a) - set(want) <= {"id"}, f"the graph {what} has other node data")
            ctx.check(what == "read" or "id" not in a, "saving changed the graph")
        for k, (i, j) in enumerate(es):
            a = dict(G.edges[nodes[i], nodes[j]])
            ctx.check(eq(a.pop("shared_perim"), w[k]), f"edge data of the graph {what} differ")
            ctx.check(a.pop("kind") == f"e{k}", f"edge data of the graph {what} differ")
            ctx.check(set(a) <= {"id"}, f"the graph {what} has other edge data")
    ctx.cover("islands" if islands else "no islands")


def perm(ctx, n):
    left, out = list(range(n)), []
    for k in range(n):
        out.append(left.pop(ctx.pick(f"row{k}", len(left))))
    return out


def h_many(ctx, n=4, kind="int", right=False):
    """Several nodes belong to one row (precincts of one county)."""
    fresh()
    nodes = ids(n, kind)
    x = ctx.nums("x", 2)
    of = [ctx.pick(f"of{i}", 2) for i in range(n)]
    g = mkgraph(nodes, path(n), {"county": ["".join(["k", str(k)]) for k in of]})
    order = perm(ctx, 2)
    ks = [f"k{r}" for r in order]
    df = pandas.DataFrame({"X": pandas.Series([x[r] for r in order], dtype=object), "KEY": ks})
    if not right:
        df = df.set_index("KEY")
    g.join(df, left_index="county", **(dict(right_index="KEY") if right else {}))
    for i, v in enumerate(nodes):
        ctx.check("X" in g.nodes[v] and set(g.nodes[v]) == {"county", "X"}, "a node has not exactly the joined columns")
        ctx.check(eq(g.nodes[v]["X"], x[of[i]]), "a node has another row's value")
    ctx.cover("joined")


def h_join(ctx, n=3, kind="int", left=False, right=False, columns=None, extra=0, keys="sym", nan=False):
    """Rows in any order, keys with unknown values, some rows without a node."""
    fresh()
    nodes = ids(n, kind)
    x = [ctx.num(f"x{i}") for i in range(n + extra)]
    y = [ctx.num(f"y{i}") for i in range(n + extra)]
    if left and keys == "sym":
        key = [ctx.num(f"key{i}") for i in range(n + extra)]
        for i, j in itertools.combinations(range(n + extra), 2):
            ctx.assume(ne(key[i], key[j]))
    elif left:
        key = [f"k{(i * 2 + 1) % (n + extra)}" for i in range(n + extra)] if (n + extra) % 2 else [f"k{i}" for i in range(n + extra)]
    else:
        key = list(nodes) + [f"none{i}" if kind == "str" else ("none", i) if kind == "tuple" else 1000 + i for i in range(extra)]
    data = {"old": [ctx.num(f"old{i}") for i in range(n)]}
    if left:
        data["GEOID"] = key[:n]
    g = mkgraph(nodes, path(n), data)
    order = perm(ctx, n + extra)
    cols = {"X": [x[r] for r in order], "Y": [y[r] for r in order], "Z": [f"z{r}" for r in order]}
    hole = None
    if nan:
        hole = ctx.pick("hole", n)
        cols["Z"] = [float("nan") if r == hole else f"z{r}" for r in order]
    ks = [key[r] for r in order]
    if right:
        col = pandas.Series(ks, dtype=object)
        df = pandas.DataFrame(dict(cols), dtype=object)
        df["KEY"] = col
    else:
        df = pandas.DataFrame(dict(cols), index=pandas.Index(ks, tupleize_cols=False, dtype=object), dtype=object)
    before = df.copy()
    kw = {}
    if columns is not None:
        kw["columns"] = list(columns)
    if left:
        kw["left_index"] = "GEOID"
    if right:
        kw["right_index"] = "KEY"
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        g.join(df, **kw)
    ctx.check(nan or not wl, "an unexpected warning")
    joined(ctx, g, nodes, x, y, data, key, columns, left, hole)
    ctx.check(list(df.columns) == list(before.columns) and len(df) == len(before), "the DataFrame changed")
    ctx.cover("joined")


def joined(ctx, g, nodes, x, y, data, key, columns, left, hole=None):
    cs = set(("X", "Y", "Z") if columns is None else columns)
    ctx.check(list(g.nodes) == nodes, "the nodes changed")
    for i, v in enumerate(nodes):
        a = g.nodes[v]
        ctx.check(set(a) == cs | {"old"} | ({"GEOID"} if left else set()), "a node has not exactly the requested columns")
        ctx.check(eq(a["old"], data["old"][i]), "earlier data changed")
        if left:
            ctx.check(eq(a["GEOID"], key[i]) if issym(key[i]) else a["GEOID"] == key[i], "the matching attribute changed")
        if "X" in cs:
            ctx.check(eq(a["X"], x[i]), "a node has another row's value")
        if "Y" in cs:
            ctx.check(eq(a["Y"], y[i]), "a node has another row's value")
        if "Z" in cs:
            ctx.check(pandas.isna(a["Z"]) if i == hole else a["Z"] == f"z{i}", "a node has another row's value")


def h_add(ctx, n=3, kind="int", columns=None, extra=0, twice=False, nan=False):
    fresh()
    nodes = ids(n, kind)
    x, y = ctx.nums("x", n + extra), ctx.nums("y", n + extra)
    data = {"old": ctx.nums("old", n)}
    g = mkgraph(nodes, path(n), data)
    key = list(nodes) + [f"none{i}" if kind == "str" else ("none", i) if kind == "tuple" else 1000 + i for i in range(extra)]
    order = perm(ctx, n + extra)
    mk = lambda cols: pandas.DataFrame(cols, index=pandas.Index([key[r] for r in order], tupleize_cols=False, dtype=object), dtype=object)
    df = mk({"X": [x[r] for r in order], "Y": [y[r] for r in order], "Z": [f"z{r}" for r in order]})
    bad = nan and ctx.flag("nan")
    if bad:
        df["Z2"] = [float("nan")] + ["a"] * (n + extra - 1)
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        g.add_data(df, columns=list(columns) if columns else None)
    ctx.check((len(wl) > 0) == bool(bad and not columns), "a warning exactly when an added column has missing values")
    ctx.cover("nan" if bad else "full")
    if bad and not columns:
        # the missing value is that row's alone
        for r, v in enumerate(nodes):
            ctx.check("Z2" in g.nodes[v] and (pandas.isna(g.nodes[v]["Z2"]) if order[0] == r else g.nodes[v]["Z2"] == "a"), "a node has another row's value")
            g.nodes[v].pop("Z2")
    joined(ctx, g, nodes, x, y, data, key, columns, False)
    if twice:
        x2 = ctx.nums("new", n + extra)
        g.add_data(mk({"X": [x2[r] for r in order], "W": [f"w{r}" for r in order]}), columns=["X"])
        joined(ctx, g, nodes, x2, y, data, key, columns, False)
        for i, v in enumerate(nodes):
            ctx.check(eq(g.data["X"][v], x2[i]), "the graph's data table differs from its nodes")
    ctx.cover("added")


def h_frozen(ctx, n=4, edges=None, kind="int", source="Graph"):
    """The graph of a partition shows the same graph as the one it was made from."""
    fresh()
    nodes = ids(n, kind)
    es = [e for k, e in enumerate(edges) if ctx.flag(f"edge{k}")]
    d1, d2 = ctx.nums("a", n), ctx.nums("b", n)
    w = ctx.nums("w", len(es))

    def make(vals, cls):
        return mkgraph(nodes, es, {"POP": vals, "none": [None] * n, "empty": [""] * n}, {"len": w}, cls=cls)

    cls = {"Graph": Graph, "networkx": nx.Graph, "FrozenGraph": Graph}[source]
    g1, g2 = make(d1, cls), make(d2, cls)
    fz = FrozenGraph if source == "FrozenGraph" else lambda g: g
    p1 = Partition(fz(g1), {v: i % 2 for i, v in enumerate(nodes)})
    p2 = Partition(fz(g2), {v: 0 for v in nodes})
    if source == "networkx":
        g1.add_edge("new", nodes[0])
        g1.nodes[nodes[0]]["POP"] = -1
    nb = {v: set() for v in nodes}
    for i, j in es:
        nb[nodes[i]].add(nodes[j])
        nb[nodes[j]].add(nodes[i])
    fe = {frozenset((nodes[i], nodes[j])) for i, j in es}

    def deg(v, among):
        return sum((nodes[i] == v) + (nodes[j] == v) for i, j in es if nodes[i] in among and nodes[j] in among)

    for p, vals in ((p1, d1), (p2, d2), (p1.flip({nodes[0]: 1}), d1), (p1, d1)):
        f = p.graph
        for rep in range(2):
            ctx.check(len(f) == n and set(f) == set(nodes) == set(f.node_indices) == set(f.nodes), "the partition's graph has other nodes")
            ctx.check({frozenset(e) for e in f.edges} == fe and {frozenset(e) for e in f.edge_indices} == fe and len(f.edge_indices) == len(fe), "the partition's graph has other edges")
            for i, v in enumerate(nodes):
                ctx.check(set(f.neighbors(v)) == nb[v] and len(list(f.neighbors(v))) == len(nb[v]), "neighbors are wrong")
                ctx.check(f.degree(v) == deg(v, nodes), "the degree is wrong")
                ctx.check(eq(f.lookup(v, "POP"), vals[i]), "lookup finds another graph's or node's data")
                ctx.check(f.lookup(v, "none") is None and f.lookup(v, "empty") == "", "lookup changes data")
                ctx.raises(KeyError, lambda: f.lookup(v, "no such data"), "lookup of data that a node does not have")
                ctx.check(eq(f.nodes[v]["POP"], vals[i]), "node data differ")
                ctx.check(set(f[v]) == nb[v], "the adjacency of a node differs")
            for k, (i, j) in enumerate(es):
                ctx.check(eq(f.edges[nodes[i], nodes[j]]["len"], w[k]), "edge data differ")
        keep = [v for i, v in enumerate(nodes) if i != 1]
        s = f.subgraph(keep)
        ctx.check(set(s) == set(keep) and len(s) == n - 1 and {frozenset(e) for e in s.edges} == {e for e in fe if nodes[1] not in e}, "the subgraph is not the induced one")
        for v in keep:
            ctx.check(set(s.neighbors(v)) == nb[v] & set(keep), "the neighbours in a subgraph are wrong")
            ctx.check(eq(s.lookup(v, "POP"), vals[nodes.index(v)]), "the data of a subgraph differ")
            ctx.check(s.degree(v) == deg(v, keep), "the degree in a subgraph is wrong")
        table = pandas.DataFrame({"POP": [f"other{i}" for i in range(n)], "more": [0] * n}, index=pandas.Index(nodes, tupleize_cols=False, dtype=object))
        for op, args in (("add_node", ("new",)), ("add_edge", (nodes[0], "new")), ("remove_node", (nodes[0],)), ("remove_edge", (nodes[0], nodes[1])), ("add_edges_from", ([(nodes[0], "new")],)), ("join", (table,)), ("add_data", (table,)), ("remove_nodes_from", ([nodes[0]],)), ("clear", ())):
            try:
                getattr(f, op)(*args)
            except Exception:
                continue
            ctx.fail(f"{op} is allowed on a partition's graph")
        ctx.check(set(f.nodes) == set(nodes) and {frozenset(e) for e in f.edges} == fe, "a refused change took place")
        for i, v in enumerate(nodes):
            ctx.check(set(f.nodes[v]) == {"POP", "none", "empty"}, "a refused change took place")
            ctx.check(eq(f.nodes[v]["POP"], vals[i]), "a refused change took place")
    ctx.cover("edges" if es else "no edges")


def h_districtr(ctx, n=3, kind="int", idkind="int", missing=False, extra=0):
    fresh()
    nodes = ids(n, kind)
    ident = [(i * 5 + 3) % 7 + 10 for i in range(n + extra)]
    ident = [x if idkind == "int" else f"0{x * 10}" if idkind == "zeros" else f"{'0' * (x % 3)}{x}" if idkind == "fips" else f" {x}A " if idkind == "spaces" else f"id{x}" for x in ident]
    lab = [ctx.label(f"d{i}") for i in range(n + extra)]
    order = perm(ctx, n + extra)
    g = mkgraph(nodes, path(n), {"OTHER" if missing else "ID": ident[:n], "id": list(range(n))})
    plan = {"idColumn": {"key": "ID", "name": "id"}, "assignment": {str(ident[r]): lab[r] for r in order}, "id": "x"}
    with transport() as d:
        f = os.path.join(d, "plan.json")
        with open(f, "w") as fh:
            json.dump(plan, fh)
        if missing:
            try:
                Partition.from_districtr_file(g, f)
            except TypeError:
                ctx.cover("refused")
                return
            ctx.fail("a graph without the id column is accepted")
        p = Partition.from_districtr_file(g, f, {"mine": lambda q: 5})
    ctx.check(set(p.assignment) == set(nodes), "not every node is assigned")
    for i, v in enumerate(nodes):
        ctx.check(eq(p.assignment[v], lab[i]), "a node has not the district of its id in the file")
    ctx.check(p["mine"] == 5, "the given updaters are missing")
    ctx.cover("loaded")


ASSUMPTIONS = ["the JSON text layer and pandas are run as they are; unknown numbers pass through JSON as tokens", "node ids are unique in data and files", "node ids of saved graphs are numbers or strings"]
K4, T3 = complete(4), complete(3)
CASES = []
for kind in ("int", "str", "tuple", "shuffled", "offset"):
    CASES += [
        Case(f"json-{kind if kind != 'tuple' else 'int2'}", h_json, dict(n=3, edges=T3, kind=kind if kind != "tuple" else "int", subset=True), ["islands", "no islands"], bounds="every graph on 3 nodes, arbitrary data"),
        Case(f"frozen-{kind}", h_frozen, dict(n=3, edges=T3, kind=kind, source=["Graph", "networkx", "FrozenGraph"][len(kind) % 3]), ["edges", "no edges"], bounds="every graph on 3 nodes, arbitrary data, two graphs"),
        Case(f"join-{kind}", h_join, dict(kind=kind, columns=["X", "Z"] if kind == "int" else None), ["joined"], bounds="3 nodes, rows in any order, arbitrary data"),
        Case(f"add-{kind}", h_add, dict(kind=kind, extra=1, columns=["X", "Y"] if kind == "str" else None, nan=True), ["added", "nan"], bounds="3 nodes, rows in any order, arbitrary data"),
        Case(f"districtr-{kind}", h_districtr, dict(kind=kind, idkind="int" if kind != "str" else "str", extra=1), ["loaded"], bounds="3 nodes, file in any order, arbitrary districts"),
    ]
CASES += [
    Case("json-4", h_json, dict(n=4, edges=K4, subset=True), ["islands", "no islands"], bounds="every graph on 4 nodes, arbitrary data"),
    Case("json-geometry", h_json, dict(n=2, edges=path(2), geometry=True), ["no islands"], bounds="nodes with geometries"),
    Case("json-geojson", h_json, dict(n=2, edges=path(2), geometry=True, geojson=True, kind="str"), ["no islands"], bounds="nodes with geometries saved as GeoJSON"),
    Case("frozen-4", h_frozen, dict(n=4, edges=K4, source="networkx"), ["edges", "no edges"], thorough=True, bounds="every graph on 4 nodes"),
    Case("frozen-graph", h_frozen, dict(n=3, edges=T3, source="Graph", kind="str"), ["edges", "no edges"], bounds="every graph on 3 nodes"),
    Case("json-named", h_json, dict(n=2, edges=path(2), named=True), ["no islands"], bounds="data called 'geometry' that is no geometry"),
    Case("join-none", h_join, dict(columns=[]), ["joined"], bounds="no column requested"),
    Case("join-many", h_many, {}, ["joined"], bounds="4 nodes, 2 rows, any number of nodes per row"),
    Case("join-many-right", h_many, dict(right=True, kind="str"), ["joined"], bounds="4 nodes, 2 rows matched by a column, any number of nodes per row"),
    Case("join-left", h_join, dict(left=True), ["joined"], bounds="matched by a node attribute with arbitrary values"),
    Case("join-both", h_join, dict(left=True, right=True, kind="str"), ["joined"], bounds="matched by attribute and column with arbitrary values"),
    Case("join-both-extra", h_join, dict(left=True, right=True, n=2, extra=1, columns=["Y"]), ["joined"], bounds="a row without a node"),
    Case("join-strkeys", h_join, dict(left=True, right=True, n=3, extra=1, keys="str", kind="tuple"), ["joined"], bounds="string keys"),
    Case("join-right", h_join, dict(right=True, n=3, kind="shuffled", extra=1), ["joined"], bounds="node ids matched to a column"),
    Case("add-twice", h_add, dict(twice=True), ["added"], bounds="data added twice"),
    Case("add-subset", h_add, dict(columns=["Y"], kind="tuple"), ["added"], bounds="one column requested"),
    Case("districtr-missing", h_districtr, dict(missing=True, n=2), ["refused"], bounds="id column missing"),
    Case("districtr-zeros", h_districtr, dict(idkind="zeros", extra=1, kind="str"), ["loaded"], bounds="ids with leading and trailing zeros"),
    Case("districtr-fips", h_districtr, dict(idkind="fips", kind="int"), ["loaded"], bounds="ids some of which have leading zeros"),
    Case("districtr-spaces", h_districtr, dict(idkind="spaces", kind="int"), ["loaded"], bounds="ids with spaces"),
    Case("json-bare", h_json, dict(n=3, edges=T3, subset=True, bare=1), ["islands", "no islands"], bounds="every graph on 3 nodes without node data"),
    Case("json-half-bare", h_json, dict(n=3, edges=T3, subset=True, bare=2, kind="str"), ["islands", "no islands"], bounds="every graph on 3 nodes, two without data"),
    Case("join-nan", h_join, dict(nan=True, kind="str"), ["joined"], bounds="one value of the table missing"),
    Case("join-nan-both", h_join, dict(left=True, right=True, keys="str", nan=True), ["joined"], bounds="one value of the table missing, matched by attribute and column"),
    Case("join-4", h_join, dict(n=4, kind="offset"), ["joined"], bounds="4 nodes, rows in any order, arbitrary data"),
    Case("join-right-4", h_join, dict(n=4, right=True, kind="int"), ["joined"], bounds="4 nodes, rows in any order, arbitrary data"),
    Case("add-4", h_add, dict(n=4, kind="offset"), ["added"], bounds="4 nodes, rows in any order, arbitrary data"),
    Case("frozen-loop", h_frozen, dict(n=3, edges=[(0, 0), (0, 1), (1, 2)], source="Graph", kind="int"), ["edges", "no edges"], bounds="every subgraph of a path of 3 whose first node is joined to itself"),
]
