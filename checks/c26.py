import contextlib
import io
import warnings

import geopandas
import pandas
import shapely
import shapely.ops
import shapely.prepared
import shapely.strtree
import shapely.validation
from checks.lib import *
from gerrychain.graph.geo import GeometryError

"""Geometries are axis-parallel rectangles with unknown horizontal coordinates.  While the code runs
symbolically, the geometry library is replaced by exact rectangle arithmetic over these unknowns;
sampled paths and every counterexample are executed with the real shapely/geopandas."""


class Unmodelled:
    def __getattr__(self, name):
        if name.startswith("__") or name.startswith("_repr") or name.startswith("_ipython"):
            raise AttributeError(name)
        raise E.EngineError(f"geometry operation {name} is not modelled")


class Flat(Unmodelled):
    """a boundary, or the intersection of two rectangles"""

    def __init__(self, length, area=0, empty=False, box=None, kind=None):
        self.length, self.area, self.is_empty, self.box = length, area, empty, box
        self.is_valid = True
        if kind is not None:
            self.geom_type = kind

    def _line(self):
        if self.box is None:
            raise E.EngineError("relation of an intersection is not modelled")
        return self.box

    def intersects(self, o):
        if isinstance(o, Outline):
            return o.intersects(self)
        if isinstance(o, Flat):
            return self._line().meets_outside(o._line())
        raise E.EngineError("line against surface is not modelled")

    def disjoint(self, o):
        return not self.intersects(o)

    def intersection(self, o):
        if isinstance(o, Flat):
            a, b = self._line(), o._line()
            a.meets_outside(b)
            x = a.intersection(b)
            return Flat(x.length, 0, x.is_empty)
        raise E.EngineError("line against surface is not modelled")


class Box(Unmodelled):
    def __init__(self, x0, y0, x1, y1, valid=True, why="Self-intersection"):
        self.c = (x0, y0, x1, y1)
        self.is_valid = valid
        self.why = why
        self.is_empty = False

    @property
    def bounds(self):
        return self.c

    @property
    def area(self):
        x0, y0, x1, y1 = self.c
        return (x1 - x0) * (y1 - y0)

    @property
    def length(self):
        x0, y0, x1, y1 = self.c
        return 2 * (x1 - x0) + 2 * (y1 - y0)

    @property
    def boundary(self):
        return Flat(self.length, box=self)

    @property
    def exterior(self):
        return self.boundary

    geom_type = "Polygon"

    def meets_outside(self, o):
        """do the borders meet (of shapes without common interior)"""
        x = self.intersection(o)
        if bool(x.area > 0):
            raise E.EngineError("borders of overlapping shapes are not modelled")
        return not x.is_empty

    def touches(self, o):
        x = self.intersection(o)
        return not x.is_empty and not bool(x.area > 0)

    def disjoint(self, o):
        return not self.intersects(o)

    def sides(self, o):
        dx = Min([self.c[2], o.c[2]]) - Max([self.c[0], o.c[0]])
        dy = Min([self.c[3], o.c[3]]) - Max([self.c[1], o.c[1]])
        return dx, dy

    def intersection(self, o):
        if isinstance(o, Shape):
            return o.intersection(self)
        dx, dy = self.sides(o)
        if bool(dx < 0) or bool(dy < 0):
            return Flat(0, 0, True)
        if bool(dx > 0) and bool(dy > 0):
            return Flat(2 * dx + 2 * dy, dx * dy, kind="Polygon")
        return Flat(dx + dy, 0, kind="LineString" if bool(dx + dy > 0) else "Point")

    def intersects(self, o):
        if isinstance(o, Shape):
            return o.intersects(self)
        dx, dy = self.sides(o)
        return bool(dx >= 0) and bool(dy >= 0)

    @property
    def pieces(self):
        return [self]


class Shape(Unmodelled):
    """a polygon, given as rectangles with disjoint interiors"""

    def __init__(self, boxes):
        self.pieces = [Box(*b) for b in boxes]
        self.is_valid, self.is_empty = True, False

    @property
    def area(self):
        return Sum([b.area for b in self.pieces])

    @property
    def length(self):
        inner = [a.intersection(b) for a, b in itertools.combinations(self.pieces, 2)]
        return Sum([b.length for b in self.pieces]) - 2 * Sum([x.length for x in inner])

    @property
    def boundary(self):
        return Flat(self.length, box=self)

    def intersection(self, o):
        """of shapes whose interiors are disjoint: segments and points"""
        xs = [x for x in (a.intersection(b) for a in self.pieces for b in o.pieces) if not x.is_empty]
        if not xs:
            return Flat(0, 0, True)
        out = Several(Sum([x.length for x in xs]), Sum([x.area for x in xs]))
        if all(x.__dict__.get("geom_type") == "Point" for x in xs):
            pts = []
            for a in self.pieces:
                for b in o.pieces:
                    if a.intersection(b).is_empty:
                        continue
                    p = (Max([a.c[0], b.c[0]]), Max([a.c[1], b.c[1]]))
                    if not any(bool(p[0] == q[0]) and bool(p[1] == q[1]) for q in pts):
                        pts.append(p)
            out.geom_type = "Point" if len(pts) == 1 else "MultiPoint"
        return out

    def intersects(self, o):
        return any(a.intersects(b) for a in self.pieces for b in o.pieces)

    geom_type = "Polygon"
    meets_outside, touches, disjoint = Box.meets_outside, Box.touches, Box.disjoint


class Several(Unmodelled):
    """an intersection of several parts (how the library groups them is not modelled)"""

    def __init__(self, length, area):
        self.length, self.area, self.is_empty, self.is_valid = length, area, False, True


class Series(pandas.Series):
    @property
    def _constructor(self):
        return Series

    def _each(self, f):
        return Series([f(g) for g in self], index=self.index, dtype=object)

    boundary = property(lambda s: s._each(lambda g: g.boundary))
    area = property(lambda s: s._each(lambda g: g.area))
    length = property(lambda s: s._each(lambda g: g.length))
    is_valid = property(lambda s: s._each(lambda g: g.is_valid))
    is_empty = property(lambda s: s._each(lambda g: g.is_empty))
    geometry = property(lambda s: s)

    def intersects(self, o, *a, **k):
        return self._each(lambda g: g.intersects(o))

    def intersection(self, o, *a, **k):
        return self._each(lambda g: g.intersection(o))

    def union_all(self, *a, **k):
        return Everything()

    unary_union = property(lambda s: Everything())


class Crs:
    def __init__(self, name):
        self.name = name

    def to_json(self, *a, **k):
        return f'"{self.name}"'


class Point:
    x, y = -71.0, 42.0


class Frame(pandas.DataFrame):
    _metadata = ["crs", "after"]

    @property
    def _constructor(self):
        return Frame

    @property
    def geometry(self):
        return Series(list(self["geometry"]), index=self.index, dtype=object)

    def set_crs(self, crs, inplace=False, **k):
        self.crs = Crs(str(crs))
        return self

    def to_crs(self, crs, **k):
        out = self.copy()
        out.crs = Crs(str(crs))
        if "utm" in str(crs):
            out["geometry"] = pandas.Series(self.after, index=self.index, dtype=object)
        else:
            out["geometry"] = pandas.Series(list(self["geometry"]), index=self.index, dtype=object)
        return out


class Everything(Unmodelled):
    @property
    def boundary(self):
        return Outline()


class Outline(Unmodelled):
    def intersects(self, line):
        return WORLD.touches(line.box)

    def intersection(self, line):
        raise E.EngineError("not modelled")


def dispatch(name):
    """shapely.<name>(a, b) on single geometries"""
    def f(a, *b, **k):
        if isinstance(a, Unmodelled) and all(isinstance(x, Unmodelled) for x in b):
            m = getattr(a, name)
            return m(*b) if callable(m) else m
        raise E.EngineError(f"shapely.{name} on arrays is not modelled")
    return f


class Tree(Unmodelled):
    def __init__(self, geoms, *a, **k):
        self.g = list(geoms)

    def query(self, geom, predicate=None, **k):
        if predicate not in (None, "intersects"):
            raise E.EngineError("predicate not modelled")
        return [i for i, g in enumerate(self.g) if g is geom or g.intersects(geom)]


WORLD = None
STUBS = [(shapely, "STRtree", Tree), (shapely.strtree, "STRtree", Tree), (shapely.ops, "unary_union", lambda g: Everything()), (shapely, "unary_union", lambda g, **k: Everything()),
         (shapely, "union_all", lambda g, **k: Everything()), (shapely.prepared, "prep", lambda g: g),
         *[(shapely, n, dispatch(n)) for n in "intersects intersection touches disjoint area length boundary is_empty is_valid".split()],
         (shapely.validation, "explain_validity", lambda g: "Valid Geometry" if g.is_valid else g.why)]


@contextlib.contextmanager
def library(ctx):
    if not ctx.symbolic:
        yield
        return
    old = [(m, n, getattr(m, n)) for m, n, _ in STUBS if hasattr(m, n)]
    for m, n, f in STUBS:
        if hasattr(m, n):
            setattr(m, n, f)
    try:
        yield
    finally:
        for m, n, f in old:
            setattr(m, n, f)


class World:
    def __init__(self, ctx, rects, frame=None):
        global WORLD
        WORLD = self
        self.ctx, self.rects, self.frame = ctx, rects, frame

    def touches(self, box):
        """does the rectangle touch the outline of the union"""
        if self.frame is None:  # fewer than 5 separate rectangles: none can be enclosed
            return True
        X0, Y0, X1, Y1 = self.frame
        for x0, y0, x1, y1 in (b.c for b in box.pieces):
            if bool(x0 <= X0) or bool(x1 >= X1) or bool(y0 <= Y0) or bool(y1 >= Y1):
                return True
        return False


WHYS = ["Self-intersection[0.5 0.5]", "Hole lies outside shell[9 9]", "Holes are nested[1 1]", "Ring Self-intersection[1 1]"]


def geometry(ctx, r, valid=True, why=0):
    if isinstance(r, list):
        return Shape(r) if ctx.symbolic else shapely.union_all([shapely.box(*map(float, b)) for b in r])
    if ctx.symbolic:
        return Box(*r, valid=valid, why=WHYS[why])
    x0, y0, x1, y1 = map(float, r)
    at = lambda pts: [(x0 + (x1 - x0) * a, y0 + (y1 - y0) * b) for a, b in pts]
    sq = lambda a, b: at([(a, a), (b, a), (b, b), (a, b)])
    if not valid and why == 1:
        return shapely.Polygon(sq(0, 1), [sq(8, 9)])
    if not valid and why == 2:
        return shapely.Polygon(sq(0, 1), [sq(0.125, 0.875), sq(0.25, 0.75)])
    if not valid and why == 3:
        return shapely.Polygon(at([(0, 0), (0.5, 0), (1, 1), (0, 1), (0.5, 0), (0.25, 0.5)]))
    if not valid:  # a bow tie
        return shapely.Polygon([(x0, y0), (x1, y1), (x1, y0), (x0, y1)])
    return shapely.box(x0, y0, x1, y1)


def table(ctx, rects, nodes, cols=None, valid=None, crs=None, why=0):
    geo = [geometry(ctx, r, valid is None or valid[i], why) for i, r in enumerate(rects)]
    data = {k: list(v) for k, v in (cols or {}).items()}
    index = pandas.Index(nodes, tupleize_cols=False, dtype=object)
    if ctx.symbolic:
        df = Frame(dict(data, geometry=geo), index=index, dtype=object)
        df.crs = None if crs is None else Crs(crs)
        return df
    return geopandas.GeoDataFrame(data, index=index, geometry=geo, crs=None if crs is None else "EPSG:32633")


def close(a, b):
    return le(Abs(a - b), 1e-7)


def side_lengths(a, b):
    return Min([a[2], b[2]]) - Max([a[0], b[0]]), Min([a[3], b[3]]) - Max([a[1], b[1]])


def check_graph(ctx, g, nodes, rects, adjacency, frame):
    n = len(nodes)
    ctx.check(type(g) is Graph, "not a Graph")
    ctx.check(set(g.nodes) == set(nodes), "the nodes are not the rows")
    shared = {i: [] for i in range(n)}
    for i, j in itertools.combinations(range(n), 2):
        meets, lengths = [], []
        for a in pieces(rects[i]):
            for b in pieces(rects[j]):
                dx, dy = side_lengths(a, b)
                meets.append(And(ge(dx, 0), ge(dy, 0)))
                lengths.append(Ite(meets[-1], dx + dy, 0))  # one of them is zero
        meet, length = Or(meets), Sum(lengths)
        adj = And(meet, gt(length, 0)) if adjacency == "rook" else meet
        e = g.has_edge(nodes[i], nodes[j])
        ctx.check(adj if e else Not(adj), f"an edge that is not {adjacency} adjacency" if e else f"a missing {adjacency} adjacency")
        ctx.cover("edge" if e else "no edge")
        if e:
            ctx.check(close(g.edges[nodes[i], nodes[j]]["shared_perim"], length), "shared_perim is not the length of the common border")
            shared[i].append(length)
            shared[j].append(length)
    for i, v in enumerate(nodes):
        ps = pieces(rects[i])
        a = g.nodes[v]
        ctx.check(close(a["area"], Sum([(x1 - x0) * (y1 - y0) for x0, y0, x1, y1 in ps])), "area is not the geometry's area")
        if frame is None:
            outside = True
            inner = []
            for b, c in itertools.combinations(ps, 2):
                dx, dy = side_lengths(b, c)
                inner.append(Ite(And(ge(dx, 0), ge(dy, 0)), dx + dy, 0))
            length = Sum([2 * (x1 - x0) + 2 * (y1 - y0) for x0, y0, x1, y1 in ps]) - 2 * Sum(inner) - Sum(shared[i])
        else:
            X0, Y0, X1, Y1 = frame
            outside = Or([c for x0, y0, x1, y1 in ps for c in (le(x0, X0), ge(x1, X1), le(y0, Y0), ge(y1, Y1))])
            length = Sum([c for x0, y0, x1, y1 in ps for c in (Ite(le(x0, X0), y1 - y0, 0), Ite(ge(x1, X1), y1 - y0, 0), Ite(le(y0, Y0), x1 - x0, 0), Ite(ge(y1, Y1), x1 - x0, 0))])
        ctx.check(a["boundary_node"] is True or a["boundary_node"] is False, "boundary_node is not a truth value")
        ctx.check(Iff(a["boundary_node"], outside), "boundary_node is not 'touches the outer boundary'")
        if a["boundary_node"]:
            ctx.check(close(a["boundary_perim"], length), "boundary_perim is not the length of the node's outer boundary")
            ctx.cover("boundary")
        else:
            ctx.check("boundary_perim" not in a, "an inner node has a boundary perimeter")
            ctx.cover("inner")


def pieces(r):
    return r if isinstance(r, list) else [r]


def rising(ctx, n):
    xs = [ctx.num(f"x{i}", 1) for i in range(n)]
    for a, b in zip(xs, xs[1:]):
        ctx.assume(lt(a, b))
    return xs


def bent(ctx, form):
    """polygons that are not rectangles"""
    if form == "ring":  # a ring and what it encloses
        a, b, W = rising(ctx, 3)
        return [[(0, 0, a, 4), (b, 0, W, 4), (a, 0, b, 1), (a, 3, b, 4)], (a, 1, b, 3)], (0, 0, W, 4)
    if form == "lake":  # a ring around nothing, next to a rectangle
        a, b, W = rising(ctx, 3)
        return [[(0, 0, a, 4), (b, 0, W, 4), (a, 0, b, 1), (a, 3, b, 4)], (W, 1, W + 2, 3)], None
    if form == "cup":  # a U, its filling and a lid that touches the U twice
        a, b, W = rising(ctx, 3)
        return [[(0, 0, a, 3), (b, 0, W, 3), (a, 0, b, 1)], (a, 1, b, 3), (0, 3, W, 4)], (0, 0, W, 4)
    if form == "hook":  # a segment and, elsewhere, a corner in common
        a, b, c, W = rising(ctx, 4)
        return [[(0, 0, a, 4), (a, 0, b, 1), (a, 3, c, 4)], (b, 1, W, 3)], None
    if form == "comb":  # a comb whose three teeth meet another comb's
        a, b, c, d, W = rising(ctx, 5)
        return [[(0, 0, W, 1), (0, 1, a, 2), (b, 1, c, 2), (d, 1, W, 2)], (0, 2, W, 3)], None
    if form == "bay":  # a U and its filling, which shares most of its outline with the U
        a, b, W = rising(ctx, 3)
        return [[(0, 0, a, 3), (b, 0, W, 3), (a, 0, b, 1)], (a, 1, b, 3)], None
    if form == "notch":  # the middle one touches the outside in one point only
        a, b, W = rising(ctx, 3)
        return [(0, 0, W, 1), (0, 1, a, 2), (a, 1, b, 2), (b, 1, W, 2), (0, 2, b, 3)], None
    if form == "teeth":  # a U with a rectangle that touches its two ends in a corner each
        a, b, W = rising(ctx, 3)
        return [[(0, 0, a, 3), (b, 0, W, 3), (a, 0, b, 1)], (a, 3, b, 4)], None
    if form == "tower":  # one far away, one that touches another in a corner only
        a, b, c, W = rising(ctx, 4)
        return [(0, 0, a, 1), (a, 1, b, 4), (c, 0, W, 2)], None
    raise ValueError(form)


def rows(ctx, heights, counts, unit=1):
    """bricks: rows of the given heights, each cut at unknown places"""
    num = ctx.num if unit == 1 else lambda name, lo=None: Div(ctx.num(name) if lo is None else ctx.num(name, lo), unit)
    W = num("W", 1)
    rects, y = [], 0
    for r, (h, k) in enumerate(zip(heights, counts)):
        cuts = [0] + [num(f"cut{r}_{c}") for c in range(k - 1)] + [W]
        for a, b in zip(cuts, cuts[1:]):
            ctx.assume(lt(a, b))
            rects.append((a, y, b, y + h))
        y += h
    return rects, (0, 0, W, y)


def apart(ctx, ys):
    """rectangles with the given vertical extents and unknown horizontal ones, interiors disjoint"""
    rects = []
    for i, (lo, hi) in enumerate(ys):
        a, b = ctx.num(f"x{i}", 0), ctx.num(f"X{i}", 0)
        ctx.assume(lt(a, b))
        for c, l, d, h in rects:
            if lo < h and l < hi:
                ctx.assume(Or(le(d, a), le(b, c)))
        rects.append((a, lo, b, hi))
    return rects, None


def h_build(ctx, adjacency="rook", bricks=None, ys=None, kind="int", columns=None, crs=None, override=None, default=False, form=None, unit=1, file=False):
    fresh()
    rects, frame = rows(ctx, *bricks, unit=unit) if bricks else bent(ctx, form) if form else apart(ctx, ys)
    n = len(rects)
    nodes = ids(n, kind)
    World(ctx, rects, frame)
    pop = ctx.nums("pop", n)
    df = table(ctx, rects, nodes, {"POP": pop, "name": [f"r{i}" for i in range(n)], "more": list(range(n))}, crs=crs)
    kw = {} if default else {"adjacency": adjacency}
    with library(ctx), warnings.catch_warnings(record=True) as wl, contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("always")
        if file:
            old, geopandas.read_file = geopandas.read_file, lambda name, *a, **k: {"some file": df}[name]
            try:
                g = Graph.from_file("some file", cols_to_add=list(columns) if columns else None, **kw)
            finally:
                geopandas.read_file = old
        else:
            g = Graph.from_geodataframe(df, cols_to_add=list(columns) if columns else None, crs_override=override, **kw)
    wl = [str(w.message).lower() for w in wl]
    check_graph(ctx, g, nodes, rects, adjacency, frame)
    want = set(columns or ["POP", "name", "more", "geometry"])
    for i, v in enumerate(nodes):
        a = g.nodes[v]
        ctx.check(want | {"area", "boundary_node"} <= set(a) <= want | {"area", "boundary_node", "boundary_perim"}, "the columns added are not the requested ones")
        ctx.checks([(eq(a["POP"], pop[i]), "a node has another row's data")] if "POP" in want else [])
        if "name" in want:
            ctx.check(a["name"] == f"r{i}", "a node has another row's data")
    isl = any(g.degree(v) == 0 for v in nodes)
    ctx.check(any("island" in w for w in wl) == isl, "a warning about islands exactly when there are some")
    ctx.check(not any("overlap" in w for w in wl), "a warning about overlaps although there are none")
    ctx.check((g.graph["crs"] is None) == (crs is None and override is None), "the graph's crs is not the table's")
    ctx.cover("islands" if isl else "no islands")


def h_overlap(ctx, ys=None, unit=1):
    fresh()
    rects = []
    for i, (lo, hi) in enumerate(ys):
        a, b = ctx.num(f"x{i}", 0, 30), ctx.num(f"X{i}", 0, 30)
        ctx.assume(lt(a, b))
        if unit != 1:
            a, b = Div(a, unit), Div(b, unit)
        rects.append((a, lo, b, hi))
    nodes = ids(len(rects), "shuffled")
    World(ctx, rects)
    df = table(ctx, rects, nodes, {"POP": [1] * len(rects)})
    with library(ctx), warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        g = Graph.from_geodataframe(df)
    for i, j in itertools.combinations(range(len(rects)), 2):
        if ctx.branch(And([gt(d, 0) for d in side_lengths(rects[i], rects[j])])):
            ctx.check(g.has_edge(nodes[i], nodes[j]), "overlapping geometries are not neighbours")
    over = Or([And([gt(d, 0) for d in side_lengths(a, b)]) for a, b in itertools.combinations(rects, 2)])
    w = any("overlap" in str(x.message).lower() for x in wl)
    ctx.check(Iff(w, over), "a warning about overlaps exactly when two geometries overlap")
    ctx.cover("overlap" if w else "no overlap")


def h_invalid(ctx, ignore=False, n=3, kind="str"):
    fresh()
    rects, frame = rows(ctx, [1], [n])
    ok = [not ctx.flag(f"broken{i}") for i in range(n)]
    nodes = ids(n, kind)
    World(ctx, rects, frame)
    df = table(ctx, rects, nodes, {"POP": [1] * n}, valid=ok, why=ctx.pick("why", len(WHYS)))
    if ignore and not (ctx.symbolic or all(ok)):
        return  # what the real library makes of bow ties is not modelled
    with library(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            g = Graph.from_geodataframe(df, ignore_errors=ignore)
        except GeometryError as e:
            ctx.check(not ignore, "GeometryError although errors are to be ignored")
            ctx.check(not all(ok), "GeometryError although all geometries are valid")
            ctx.check(kind != "str" or all((nodes[i] in str(e)) == (not ok[i]) for i in range(n)), "the error does not name the invalid rows")
            ctx.cover("refused")
            return
    ctx.check(ignore or all(ok), "invalid geometries were accepted")
    ctx.check(set(g.nodes) == set(nodes), "the nodes are not the rows")
    ctx.cover("built")


def h_reproject(ctx, ignore=False, n=3):
    """Projected geometries differ from the given ones, and may be invalid."""
    fresh()
    rects, frame = rows(ctx, [1], [n])
    ok = [not ctx.flag(f"broken{i}") for i in range(n)]
    nodes = ids(n, "str")
    # geometries that a projection breaks cannot be made up: the stand-in is used in replays too
    scaled = [(2 * a, 2 * b, 2 * c, 2 * d) for a, b, c, d in rects]
    World(ctx, scaled, tuple(2 * x for x in frame))
    df = Frame(dict(POP=[1] * n, geometry=[Box(*r) for r in rects]), index=nodes, dtype=object)
    df.crs = Crs("longlat")
    df.after = [Box(*r, valid=ok[i]) for i, r in enumerate(scaled)]
    Series.centroid = property(lambda s: [Point() for _ in s])
    old = Frame.__getitem__

    def getitem(self, k):
        r = old(self, k)
        return Series(list(r), index=r.index, dtype=object) if isinstance(k, str) and k == "geometry" else r

    Frame.__getitem__ = getitem
    saved = [(m, k, getattr(m, k)) for m, k, _ in STUBS if hasattr(m, k)]
    try:
        for m, k, f in STUBS:
            if hasattr(m, k):
                setattr(m, k, f)
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")
            try:
                g = Graph.from_geodataframe(df, reproject=True, ignore_errors=ignore)
            except GeometryError:
                ctx.check(not ignore, "GeometryError although errors are to be ignored")
                ctx.check(not all(ok), "GeometryError although all geometries are valid")
                ctx.cover("refused")
                return
            except (AttributeError, TypeError, NotImplementedError, KeyError) as e:
                raise E.EngineError(f"the stand-in for the geometry library does not do this: {e}")
    finally:
        Frame.__getitem__ = old
        for m, k, f in saved:
            setattr(m, k, f)
    ctx.check(ignore or all(ok), "geometries that are invalid after reprojection were accepted")
    check_graph(ctx, g, nodes, scaled, "rook", tuple(2 * x for x in frame))
    ctx.cover("built")


MAPS = {
    "hole": ["abcde", "fghij", "kl.mn", "opqrs", "tuvwx"],
    "lakes": ["aabbcc", "a..bdc", "eefbd.", "e.fggh"],
    "rings": ["aaaaa", "abbba", "abcba", "abbba", "aaaaa"],
    "corner": ["a.b", ".a.", "cc."],
    "parts": ["aabaa", "ccbcc", "aabdd"],
    "islands": ["a.b.", "..b.", "c..d", "c..d"],
    "snake": ["aaaab", "ccccb", "caaab", "cadbb"],
    "cells": ["abcdefgh", "ijklmnop", "qrstuvwx", "yzABCDEF", "GHIJKLMN", "OPQRSTUV"],
}


def h_map(ctx, which="hole", adjacency=None, scale=1.0, kind="str"):
    """Polygons made of unit cells, with holes, lakes and several parts, through the real geometry library; any one
    shape may be missing."""
    fresh()
    rows_ = MAPS[which]
    cell = {(x, y): c for y, r in enumerate(rows_) for x, c in enumerate(r) if c != "."}
    names = sorted(set(cell.values()), key=lambda c: (ord(c) * 7) % 31)
    if adjacency is None:
        adjacency = ["rook", "queen"][ctx.pick("rule", 2)]
    gone = ctx.pick("missing", min(len(names), 9) + 1)
    if gone:
        cell = {k: c for k, c in cell.items() if c != names[gone - 1]}
        names.remove(names[gone - 1])
    nodes = {c: (c if kind == "str" else i * 3 + 1) for i, c in enumerate(names)}
    geoms = [shapely.union_all([shapely.box(x * scale, y * scale, (x + 1) * scale, (y + 1) * scale) for (x, y), d in cell.items() if d == c]) for c in names]
    df = geopandas.GeoDataFrame({"POP": [ord(c) for c in names]}, index=[nodes[c] for c in names], geometry=geoms)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        g = Graph.from_geodataframe(df, adjacency=adjacency)
    shared, outer = {}, dict.fromkeys(names, 0)
    corners = {c: set() for c in names}
    rim = set()
    for (x, y), c in cell.items():
        corners[c] |= {(x, y), (x + 1, y), (x, y + 1), (x + 1, y + 1)}
        for dx, dy, ends in ((1, 0, ((x + 1, y), (x + 1, y + 1))), (-1, 0, ((x, y), (x, y + 1))), (0, 1, ((x, y + 1), (x + 1, y + 1))), (0, -1, ((x, y), (x + 1, y)))):
            d = cell.get((x + dx, y + dy))
            if d is None:
                outer[c] += 1
                rim |= set(ends)
            elif d != c:
                shared[frozenset((c, d))] = shared.get(frozenset((c, d)), 0) + Rat(1, 2)
    ctx.check(set(g.nodes) == set(nodes.values()), "the nodes are not the rows")
    for c, d in itertools.combinations(names, 2):
        length = shared.get(frozenset((c, d)), 0)
        adj = length > 0 if adjacency == "rook" else bool(corners[c] & corners[d])
        ctx.check(g.has_edge(nodes[c], nodes[d]) == adj, f"the edges are not the {adjacency} adjacencies")
        if adj:
            ctx.check(abs(g.edges[nodes[c], nodes[d]]["shared_perim"] / scale - float(length)) < 1e-6, "shared_perim is not the length of the common border")
    for c in names:
        a = g.nodes[nodes[c]]
        ctx.check(abs(a["area"] / scale**2 - list(cell.values()).count(c)) < 1e-6, "area is not the geometry's area")
        ctx.check(a["POP"] == ord(c), "a node has another row's data")
        ctx.check(a["boundary_node"] is bool(corners[c] & rim), "boundary_node is not 'touches the outer boundary'")
        if a["boundary_node"]:
            ctx.check(abs(a["boundary_perim"] / scale - outer[c]) < 1e-6, "boundary_perim is not the length of the node's outer boundary")
        else:
            ctx.check("boundary_perim" not in a, "an inner node has a boundary perimeter")
    ctx.cover("complete" if not gone else "one missing")


def h_adjacency(ctx, name="bishop"):
    fresh()
    rects, frame = rows(ctx, [1], [2])
    World(ctx, rects, frame)
    df = table(ctx, rects, [0, 1], {"POP": [1, 2]})
    with library(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.raises(ValueError, lambda: Graph.from_geodataframe(df, adjacency=name), "an unknown adjacency rule")
    ctx.cover("refused")


ASSUMPTIONS = ["geometries are axis-parallel rectangles and a few polygons made of them, vertical extents given, horizontal ones unknown; the geometry library is exact rectangle arithmetic",
               "coordinates are in the plane (no reprojection, except where a scaling stands for it)"]
BRICKS = {"1x3": ([1], [3]), "2+2": ([1, 2], [2, 2]), "2+3": ([2, 1], [2, 3]), "1+2+1": ([1, 1, 1], [1, 2, 1]), "1+3+1": ([1, 2, 1], [1, 3, 1]), "2+1+2": ([1, 1, 1], [2, 1, 2])}
FREE = {"level": [(0, 1), (0, 1)], "level3": [(0, 2), (0, 2), (0, 2)], "stack": [(0, 1), (1, 2), (2, 3)], "mixed": [(0, 2), (1, 3), (2, 3)], "gap": [(0, 1), (2, 3), (1, 2)]}
CASES = []
for nm, b in BRICKS.items():
    for adj in ("rook", "queen"):
        covers = ["edge", "boundary"] + (["inner"] if nm == "1+3+1" else [])
        CASES.append(Case(f"bricks-{nm}-{adj}", h_build, dict(adjacency=adj, bricks=b, kind="str" if adj == "rook" else "shuffled"), covers, thorough=nm in ("2+1+2", "1+3+1") and adj == "queen",
                          bounds=f"rows {b} cut at arbitrary places"))
for nm, ys in FREE.items():
    for adj in ("rook", "queen"):
        CASES.append(Case(f"free-{nm}-{adj}", h_build, dict(adjacency=adj, ys=ys, kind="offset"), ["edge", "no edge", "boundary", "islands"], bounds=f"rectangles with vertical extents {ys}, interiors disjoint"))
for form in ("ring", "lake", "cup", "hook", "comb", "bay", "notch", "tower", "teeth"):
    for adj in ("rook", "queen"):
        CASES.append(Case(f"bent-{form}-{adj}", h_build, dict(adjacency=adj, form=form, kind="str" if adj == "rook" else "int"), (["edge"] if form not in ("tower", "teeth") or adj == "queen" else ["no edge"]) + ["boundary"] + (["inner"] if form == "ring" else []),
                          bounds=f"polygons that are not rectangles: {form}, arbitrary horizontal extents"))
for adj in ("rook", "queen"):
    CASES += [
        Case(f"many-{adj}", h_build, dict(adjacency=adj, bricks=([1, 1], [1, 9]), kind="str"), ["edge", "boundary"], bounds="a row of one and a row of nine, cut at arbitrary places"),
        Case(f"fine-{adj}", h_build, dict(adjacency=adj, bricks=BRICKS["2+2"], unit=2**22, kind="int"), ["edge", "no edge"], bounds="borders as short as 2**-22"),
        Case(f"file-{adj}", h_build, dict(adjacency=adj, bricks=BRICKS["2+2"], kind="int", file=True, crs="x", columns=["POP"] if adj == "rook" else None), ["edge"], bounds="read from a file (the reader is a stand-in)"),
    ]
CASES += [
    Case("default-rule", h_build, dict(bricks=BRICKS["2+2"], default=True, kind="int"), ["edge", "no edge"], bounds="default adjacency is rook"),
    Case("columns", h_build, dict(bricks=BRICKS["1x3"], columns=["POP"], kind="str"), ["edge"], bounds="one column requested"),
    Case("columns-2", h_build, dict(bricks=BRICKS["1x3"], columns=["name", "more"], kind="shuffled", crs="x"), ["edge"], bounds="two columns requested, with a crs"),
    Case("crs-override", h_build, dict(bricks=BRICKS["1x3"], override=32633), ["edge"], bounds="crs given by the caller"),
    Case("overlap-2", h_overlap, dict(ys=[(0, 2), (1, 3)]), ["overlap", "no overlap"], bounds="two rectangles anywhere"),
    Case("overlap-fine", h_overlap, dict(ys=[(0, 2), (1.9990234375, 3)], unit=4096), ["overlap", "no overlap"], bounds="two rectangles anywhere, overlapping by as little as 1/4096 x 1/1024"),
    Case("overlap-3", h_overlap, dict(ys=[(0, 2), (1, 3), (2, 4)]), ["overlap", "no overlap"], bounds="three rectangles anywhere"),
    Case("invalid", h_invalid, {}, ["refused", "built"], bounds="any subset of the rows invalid"),
    Case("invalid-int", h_invalid, dict(kind="int"), ["refused", "built"], bounds="any subset of the rows invalid, rows numbered from 0"),
    Case("invalid-tuple", h_invalid, dict(kind="tuple", n=2), ["refused", "built"], bounds="any subset of the rows invalid"),
    Case("invalid-ignored", h_invalid, dict(ignore=True), ["built"], bounds="any subset of the rows invalid, errors ignored"),
    Case("reproject", h_reproject, {}, ["refused", "built"], bounds="any subset of the rows invalid after reprojection (a scaling)"),
    Case("reproject-ignored", h_reproject, dict(ignore=True), ["built"], bounds="any subset of the rows invalid after reprojection, errors ignored"),
    *[Case(f"map-{k}", h_map, dict(which=k, kind="int" if i % 2 else "str"), ["complete", "one missing"], bounds=f"the map {MAPS[k]} of unit cells, complete or one of (at most nine of) its shapes missing, both rules, real geometry library")
      for i, k in enumerate(MAPS)],
    Case("map-tiny", h_map, dict(which="lakes", scale=2.0**-24), ["complete", "one missing"], bounds="a map of cells with sides of 2**-24"),
    Case("map-huge", h_map, dict(which="parts", scale=2.0**20), ["complete", "one missing"], bounds="a map of cells with sides of 2**20"),
    Case("unknown-rule", h_adjacency, {}, ["refused"], bounds="adjacency 'bishop'"),
]
