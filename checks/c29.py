"""The UTM zone that geometries are projected to.  The vendored conversion runs for real on symbolic
coordinates; its trigonometry (which the zone does not depend on) is replaced by unknown numbers."""
import math
import re
import types
import warnings

from checks.lib import *
from symex.patches import IntShim
from gerrychain.graph import geo
from gerrychain.vendor.utm import conversion
from gerrychain.vendor.utm.error import OutOfRangeError


def zone_is(lat, lon, z):
    """the standard grid of 6-degree zones counted from 180 W, with the exceptions for south-west
    Norway (32V) and Svalbard (31X, 33X, 35X, 37X)"""
    norway = And(le(56, lat), lt(lat, 64), le(3, lon), lt(lon, 12))
    svalbard = And(le(72, lat), le(0, lon), lt(lon, 42))
    sv = {31: (0, 9), 33: (9, 21), 35: (21, 33), 37: (33, 42)}
    west = -180 + 6 * (z - 1)
    plain = And(le(west, lon), lt(lon, west + 6))
    if z == 1:
        plain = Or(plain, eq(lon, 180))
    north = And(svalbard, le(sv[z][0], lon), lt(lon, sv[z][1])) if z in sv else False
    return Or(And(norway, z == 32), north, And(Not(norway), Not(svalbard), plain))


class Point:
    def __init__(self, x, y):
        self.x, self.y = x, y

    @property
    def centroid(self):
        return self

    @property
    def coords(self):
        return [(self.x, self.y)]


class Points(list):
    @property
    def centroid(self):
        return self

    @property
    def x(self):
        return [p.x for p in self]

    @property
    def y(self):
        return [p.y for p in self]


class Frame:
    """stands for a geodataframe in longitude and latitude"""

    def __init__(self, points, asked):
        self.geometry, self.asked = Points(points), asked
        self.crs = "longlat"

    def __getitem__(self, k):
        if k != "geometry":
            raise E.EngineError("column")
        return self.geometry

    def __len__(self):
        return len(self.geometry)

    @property
    def centroid(self):
        return self.geometry

    def to_crs(self, crs=None, epsg=None, **k):
        self.asked.append(str(crs if crs is not None else epsg))
        return Frame(self.geometry, self.asked)


class Stub:
    """mathlib without trigonometry"""

    pi = math.pi

    def __getattr__(self, name):
        if name in ("min", "max", "amin", "amax"):
            return lambda x: x
        if name == "ndarray":
            return list
        if name in ("sin", "cos", "radians", "sqrt", "tan", "deg2rad"):
            return lambda x: 0.5
        return getattr(math, name)


class stubbed:
    def whole(self, x, *a):
        """int(x), decided by the real-number comparisons it stands for"""
        if issym(x) and not a:
            for k in range(0, 64):
                if self.ctx.branch(And(le(k, x), lt(x, k + 1))):
                    return k
        return IntShim(x, *a)

    def __init__(self, ctx):
        self.ctx = ctx
        self.on = ctx.symbolic or not ctx.native

    def __enter__(self):
        if self.on:
            self.old = conversion.mathlib
            conversion.mathlib = Stub()
            conversion.int = self.whole
            self.letter = getattr(conversion, "latitude_to_zone_letter", None)
            conversion.latitude_to_zone_letter = lambda latitude: "N"  # not part of the claim

    def __exit__(self, *a):
        if self.on:
            conversion.mathlib = self.old
            del conversion.int
            if self.letter is None:
                del conversion.latitude_to_zone_letter
            else:
                conversion.latitude_to_zone_letter = self.letter


def table(ctx, pts):
    asked = []
    if ctx.symbolic or not ctx.native:
        return Frame([Point(x, y) for x, y in pts], asked), asked
    import geopandas
    import shapely.geometry

    return geopandas.GeoDataFrame({"geometry": [shapely.geometry.Point(x, y) for x, y in pts]}, crs="+proj=longlat +ellps=WGS84 +datum=WGS84 +no_defs"), None


def coords(ctx, n, near, lat=(-80, 84)):
    out = []
    for i in range(n):
        lo, hi = near or (-180, 180)
        x = ctx.real(f"lon{i}", lo, hi)
        y = ctx.real(f"lat{i}", *lat)
        out.append((x, y))
    return out


def h_point(ctx):
    (x, y), = coords(ctx, 1, None)
    with stubbed(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if ctx.symbolic or not ctx.native:
            z = geo.utm_of_point(Point(x, y))
        else:
            import shapely.geometry

            z = geo.utm_of_point(shapely.geometry.Point(x, y))
    z = int(z) if not issym(z) else z
    if issym(z):
        z = next(k for k in range(0, 63) if ctx.branch(eq(z, k)))
    ctx.check(1 <= z <= 60, f"there is no UTM zone {z}")
    ctx.check(zone_is(y, x, z), f"a point outside of zone {z} is said to be in it")
    ctx.cover("exception" if ctx.is_possible(And(le(56, y), lt(y, 64), le(3, x), lt(x, 6))) else "zone")


def h_range(ctx):
    x, y = ctx.real("lon", -400, 400), ctx.real("lat", -90, 90)
    outside = Or(lt(x, -180), gt(x, 180), lt(y, -80), gt(y, 84))
    try:
        with stubbed(ctx), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            geo.utm_of_point(Point(x, y))
    except OutOfRangeError:
        ctx.check(outside, "coordinates in the range of UTM are refused")
        ctx.cover("refused")
        return
    ctx.check(Not(outside), "coordinates outside of the range of UTM have a zone")
    ctx.cover("zone")


def h_most(ctx, n, near, project=False, lat=(-80, 84)):
    pts = coords(ctx, n, near, lat)
    df, asked = table(ctx, pts)
    with stubbed(ctx), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if project:
            out = geo.reprojected(df)
            if asked is None:
                crs = str(out.crs.to_proj4() if hasattr(out.crs, "to_proj4") else out.crs)
            else:
                ctx.check(bool(asked), "the geometries are not projected")
                crs = asked[-1]
            m = re.search(r"zone=(\d+)", crs)
            if not m:
                raise E.EngineError("no zone in " + crs)
            ctx.check("proj=utm" in crs and "south" not in crs and ("units=m" in crs or "units" not in crs), "the projection is not UTM in metres")
            z = int(m.group(1))
        else:
            z = geo.identify_utm_zone(df)
            if issym(z):
                z = next(k for k in range(0, 63) if ctx.branch(eq(z, k)))
    ctx.check(1 <= z <= 60, f"there is no UTM zone {z}")
    mine = Count([zone_is(y, x, z) for x, y in pts])
    ctx.check(gt(mine, 0), "none of the geometries lies in the zone chosen")
    lo, hi = near or (-180, 180)
    first, last = int((lo + 180) // 6) + 1, min(60, int((hi + 180) // 6) + 1)
    for k in range(first, last + 1):
        ctx.check(ge(mine, Count([zone_is(y, x, k) for x, y in pts])), f"more geometries lie in another zone than the one chosen")
    ctx.cover("zone")


def shoelace(pts):
    a = cx = cy = 0
    for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
        w = x0 * y1 - x1 * y0
        a, cx, cy = a + w, cx + (x0 + x1) * w, cy + (y0 + y1) * w
    return cx / (3 * a), cy / (3 * a)


def bent(x, y, flip, arm=1.4):
    """an L that reaches across the meridian x; its centroid is not where most of its corners, its
    bounding box or its inner points are"""
    pts = [(-0.9, 0), (1.0, 0), (1.0, 0.1), (-0.8, 0.1), (-0.8, arm), (-0.9, arm)]
    return [(x + (-a if flip else a), y + b) for a, b in pts]


def hook(x, y, flip):
    """a hook whose inside is mostly on one side of the meridian x and whose centroid is on the other"""
    pts = [(-0.2, 0), (0.9, 0), (0.9, 0.1), (-0.1, 0.1), (-0.1, 2), (-1.3, 2), (-1.3, 1.9), (-0.2, 1.9)]
    return [(x + (-a if flip else a), y + b) for a, b in pts]


def boot(x, y, flip):
    """a tall leg with many corners on one side of the meridian x, a heavy foot on the other"""
    pts = [(-0.15, 0), (1.0, 0), (1.0, 0.3), (-0.05, 0.3)] + [(-0.05, 0.3 + k * 0.3) for k in range(1, 10)] + [(-0.15, 3 - k * 0.3) for k in range(10)]
    return [(x + (-a if flip else a), y + b) for a, b in pts]


SHAPES = [bent(-83.73, 40, False), boot(-84, 40, False), boot(-84, 40, True), bent(-84, 40, False), bent(-84, 40, True), hook(-84, 35, False), hook(-84, 35, True), bent(-78, 30, False, 3), [(-83, 40), (-82, 40), (-82, 41), (-83, 41)], [(-86, 40), (-85, 40), (-85, 41), (-86, 41)]]


def h_shapes(ctx, n=2, project=False):
    """Real geometries across a zone border."""
    import geopandas
    import shapely.geometry

    ps = [SHAPES[ctx.pick(f"shape{i}", len(SHAPES))] for i in range(n)]
    df = geopandas.GeoDataFrame({"geometry": [shapely.geometry.Polygon(q) for q in ps]}, crs="+proj=longlat +ellps=WGS84 +datum=WGS84 +no_defs")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if project:
            out = geo.reprojected(df)
            z = int(re.search(r"zone[= ](\d+)", out.crs.to_proj4() if "zone" in out.crs.to_proj4() else out.crs.to_wkt()).group(1))
        else:
            z = int(geo.identify_utm_zone(df))
    at = [int((shoelace(q)[0] + 180) // 6) + 1 for q in ps]
    ctx.check(at.count(z) == max(at.count(k) for k in at), "more geometries have their centroids in another zone than the one chosen")
    ctx.observe("zone", z)
    ctx.cover(f"zone {z}")


B = "arbitrary longitudes and latitudes"
CASES = [
    Case("point", h_point, {}, covers=("zone", "exception"), bounds="one point anywhere in the range of UTM; " + B),
    Case("range", h_range, {}, covers=("refused", "zone"), bounds="one point anywhere; " + B),
    Case("most-1", h_most, dict(n=1, near=(-180, 180)), covers=("zone",), bounds="one geometry anywhere; " + B),
    Case("most-2", h_most, dict(n=2, near=(-12, 18), lat=(50, 84)), covers=("zone",), bounds="two geometries between 12 W and 18 E, north of 50 N; " + B),
    Case("most-3-norway", h_most, dict(n=3, near=(0, 12), lat=(55, 65)), covers=("zone",), bounds="three geometries between 0 and 12 E, 55 to 65 N; " + B),
    Case("most-3-usa", h_most, dict(n=3, near=(-90, -71), lat=(25, 50)), covers=("zone",), bounds="three geometries between 90 W and 71 W; " + B),
    Case("most-3-greenwich", h_most, dict(n=3, near=(-9, 7), lat=(-10, 50)), covers=("zone",), bounds="three geometries between 9 W and 7 E, on both hemispheres; " + B),
    Case("most-4", h_most, dict(n=4, near=(-80, -71), lat=(25, 50)), covers=("zone",), bounds="four geometries between 80 W and 71 W; " + B),
    Case("project-2", h_most, dict(n=2, near=(-90, -71), lat=(-50, 50), project=True), covers=("zone",), bounds="two geometries between 90 W and 71 W, on both hemispheres; " + B),
    Case("project-3", h_most, dict(n=3, near=(168, 180), lat=(-50, 50), project=True), covers=("zone",), bounds="three geometries between 168 E and 180; " + B),
    Case("project-4", h_most, dict(n=4, near=(-84, -72), lat=(25, 50), project=True), covers=("zone",), bounds="four geometries between 84 W and 72 W; " + B),
    Case("most-5", h_most, dict(n=5, near=(-90, -77), lat=(25, 50)), covers=("zone",), thorough=True, bounds="five geometries between 90 W and 77 W; " + B),
    Case("most-3-europe", h_most, dict(n=3, near=(-12, 18), lat=(50, 70)), covers=("zone",), thorough=True, bounds="three geometries between 12 W and 18 E; " + B),
    Case("shapes-1", h_shapes, dict(n=1), covers=("zone 16", "zone 17"), bounds="one of ten polygons, eight of them across a zone border"),
    Case("shapes-1-project", h_shapes, dict(n=1, project=True), covers=("zone 16", "zone 17"), bounds="one of ten polygons, eight of them across a zone border"),
    Case("shapes-3", h_shapes, dict(n=3), covers=("zone 16", "zone 17"), bounds="any three of ten polygons, eight of them across a zone border"),
]
