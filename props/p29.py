"""P29 geolocation of features: every coordinate written is compared with the camera evaluated directly."""

import contextlib
import copy
import io
import json
import math

import geojson
import numpy as np
import shapely

from aws.osml.features import Geolocator, ImagedFeaturePropertyAccessor
from aws.osml.photogrammetry import ConstantElevationModel, GDALAffineSensorModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModel

from vlib import rpc
from vlib.feat import KINDS, bounds, expected_geometry, parts, random_feature, random_shape
from vlib.sm import PlaneElevation

SHARDS = {"quick": 8, "thorough": 32}
MIN = {"fewer": 100, "geometry": 1000, "bbox": 400, "center": 1000, "terrain": 300, "curved": 90, "affine": 70, "rpc": 20, "unlocated": 100, "antimeridian": 6, "antimeridian-batch": 60, "nothing-to-do": 15, "box-outside-geometry": 100, "tiny-area": 30, "empty-geometry": 60, "crossed-outline": 15}
RULE = "distinct (camera, terrain, batch of features)"
ASSUME = [
    "the documented approximation grid (linear between grid nodes of the requested resolution, spanning the batch plus a margin) is granted: tolerance from the camera's own curvature over one cell",
    "GeoJSON objects round coordinates to 6 decimals (geojson library default)",
    "images away from the poles; areas spanning less than 90 degrees of longitude; longitudes compared modulo 360",
]


KEYS = ("imageGeometry", "imageBBox", "geom_imcoords", "bounds_imcoords", "detection")


class Camera(SensorModel):
    """lon, lat, elevation as quadratic functions of the pixel; curvature 0 makes the grid exact"""

    def __init__(self, lon0, lat0, a, q, h):
        super().__init__()
        self.lon0, self.lat0, self.a, self.q, self.h = lon0, lat0, a, q, h
        self.calls = 0

    def at(self, x, y):
        x, y = x - 5000.0, y - 5000.0
        a, q = self.a, self.q
        lon = self.lon0 + a[0] * x + a[1] * y + a[4] * x * y * 0 + q * (x * x + 0.5 * y * y)
        lat = self.lat0 + a[2] * x + a[3] * y + q * (0.3 * x * x - y * y)
        return (lon + math.pi) % (2 * math.pi) - math.pi, lat, self.h[0] + self.h[1] * x + self.h[2] * y

    def image_to_world(self, c, elevation_model=None, options=None):
        self.calls += 1
        g = GeodeticWorldCoordinate(list(self.at(float(c.x), float(c.y))))
        if elevation_model is not None:
            elevation_model.set_elevation(g)
        return g

    def world_to_image(self, g):
        raise NotImplementedError()


def wrap180(d):
    return (d + 180.0) % 360.0 - 180.0


def plain(v):
    return json.loads(json.dumps(v))


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(110, 700)):
        kind = ["flat", "flat", "curved", "affine", "rpc"][i % 5] if i % 15 == 4 or i % 5 != 4 else "flat"
        gsd = 10 ** float(r.uniform(-7.5, -5.2))  # radians per pixel
        lon0 = float(r.uniform(-math.pi, math.pi))
        anti = kind in ("flat", "curved", "affine") and r.random() < 0.3
        if anti:
            lon0 = math.pi + float(r.choice([1, 60])) * float(r.uniform(-10, 10)) * gsd
        lat0 = float(r.uniform(-1.2, 1.2))
        th = float(r.uniform(0, 6.28))
        a = [gsd * math.cos(th), -gsd * math.sin(th), gsd * math.sin(th) * float(r.choice([-1, 1])), gsd * math.cos(th), 0.0]
        area = float(r.choice([0, 30, 500, 4000]))
        if kind in ("flat", "curved"):
            cam = Camera(lon0, lat0, a, gsd * 1e-5 if kind == "curved" else 0.0, [float(r.uniform(-50, 3000)), float(r.uniform(-0.1, 0.1)), float(r.uniform(-0.1, 0.1))])
            cx0, cy0 = [float(v) for v in r.uniform(4000, 6000, 2)]
        elif kind == "affine":
            cx0, cy0 = [float(v) for v in r.uniform(0, 3000, 2)]
            d = math.degrees
            lon_w = (lon0 + math.pi) % (2 * math.pi) - math.pi
            cam = GDALAffineSensorModel([d(lon_w - a[0] * cx0 - a[1] * cy0), d(a[0]), d(a[1]), d(lat0 - a[2] * cx0 - a[3] * cy0), d(a[2]), d(a[3])])
            anti = False
            if abs(lon_w) > math.pi - 2e4 * gsd:
                continue  # an affine camera reports longitudes beyond 180 there
        else:
            p = rpc.random_rpc(r)
            cam = rpc.build(p)
            cx0, cy0 = p["samp_off"], p["line_off"]
            area = min(area, p["samp_scale"] * 0.4, p["line_scale"] * 0.4)
        em = None
        q = r.random()
        if kind != "rpc" and q < 0.3:
            em = ConstantElevationModel(float(r.uniform(-100, 5000)))
        elif kind != "rpc" and q < 0.6:
            em = PlaneElevation(float(r.uniform(0, 1000)), lon0, lat0, se=0.02, sn=-0.03, ripple=20.0)
        grid = int(r.choice([2, 5, 11, 11, 25]))
        dep = bool(r.random() < 0.6)
        n = int(r.choice([1, 1, 3, 12]))
        tiny = area == 0
        feats, props, crossed = [], [], set()
        for k in range(n):
            cx, cy = cx0 + float(r.uniform(-1, 1)) * area, cy0 + float(r.uniform(-1, 1)) * area
            u = r.random()
            if tiny:
                sub, kd = ["imageGeometry"], "Point"
            elif u < 0.35:
                sub, kd = ["imageGeometry"], None
            elif u < 0.5:
                sub, kd = ["imageBBox"], None
            elif u < 0.65:
                sub, kd = ["imageGeometry", "imageBBox"], None
            elif u < 0.72:
                sub, kd = [], None
            else:
                sub, kd = None, None
            f, p_ = random_feature(r, cx, cy, 0.001 if tiny else float(r.choice([2, 20, 150])) * min(1.0, max(area, 60) / 500), subset=sub, kind=kd)
            if r.random() < 0.2:
                f["geometry"] = geojson.Point((1.0, 2.0))
            g0 = p_.get("imageGeometry")
            if g0 and "Polygon" in g0["type"] and r.random() < 0.12:
                # outlines that cross themselves, as detectors produce them
                for ring in [g0["coordinates"]] if g0["type"] == "Polygon" else g0["coordinates"]:
                    if len(ring[0]) > 4:
                        ring[0][1], ring[0][2] = ring[0][2], ring[0][1]
                        crossed.add(k)
                f["properties"]["imageGeometry"] = copy.deepcopy(g0)
            elif r.random() < 0.06:
                # an image geometry without a single location
                for key in KEYS:
                    if key != "imageBBox":
                        f.properties.pop(key, None)
                        p_.pop(key, None)
                t = str(r.choice(["Polygon", "Point", "MultiPolygon", "LineString", "GeometryCollection"]))
                f.properties["imageGeometry"] = {"type": t, "geometries" if t == "GeometryCollection" else "coordinates": []}
                m.event("empty-geometry")
            feats.append(f)
            props.append(p_)
        if i % 9 == 8:
            for f, p_ in zip(feats, props):
                for k in KEYS:
                    f.properties.pop(k, None)
                    p_.pop(k, None)
        with m.case({"camera": kind, "lon0": lon0, "lat0": lat0, "gsd": gsd, "terrain": type(em).__name__, "grid": grid, "n": n, "area": area, "deprecated": dep}, kind, lon0, i, shard):
            before = copy.deepcopy(feats)
            geo = Geolocator(ImagedFeaturePropertyAccessor(allow_deprecated=dep), cam, elevation_model=em, approximation_grid_size=grid) if grid != 11 else Geolocator(ImagedFeaturePropertyAccessor(dep), cam, em)
            printed = io.StringIO()
            with contextlib.redirect_stdout(printed):
                geo.geolocate_features(feats)
            m.check(not printed.getvalue(), "printed", f"wrote to standard output: {printed.getvalue()[:80]!r}")
            m.event(kind)
            if tiny:
                m.event("tiny-area")
            geoms = [expected_geometry(p_, dep) for p_ in props]
            known = [g for g in geoms if g is not None]
            if not known:
                m.event("nothing-to-do")
            # grid cell: the batch's whole extent (geometries and boxes) plus the margin, divided by the resolution
            ext = [bounds(g) for g in known] + [p_["imageBBox"] for p_ in props if "imageBBox" in p_]

            def true(x, y):
                g = cam.image_to_world(ImageCoordinate([x, y]), elevation_model=em)
                return math.degrees(g.longitude), math.degrees(g.latitude), g.elevation

            slack = np.zeros(3)
            if known and kind in ("curved", "rpc"):
                x0, y0 = min(b[0] for b in ext) - 10, min(b[1] for b in ext) - 10
                x1, y1 = max(b[2] for b in ext) + 10, max(b[3] for b in ext) + 10
                hx, hy = (x1 - x0) / (grid - 1), (y1 - y0) / (grid - 1)
                for _ in range(6):
                    px, py = x0 + hx / 2 + float(r.random()) * (x1 - x0 - hx), y0 + hy / 2 + float(r.random()) * (y1 - y0 - hy)
                    c = np.array(true(px, py))
                    for dx, dy in ((hx / 2, 0), (0, hy / 2)):
                        e = np.array(true(px + dx, py + dy)) + np.array(true(px - dx, py - dy)) - 2 * c
                        e[0] = wrap180(e[0])
                        slack = np.maximum(slack, np.abs(e))
                slack *= 2.0

            tol_ll = np.array([6e-7, 6e-7]) + slack[:2] + (2e-6 / 111000.0 if kind != "rpc" else 2e-6)
            worst = 0.0

            def compare(got, x, y, key):
                w = true(x, y)
                ok = len(got) == 3 and all(math.isfinite(v) for v in got)
                if m.check(ok, key, f"{got}"):
                    e = [abs(wrap180(got[0] - w[0])), abs(got[1] - w[1])]
                    m.close(e, [0, 0], tol_ll, key, result=got, expected=w)
                    m.check(-180.000001 <= got[0] <= 180.000001, "longitude-range", str(got[0]))
                    g = GeodeticWorldCoordinate([math.radians(got[0]), math.radians(got[1]), -9999.0])
                    if em is not None:
                        em.set_elevation(g)
                        m.event("terrain")
                        m.close(got[2], g.elevation, 0.02, "elevation")
                    else:
                        m.close(got[2], w[2], 2e-6 + 2 * slack[2] + (0.5 if kind == "rpc" else 0), "elevation")

            for k, (f, b, p_, g) in enumerate(zip(feats, before, props, geoms)):
                fp, bp = plain(dict(f)), plain(dict(b))
                strip = lambda d: {k: v for k, v in d.items() if k not in ("center_longitude", "center_latitude")}
                m.check(strip(fp["properties"]) == bp["properties"], "properties-changed", "geolocation changed a property other than the center")
                if g is None:
                    m.event("unlocated")
                    m.check(fp == bp, "unlocated-changed", "a feature without image geometry was changed")
                    continue
                m.check({k: v for k, v in fp.items() if k not in ("properties", "geometry", "bbox")} == {k: v for k, v in bp.items() if k not in ("properties", "geometry", "bbox")}, "feature-changed", "id or type changed")
                source = g if "imageGeometry" in p_ or "imageBBox" not in p_ else None
                if source is not None:
                    m.event("geometry")
                    out = f["geometry"]
                    m.require(out is not None, "no-geometry", "the feature has no geometry after geolocation")
                    # the shape read back by shapely fixes ring closure and duplicate conventions
                    ws, wc = parts(plain(shapely.geometry.mapping(shapely.geometry.shape(source))))
                    gs, gc = parts(plain(out))
                    m.require(gs == ws and len(gc) == len(wc), "structure", f"{gs!s:.200} instead of {ws!s:.200}")
                    if "imageGeometry" not in p_ and ws[0] == "Polygon" and len(wc) == 5:  # a box has no first corner or direction
                        ring = wc[:4]
                        orders = [o + o[:1] for k in range(4) for o in (ring[k:] + ring[:k], (ring[k:] + ring[:k])[::-1])]
                        def misfit(o):
                            e = np.array([[wrap180(q[0] - t[0]) / tol_ll[0], (q[1] - t[1]) / tol_ll[1], (q[2] - t[2]) * (100 if em is None else 0)] for q, t in ((q, true(*p)) for p, q in zip(o, gc))])
                            return float(np.abs(e - e.mean(0)).sum())

                        wc = min(orders, key=misfit)
                    for cgot, cimg in zip(gc, wc):
                        compare(cgot, cimg[0], cimg[1], "coordinate")
                    m.check(not isinstance(out, dict) or plain(out).get("type") == ws[0], "type", str(plain(out).get("type")))
                else:
                    m.check(fp.get("geometry") == bp.get("geometry"), "geometry-invented", "geometry changed although only a box is known")
                if "imageBBox" in p_:
                    m.event("bbox")
                    x0, y0, x1, y1 = p_["imageBBox"]
                    gb = bounds(g)
                    if x0 < gb[0] - 10 or x1 > gb[2] + 10 or y0 < gb[1] - 10 or y1 > gb[3] + 10:
                        m.event("box-outside-geometry")
                    cs = [true(x, y) for x, y in ((x0, y0), (x0, y1), (x1, y1), (x1, y0))]
                    ref = cs[0][0]
                    un = [ref + wrap180(c[0] - ref) for c in cs]
                    want = [min(un), min(c[1] for c in cs), max(un), max(c[1] for c in cs)]
                    got = [float(v) for v in f["bbox"]]
                    m.require(len(got) == 4 and all(map(math.isfinite, got)), "bbox", str(got))
                    e = [wrap180(got[0] - want[0]), got[1] - want[1], wrap180(got[2] - want[2]), got[3] - want[3]]
                    m.close(e, [0] * 4, np.tile(tol_ll, 2), "bbox", result=got, expected=want)
                    span_ok = max(un) - min(un) < 1e-9 or abs(((got[2] - got[0]) % 360.0) - (max(un) - min(un))) <= 4 * tol_ll[0]
                    m.check(span_ok, "bbox-span", f"{got} spans the wrong way round")
                    if max(un) > 180 or min(un) < -180:
                        m.event("antimeridian")
                else:
                    m.check(fp.get("bbox") == bp.get("bbox"), "bbox-invented", "bbox set for a feature without image box")
                if k in crossed:
                    m.event("crossed-outline")
                    continue  # the centroid of such a shape may be anywhere
                m.event("center")
                if source is not None:
                    c = shapely.geometry.shape(source).centroid
                    x, y = c.x, c.y
                else:
                    x, y = (p_["imageBBox"][0] + p_["imageBBox"][2]) / 2, (p_["imageBBox"][1] + p_["imageBBox"][3]) / 2
                w = true(x, y)
                pr = f["properties"]
                m.close([wrap180(pr["center_longitude"] - w[0]), pr["center_latitude"] - w[1]], [0, 0], tol_ll, "center")
            if anti:
                m.event("antimeridian-batch")
            # a second pass over the same features changes nothing
            again = copy.deepcopy(feats)
            geo.geolocate_features(again)
            m.check(plain([dict(f) for f in again]) == plain([dict(f) for f in feats]), "repeat", "geolocating again gives different results")
            # fewer features, with the geolocator that has seen them all and with one that has not
            few = [f for f in before if r.random() < 0.3] or before[:1]
            fresh = Geolocator(ImagedFeaturePropertyAccessor(allow_deprecated=dep), cam, elevation_model=em, approximation_grid_size=grid)
            a, b = copy.deepcopy(few), copy.deepcopy(few)
            geo.geolocate_features(a)
            fresh.geolocate_features(b)
            m.event("fewer")
            m.check(plain([dict(f) for f in a]) == plain([dict(f) for f in b]), "history", "features are placed differently after others were placed")
    with m.case({"features": "none"}, "none"):
        Geolocator(ImagedFeaturePropertyAccessor(), Camera(0, 0, [1e-6, 0, 0, 1e-6, 0], 0, [0, 0, 0])).geolocate_features([])
