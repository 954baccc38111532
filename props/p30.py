"""P30 feature property accessor: which property a feature's image geometry is read from and what writing one changes."""

import copy
import json

import geojson
import numpy as np
import shapely

from aws.osml.features import ImagedFeaturePropertyAccessor

from vlib.feat import KINDS, expected_geometry, random_feature, random_shape, same_shape

SHARDS = {"quick": 32, "thorough": 64}
MIN = {"find": 2000, "no-geometry": 100, "deprecated-hidden": 100, "set-get": 800, "update": 800, "update-absent": 50, "ring-of-other": 50, "json": 500}
RULE = "distinct feature contents"
ASSUME = ["non-empty geometries; properties hold what their name says (no null geometries)", "the deprecated ring and detection properties are only given geometry types they can hold"]


def plain(v):
    return json.loads(json.dumps(v))


def run(m, tier, shard):
    r = m.rng
    A = ImagedFeaturePropertyAccessor
    for i in range(m.n(450, 4000)):
        s = float(r.choice([0.3, 5, 60, 700]))
        cx, cy = [float(v) for v in r.uniform(-2000, 20000, 2)]
        f, props = random_feature(r, cx, cy, s)
        dep = bool(r.random() < 0.6)
        acc = A(allow_deprecated=dep) if not dep or r.random() < 0.5 else A()
        with m.case({"properties": props, "allow_deprecated": dep}, repr(props), dep):
            before = copy.deepcopy(dict(f))
            want = expected_geometry(props, dep)
            got = acc.find_image_geometry(f)
            m.event("find")
            m.check(plain(before) == plain(dict(f)), "reading-modifies", "find_image_geometry modified the feature")
            if want is None:
                m.event("no-geometry")
                if not dep and expected_geometry(props, True) is not None:
                    m.event("deprecated-hidden")
                m.check(got is None, "wrong-geometry", f"{got} reported for a feature without a usable image geometry")
            else:
                m.check(same_shape(got, want), "wrong-geometry", f"{got!s:.200} instead of {want!s:.200}")
            g = A.get_image_geometry(f)
            m.check(same_shape(g, props["imageGeometry"]) if "imageGeometry" in props else g is None, "get-geometry", f"{g!s:.200}")
            b = A.get_image_bbox(f)
            m.check(b.bounds == tuple(props["imageBBox"]) and abs(b.area - shapely.box(*b.bounds).area) == 0 if "imageBBox" in props else b is None, "get-bbox", f"{b!s:.200}")

            # write through the setters
            d = random_shape(r, str(r.choice(KINDS)), cx, cy, s)
            shape = shapely.geometry.shape(d)
            wkb = shapely.to_wkb(shape)
            f2 = copy.deepcopy(f)
            A.set_image_geometry(f2, shape)
            m.event("set-get")
            kept = lambda g: same_shape(g, d) or d["type"] == "LinearRing" and same_shape(g, {**d, "type": "LineString"})
            m.check(kept(A.get_image_geometry(f2)), "set-get", "the geometry read back differs from the one set")
            m.check(kept(acc.find_image_geometry(f2)), "priority", "the image geometry just set is not the one found")
            other = lambda q, *names: {k: v for k, v in plain(dict(q))["properties"].items() if k not in names}
            m.check(other(f2, "imageGeometry") == other(f, "imageGeometry"), "collateral", "set_image_geometry changed another property")
            f3 = copy.deepcopy(f)
            A.set_image_bbox(f3, shape)
            bb = A.get_image_bbox(f3)
            m.check(bb is not None and bb.bounds == shape.bounds, "set-get", f"box {bb} instead of bounds {shape.bounds}")
            m.check(list(f3.properties["imageBBox"]) == list(shape.bounds), "bbox-format", str(f3.properties["imageBBox"]))
            m.check(other(f3, "imageBBox") == other(f, "imageBBox"), "collateral", "set_image_bbox changed another property")
            m.check(shapely.to_wkb(shape) == wkb, "input-mutated", "the geometry passed in was modified")

            # overwrite whatever exists
            kinds = [k for k in KINDS if k != "GeometryCollection"]
            if "geom_imcoords" in props and dep and r.random() < 0.6:
                kinds = ["Polygon", "PolygonHole"]
            d = random_shape(r, str(r.choice(kinds)), cx + 3, cy, s)
            shape = shapely.geometry.shape(d)
            f4 = copy.deepcopy(f)
            acc.update_existing_image_geometries(f4, shape)
            m.event("update")
            now = f4.properties
            m.check(set(now) == set(props), "update-properties", f"properties added or removed: {set(now) ^ set(props)}")
            held = {"imageGeometry", "imageBBox"} | ({"geom_imcoords", "detection", "bounds_imcoords"} if dep else set())
            m.check(other(f4, *held) == other(f, *held), "collateral", "an unrelated or hidden property changed")
            dd = {**d, "type": "LineString"} if d["type"] == "LinearRing" else d
            for name in held & set(props):
                if name == "detection":
                    if "pixelCoordinates" not in props["detection"]:
                        m.check(plain(now["detection"]) == plain(props["detection"]), "collateral", "detection without a geometry changed")
                        continue
                    m.check({k: v for k, v in plain(now["detection"]).items() if k not in ("type", "pixelCoordinates")} == {k: v for k, v in plain(props["detection"]).items() if k not in ("type", "pixelCoordinates")}, "collateral", "detection attributes changed")
                if name == "geom_imcoords" and d["type"] != "Polygon":  # a ring property holds a line as the ring through it, nothing else
                    m.event("ring-of-other")
                    if d["type"] not in ("LineString", "LinearRing") or len(d["coordinates"]) < 4:
                        continue
                    m.check([list(c) for c in plain(now[name])] == [list(c) for c in d["coordinates"]], "update-" + name, f"{now[name]!s:.200}")
                    continue
                only = geojson.Feature(geometry=None, properties={name: plain(now[name])})
                back = A().find_image_geometry(only)
                if name in ("imageBBox", "bounds_imcoords"):
                    m.check(back is not None and back.bounds == shape.bounds, "update-" + name, f"{back} instead of the bounds of {shape!s:.200}")
                elif name == "geom_imcoords":
                    m.check(same_shape(back, {"type": "Polygon", "coordinates": d["coordinates"][:1]}), "update-" + name, f"{back!s:.200}")
                else:
                    b2 = back
                    if b2 is not None and b2.geom_type == "LinearRing":
                        b2 = shapely.LineString(b2.coords)
                    m.check(same_shape(b2, dd), "update-" + name, f"{back!s:.200}")
            if not held & set(props):
                m.event("update-absent")
            # features remain interchangeable GeoJSON
            m.event("json")
            again = geojson.loads(geojson.dumps(f4))
            if "geom_imcoords" in props and dep and d["type"] != "Polygon":
                continue
            x, y = acc.find_image_geometry(again), acc.find_image_geometry(f4)
            m.check((x is None) == (y is None) and (x is None or x.geom_type == y.geom_type and x.equals_exact(y, 1e-6)), "json", "the geometry changes when the feature is written and read")
