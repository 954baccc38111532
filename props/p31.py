"""P31 spatial index: every query compared with a scan over all features."""

import copy

import geojson
import numpy as np
import shapely

from aws.osml.features import ImagedFeaturePropertyAccessor, STRFeature2DSpatialIndex

from vlib.feat import KINDS, expected_geometry, random_feature, random_shape

SHARDS = {"quick": 32, "thorough": 64}
MIN = {"intersects": 2000, "nearest": 2000, "hit": 1000, "miss": 300, "image-index": 40, "map-index": 40, "unlocated": 200, "tie": 30, "default-distance": 200, "empty-collection": 4}
RULE = "distinct (feature collection, query geometry)"
ASSUME = ["pairs that are within 1e-9 of touching, of the distance limit or of the nearest distance may be decided either way", "default distance limits of 50 pixels and 1 degree as in the code's documentation of the two coordinate systems"]


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(18, 120)):
        image = bool(i % 2)
        scale = 1.0 if image else 0.01
        n = int(r.choice([0, 1, 2, 5, 30, 120])) if i > 1 else 0
        grid = bool(r.random() < 0.3)
        feats, shapes = [], []
        dep = bool(r.random() < 0.7)
        for k in range(n):
            cx, cy = [float(v) for v in (np.round(r.uniform(0, 10, 2)) * 40 if grid else r.uniform(-100, 1000, 2))]
            s = float(r.choice([0.5, 8, 90]))
            if image:
                f, props = random_feature(r, cx, cy, s, subset=None if r.random() < 0.5 else ["imageGeometry"])
                if grid and "imageGeometry" in props:
                    f.properties["imageGeometry"] = props["imageGeometry"] = {"type": "Point", "coordinates": [cx, cy]}
                d = expected_geometry(props, dep)
                if r.random() < 0.3:
                    f["geometry"] = geojson.Point((float(r.uniform(-180, 180)), 0.0))  # must not be what is indexed
            else:
                d = None
                if r.random() > 0.15:
                    kinds = [q for q in KINDS if q != "LinearRing"]
                    d = random_shape(r, str(r.choice(kinds)), cx * scale, cy * scale, s * scale) if not grid else {"type": "Point", "coordinates": (cx * scale, cy * scale)}
                f = geojson.Feature(geometry=d and geojson.loads(geojson.dumps(d)), properties={"imageBBox": [1, 2, 3, 4]} if r.random() < 0.5 else {}, id=k)
                d = f["geometry"]
            feats.append(f)
            shapes.append(shapely.geometry.shape(d) if d is not None else None)
            if d is None:
                m.event("unlocated")
        with m.case({"image": image, "n": n, "grid": grid, "allow_deprecated": dep}, repr(feats), image):
            fc = geojson.FeatureCollection(feats)
            before = copy.deepcopy(feats)
            if image:
                index = STRFeature2DSpatialIndex(fc, property_accessor=ImagedFeaturePropertyAccessor(dep)) if not dep or r.random() < 0.5 else STRFeature2DSpatialIndex(fc)
                m.event("image-index")
            else:
                index = STRFeature2DSpatialIndex(fc, use_image_geometries=False)
                m.event("map-index")
            if n == 0:
                m.event("empty-collection")
            for q in range(m.n(45, 80)):
                qk = str(r.choice(["Point", "box", "LineString", "Polygon", "MultiPoint", "MultiPolygon"]))
                cx, cy = [float(v) for v in (np.round(r.uniform(-0.4, 10.4, 2)) * 40 + (20 if r.random() < 0.5 else 0) if grid else r.uniform(-250, 1200, 2))]
                s = float(r.choice([0.2, 15, 200]))
                if qk == "box":
                    g = shapely.box(scale * (cx - s), scale * (cy - s), scale * (cx + s), scale * (cy + s * 0.7))
                elif qk == "Point":
                    g = shapely.Point(cx * scale, cy * scale)
                else:
                    g = shapely.geometry.shape(random_shape(r, qk, cx * scale, cy * scale, s * scale))
                tol = 1e-9 * max(1.0, scale * 1000)
                dist = [None if sh is None else float(shapely.distance(sh, g)) for sh in shapes]
                pos = {id(f): k for k, f in enumerate(feats)}

                def identify(res, what):
                    res = list(res)
                    out = [pos.get(id(f), -1) for f in res]
                    m.require(-1 not in out, what + "-identity", "something other than the indexed feature was returned")
                    m.check(len(set(out)) == len(out), what + "-duplicate", str(out))
                    m.event("hit" if out else "miss")
                    return set(out)

                m.seen(i, shard, q)
                got = identify(index.find_intersects(g), "intersects")
                m.event("intersects")
                must = {k for k in range(n) if dist[k] == 0.0 and shapes[k].intersects(g)}
                touchy = {k for k in must if shapely.distance(shapes[k].boundary if shapes[k].geom_type in ("Polygon",) else shapes[k], g) == 0 and not shapes[k].buffer(-tol).intersects(g)} if must ^ got else set()
                m.check(must - got <= touchy, "intersects-missing", f"{sorted(must - got)[:5]} intersect but were not returned", query=g.wkt[:300])
                m.check(all(dist[k] is not None and dist[k] <= tol for k in got), "intersects-extra", f"distances {[dist[k] for k in got][:5]}", query=g.wkt[:300])

                limit = float(r.choice([3, 25, 50, 120, 5000])) * scale
                kw = {"max_distance": limit}
                if r.random() < 0.4:
                    kw, limit = ({}, 50.0 if image else 1.0)
                    m.event("default-distance")
                got = identify(index.find_nearest(g, **kw), "nearest")
                m.event("nearest")
                known = [d for d in dist if d is not None]
                best = min(known) if known else float("inf")
                if best > limit + tol:
                    m.check(not got, "nearest-limit", f"returned a feature at {[dist[k] for k in got][:3]} beyond {limit}")
                elif best < limit - tol:
                    m.check(bool(got), "nearest-missing", f"the feature at {best} within {limit} was not found", query=g.wkt[:300])
                    m.check(all(dist[k] is not None and dist[k] <= best + tol for k in got), "nearest-wrong", f"{[dist[k] for k in got][:3]} instead of {best}", query=g.wkt[:300])
                    exact = {k for k in range(n) if dist[k] == best}
                    if len(exact) > 1:
                        m.event("tie")
                    if grid:
                        m.check(exact <= got or best == 0.0 and bool(got), "nearest-tie", f"{len(exact)} equally near features, {len(got)} returned")
            m.check(before == feats, "features-mutated", "querying modified the features")
