"""Random image features (GeoJSON with image geometries) and an independent reading of their image geometry."""

import copy

import geojson
import shapely

KINDS = ["Point", "LineString", "LinearRing", "Polygon", "PolygonHole", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection"]


def _ring(r, cx, cy, s, n=None):
    import math

    n = n or int(r.integers(3, 8))
    a0 = float(r.uniform(0, 6.28))
    pts = [(cx + s * float(r.uniform(0.6, 1)) * math.cos(a0 + 2 * math.pi * k / n), cy + s * float(r.uniform(0.6, 1)) * math.sin(a0 + 2 * math.pi * k / n)) for k in range(n)]
    return pts + [pts[0]]


def random_shape(r, kind, cx, cy, s):
    """GeoJSON-like dict of a shape of about size s near (cx, cy)"""
    p = lambda: (cx + float(r.uniform(-s, s)), cy + float(r.uniform(-s, s)))
    line = lambda: [p() for _ in range(int(r.integers(2, 6)))]

    def poly(hole):
        out = [_ring(r, cx, cy, s)]
        if hole:
            for k in range(int(r.integers(1, 3))):
                out.append(_ring(r, cx + (k - 0.5) * 0.2 * s, cy, 0.08 * s, 4))
        return out

    if kind == "Point":
        return {"type": "Point", "coordinates": p()}
    if kind == "LineString":
        return {"type": "LineString", "coordinates": line()}
    if kind == "LinearRing":
        return {"type": "LinearRing", "coordinates": _ring(r, cx, cy, s)}
    if kind in ("Polygon", "PolygonHole"):
        return {"type": "Polygon", "coordinates": poly(kind == "PolygonHole")}
    if kind == "MultiPoint":
        return {"type": "MultiPoint", "coordinates": [p() for _ in range(int(r.integers(1, 5)))]}
    if kind == "MultiLineString":
        return {"type": "MultiLineString", "coordinates": [line() for _ in range(int(r.integers(1, 4)))]}
    if kind == "MultiPolygon":
        out = []
        for k in range(int(r.integers(1, 4))):
            cx0 = cx + k * 2.5 * s
            ring = [_ring(r, cx0, cy, s)]
            if r.random() < 0.4:
                ring.append(_ring(r, cx0, cy, 0.1 * s, 4))
            out.append(ring)
        return {"type": "MultiPolygon", "coordinates": out}
    subs = [k for k in KINDS if k not in ("GeometryCollection", "LinearRing")]
    return {"type": "GeometryCollection", "geometries": [random_shape(r, str(r.choice(subs)), cx, cy, s) for _ in range(int(r.integers(1, 4)))]}


def parts(g):
    """(structure, flat list of coordinates) of a GeoJSON-like geometry; LinearRing counts as the LineString it is written as"""
    if g["type"] == "GeometryCollection":
        st, flat = [], []
        for q in g["geometries"]:
            a, b = parts(q)
            st.append(a)
            flat += b
        return ("GeometryCollection", tuple(st)), flat
    flat = []

    def walk(c):
        if c and isinstance(c[0], (int, float)):
            flat.append(tuple(float(v) for v in c))
            return "."
        return tuple(walk(x) for x in c)

    st = walk(g["coordinates"])
    t = "LineString" if g["type"] == "LinearRing" else g["type"]
    return (t, st), flat


def box_dict(b):
    x0, y0, x1, y1 = b
    return {"type": "Polygon", "coordinates": [[(x0, y0), (x0, y1), (x1, y1), (x1, y0), (x0, y0)]]}


def bounds(g):
    _, f = parts(g)
    xs, ys = [c[0] for c in f], [c[1] for c in f]
    return [min(xs), min(ys), max(xs), max(ys)]


def expected_geometry(props, deprecated=True):
    """Independent reading of a feature's image geometry (priority order of the documentation) -> GeoJSON-like dict or None"""
    if "imageGeometry" in props:
        return props["imageGeometry"]
    if "imageBBox" in props:
        return box_dict(props["imageBBox"])
    if deprecated:
        if "geom_imcoords" in props:
            c = [tuple(v) for v in props["geom_imcoords"]]
            if c[0] != c[-1]:
                c.append(c[0])
            return {"type": "Polygon", "coordinates": [c]}
        if "detection" in props and "pixelCoordinates" in props["detection"]:
            return {"type": props["detection"]["type"], "coordinates": props["detection"]["pixelCoordinates"]}
        if "bounds_imcoords" in props:
            return box_dict(props["bounds_imcoords"])
    return None


def same_shape(geom, d):
    """A shapely geometry and a GeoJSON-like dict denote the same shape, coordinate by coordinate (boxes in any vertex order)"""
    want = shapely.geometry.shape(d)
    if geom is None or geom.geom_type != want.geom_type or geom.is_empty != want.is_empty:
        return False
    if shapely.get_num_coordinates(geom) != shapely.get_num_coordinates(want):
        return False
    if geom.equals_exact(want, 0.0):
        return True
    return geom.geom_type == "Polygon" and shapely.normalize(geom).equals_exact(shapely.normalize(want), 0.0)


def random_feature(r, cx, cy, s, subset=None, kind=None, others=True):
    """A feature with a random subset of the image geometry properties, each holding a different shape"""
    names = ["imageGeometry", "imageBBox", "geom_imcoords", "detection", "bounds_imcoords"]
    if subset is None:
        subset = [n for n in names if r.random() < 0.4]
    props = {}
    if others:
        props = {"image_id": f"id-{int(r.integers(1e6))}", "detection_score": float(r.random()), "feature_types": {"a": 0.5, "b": [1, 2]}, "none": None}
    if "imageGeometry" in subset:
        props["imageGeometry"] = random_shape(r, kind or str(r.choice(KINDS)), cx, cy, s)
    if "imageBBox" in subset:
        props["imageBBox"] = bounds(random_shape(r, "Polygon", cx + s * float(r.uniform(-1, 1)), cy, s * float(r.uniform(0.3, 6))))
    if "geom_imcoords" in subset:
        ring = _ring(r, cx - s, cy, s)
        props["geom_imcoords"] = ring if r.random() < 0.5 else ring[:-1]
    if "detection" in subset:
        d = random_shape(r, str(r.choice(["Point", "LineString", "Polygon", "MultiPoint"])), cx, cy + s, s)
        props["detection"] = {"type": d["type"], "pixelCoordinates": d["coordinates"], "ontology": "x", "confidence": 0.4}
    elif others and r.random() < 0.3:
        props["detection"] = {"type": "Feature", "ontology": "x"}
    if "bounds_imcoords" in subset:
        props["bounds_imcoords"] = bounds(random_shape(r, "Polygon", cx, cy - s, s))
    # property order must not matter
    keys = list(props)
    r.shuffle(keys)
    props = {k: props[k] for k in keys}
    f = geojson.Feature(geometry=None, properties=copy.deepcopy(props), id=int(r.integers(1e9)))
    return f, props
