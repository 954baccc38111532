"""P23 map tile set: tile bounds and the tile of a location are compared with the spherical Mercator grid evaluated independently."""

import math

import numpy as np

from aws.osml.image_processing import MapTileId, MapTileSetFactory, WellKnownMapTileSet
from aws.osml.photogrammetry import GeodeticWorldCoordinate

SHARDS = {"quick": 32, "thorough": 64}
MIN = {"bounds": 2000, "location": 3000, "outer-edge": 200, "boundary": 300, "limits": 500, "neighbour": 500, "children": 500, "deep-zoom": 500, "unknown-set": 20}
RULE = "distinct (tile set, zoom, tile or location)"
ASSUME = ["locations within a millionth of a tile of a boundary may go to either side", "zoom 0 to 26", "latitudes beyond the grid belong to the outermost rows"]
LAT = math.atan(math.sinh(math.pi))


def ref_bounds(z, row, col):
    n = 2 ** z
    lat = lambda q: math.atan(math.sinh(math.pi * (2.0 * q / n - 1.0)))
    return -math.pi + 2 * math.pi * col / n, lat(row), -math.pi + 2 * math.pi * (col + 1) / n, lat(row + 1)


def ref_position(z, lon, lat):
    """fractional (column, row from the south)"""
    n = 2 ** z
    return (lon + math.pi) / (2 * math.pi) * n, (1.0 + math.asinh(math.tan(lat)) / math.pi) / 2 * n


def run(m, tier, shard):
    r = m.rng
    sets = {}
    for name, size in (("WebMercatorQuad", 256), ("WebMercatorQuadx2", 512)):
        with m.case({"set": name}, name):
            s = MapTileSetFactory.get_for_id(name)
            m.require(s is not None, "known-set", name)
            m.check(s.tile_matrix_set_id == name, "set-id", str(s.tile_matrix_set_id))
            e = MapTileSetFactory.get_for_id(WellKnownMapTileSet(name))
            m.check(e is not None and e.tile_matrix_set_id == name, "set-id", "the well known identifier does not select the set")
            sets[name] = (s, size)
    for q in ["", "webmercatorquad", "WorldCRS84Quad", "WebMercatorQuadx4", "None"]:
        with m.case({"set": q}, q):
            m.event("unknown-set")
            m.check(MapTileSetFactory.get_for_id(q) is None, "unknown-set", q)
    with m.case({"numbering": "rows"}, "rows", shard):
        # OGC 17-083r2 Annex D.1: tile row 0 of WebMercatorQuad is the northernmost row
        t = sets["WebMercatorQuad"][0].get_tile(MapTileId(tile_matrix=1, tile_row=0, tile_col=0))
        m.check(t.bounds[1] >= -1e-9, "row-origin", "row 0 is the southern row")
    for i in range(m.n(500, 3000)):
        name = ["WebMercatorQuad", "WebMercatorQuadx2"][i % 2]
        if name not in sets:
            continue
        s, size = sets[name]
        z = int(r.integers(0, 27))
        if z > 18:
            m.event("deep-zoom")
        n = 2 ** z
        span = 2 * math.pi / n
        # rows are numbered in the direction reported for the coarsest split (see row-origin)
        row, col = [int(r.choice([0, n - 1, n // 2, max(0, n // 2 - 1)])) if r.random() < 0.2 else int(r.integers(0, n)) for _ in range(2)]
        with m.case({"set": name, "zoom": z, "row": row, "col": col}, name, z, row, col):
            tid = MapTileId(tile_matrix=z, tile_row=row, tile_col=col)
            t = s.get_tile(tid)
            m.event("bounds")
            m.check(t.id == tid and tuple(t.size) == (size, size), "tile-identity", f"{t.id} {t.size}")
            b = [float(v) for v in t.bounds]
            want = ref_bounds(z, row, col)
            tol = 1e-6 * span + 3e-15
            m.close(b, want, max(tol, 2e-13) if z < 27 else 1e-12, "bounds")
            # neighbours share their edge, children fill their parent
            if n > 1:
                m.event("neighbour")
                c2 = col + 1 if col + 1 < n else col - 1
                o = s.get_tile(MapTileId(tile_matrix=z, tile_row=row, tile_col=c2)).bounds
                e1, e2 = (b[2], o[0]) if c2 > col else (b[0], o[2])
                m.check(abs(e1 - e2) <= 1e-12 * math.pi, "gap", f"column edges {e1!r} {e2!r}")
                r2 = row + 1 if row + 1 < n else row - 1
                o = s.get_tile(MapTileId(tile_matrix=z, tile_row=r2, tile_col=col)).bounds
                e = min(abs(b[3] - o[1]), abs(b[1] - o[3]))
                m.check(e <= 1e-12 * math.pi, "gap", f"row edges differ by {e}")
            m.event("children")
            kids = [s.get_tile(MapTileId(tile_matrix=z + 1, tile_row=2 * row + a, tile_col=2 * col + c)).bounds for a in (0, 1) for c in (0, 1)]
            m.close([min(k[0] for k in kids), min(k[1] for k in kids), max(k[2] for k in kids), max(k[3] for k in kids)], b, 1e-12 * math.pi, "children")
            # the centre and a random inside point belong to the tile
            for u, v in [(0.5, 0.5), tuple(r.uniform(0.01, 0.99, 2))]:
                g = GeodeticWorldCoordinate([b[0] + u * (b[2] - b[0]), b[1] + v * (b[3] - b[1]), float(r.uniform(-100, 9000))])
                keep = g.coordinate.copy()
                t2 = s.get_tile_for_location(g, z)
                m.check(np.array_equal(keep, g.coordinate), "input-mutated")
                m.check(t2.id == tid, "inverse", f"a point inside tile {tid} is assigned {t2.id}")
        # locations
        style = str(r.choice(["any", "any", "edge", "corner", "outer"]))
        lon, lat = float(r.uniform(-math.pi, math.pi)), float(math.asin(r.uniform(-0.99, 0.99)))
        if style == "edge":
            m.event("boundary")
            bb = ref_bounds(z, row, col)
            lon, lat = (bb[0], lat) if r.random() < 0.5 else (lon, bb[1])
        elif style == "corner":
            m.event("boundary")
            bb = ref_bounds(z, row, col)
            lon, lat = bb[0], bb[1]
        elif style == "outer":
            m.event("outer-edge")
            lon = float(r.choice([-math.pi, math.pi, lon, 0.0]))
            lat = float(r.choice([math.pi / 2, -math.pi / 2, LAT, -LAT, 1.5, -1.5, 0.0]))
        with m.case({"set": name, "zoom": z, "lon": math.degrees(lon), "lat": math.degrees(lat)}, name, z, lon, lat):
            m.event("location")
            t = s.get_tile_for_location(GeodeticWorldCoordinate([lon, lat, 0.0]), z)
            z2, rr, cc = t.id.tile_matrix, t.id.tile_row, t.id.tile_col
            m.check(z2 == z, "zoom", f"{t.id}")
            m.check(isinstance(rr, int) and isinstance(cc, int) and 0 <= rr < n and 0 <= cc < n, "outside-grid", f"{t.id} does not exist at zoom {z}")
            x, y = ref_position(z, lon, max(-LAT, min(LAT, lat)))
            eps = 1e-6 + n * 1e-13
            x, y = min(max(x, 0.0), float(n)), min(max(y, 0.0), float(n))
            m.check(cc - eps <= x <= cc + 1 + eps, "column", f"column {cc} for position {x}")
            m.check(rr - eps <= y <= rr + 1 + eps, "row", f"row {rr} for position {y}")
            m.close([float(v) for v in t.bounds], ref_bounds(z, rr, cc), max(1e-6 * span, 2e-13), "bounds")
        # areas
        with m.case({"set": name, "zoom": z, "call": "limits"}, name, z, "limits", lon, lat):
            m.event("limits")
            k = int(r.integers(1, 7))
            w = 10 ** r.uniform(-6, -0.5)
            pts = [(float(np.clip(lon + r.uniform(-w, w), -math.pi, math.pi)), float(np.clip(lat + r.uniform(-w, w), -1.48, 1.48))) for _ in range(k)]
            arg = [GeodeticWorldCoordinate([a, b, 0.0]) for a, b in pts]
            lim = s.get_tile_matrix_limits_for_area(arg, z)
            ids = [s.get_tile_for_location(GeodeticWorldCoordinate([a, b, 0.0]), z).id for a, b in pts]
            want = (min(q.tile_col for q in ids), min(q.tile_row for q in ids), max(q.tile_col for q in ids), max(q.tile_row for q in ids))
            m.check(tuple(lim) == want, "limits", f"{tuple(lim)} instead of {want}")
            pos = [ref_position(z, a, b) for a, b in pts]
            eps = 1e-6 + n * 1e-13
            m.check(all(lim[0] - eps <= x <= lim[2] + 1 + eps and lim[1] - eps <= y <= lim[3] + 1 + eps for x, y in pos), "limits-cover", f"{tuple(lim)} does not contain all of {pos[:3]}")
