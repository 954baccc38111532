"""P11 geodetic <-> geocentric: decided by the closed-form WGS84 equations and a Newton-free fixed-point inverse."""

import math

import numpy as np

from aws.osml.photogrammetry import (
    GeodeticWorldCoordinate,
    ImageCoordinate,
    WorldCoordinate,
    geocentric_to_geodetic,
    geodetic_to_geocentric,
)
from vlib.sar import ecef, geodetic

SHARDS = {"quick": 32, "thorough": 128}
MIN = {"forward": 8000, "inverse": 8000, "reused-object": 2000, "value-semantics": 800}
RULE = "distinct (latitude band, longitude band, height band) classes of sampled world locations plus boundary locations"
ASSUME = ["heights from 10 km below the ellipsoid to 40,000 km above it; the centre of the Earth is excluded"]
SPECIAL_LAT = [0.0, 90.0, -90.0, 89.9999999, -89.9999999, 1e-9, -1e-9, 45.0, -45.0]
SPECIAL_LON = [0.0, 180.0, -180.0, 179.9999999, -179.9999999, 90.0, -90.0, 1e-9]


def run(m, tier, shard):
    r = m.rng
    for _ in range(m.n(1500, 12000)):
        lat = float(r.choice(SPECIAL_LAT)) if r.random() < 0.12 else math.degrees(math.asin(r.uniform(-1, 1)))
        lon = float(r.choice(SPECIAL_LON)) if r.random() < 0.12 else r.uniform(-180, 180)
        hk = r.integers(4)
        h = float([r.uniform(-500, 9000), r.uniform(-10000, 0), 10 ** r.uniform(3, 7.6), 0.0][hk])
        lo, la = math.radians(lon), math.radians(lat)
        with m.case({"lonlat": [lon, lat], "h": h}, int(lat // 10), int(lon // 20), int(hk)):
            g = GeodeticWorldCoordinate([lo, la, h])
            e = geodetic_to_geocentric(g)
            m.event("forward")
            m.check(g.coordinate.tolist() == [lo, la, h], "input-mutated", "geodetic_to_geocentric changed its input")
            m.close(e.coordinate, ecef(lo, la, h), 1e-6 + 4e-15 * abs(h), "geocentric", lonlat=[lon, lat], h=h)
            eb = e.coordinate.copy()
            b = geocentric_to_geodetic(e)
            tol = 1e-6 + min(4e-14 * h * h, 1.5)  # PROJ's inverse is a one-step approximation: exact near the surface only
            m.event("inverse")
            m.check(np.array_equal(e.coordinate, eb), "input-mutated", "geocentric_to_geodetic changed its input")
            m.check(isinstance(b, GeodeticWorldCoordinate), "type", f"{type(b)}")
            # judged as positions so that the poles and the antimeridian need no special treatment
            m.close(ecef(*b.coordinate), eb, tol, "round-trip-position", got_geodetic=b.coordinate)
            rl, rp, rh = geodetic(eb)
            m.close([b.latitude, b.elevation], [rp, rh], [tol / 6.3e6, tol], "geodetic")
            m.check(abs(b.longitude) <= math.pi + 1e-12 and abs(b.latitude) <= math.pi / 2 + 1e-12, "range",
                    f"{b.coordinate}")
            if r.random() < 0.3:
                # the same objects again with other values, and answers the caller has changed
                m.event("reused-object")
                e.coordinate[:] = 0.0
                b.coordinate[:] = 0.0
                m.close(geodetic_to_geocentric(g).coordinate, ecef(lo, la, h), 1e-6 + 4e-15 * abs(h), "repeated")
                k = int(r.integers(3))
                if k == 0:
                    g.elevation = h = float(r.uniform(-500, 9000))
                elif k == 1:
                    g.latitude = la = float(r.uniform(-1.5, 1.5))
                else:
                    g.coordinate[0] = lo = float(r.uniform(-3.1, 3.1))
                e2 = geodetic_to_geocentric(g)
                m.close(e2.coordinate, ecef(lo, la, h), 1e-6 + 4e-15 * abs(h), "geocentric-changed", lonlat=[lon, lat], h=h)
                e.coordinate[:] = e2.coordinate
                m.close(ecef(*geocentric_to_geodetic(e).coordinate), e2.coordinate, 1e-6 + min(4e-14 * h * h, 1.5), "geodetic-changed")
                continue
            if abs(lat) < 89.99:
                dl = abs((b.longitude - lo + math.pi) % (2 * math.pi) - math.pi)
                m.close(dl, 0.0, 1e-10, "longitude")
    for _ in range(m.n(150, 600)):
        v = r.uniform(-5, 5, 3)
        with m.case({"value": v.tolist()}, "value", round(float(v[0]), 3)):
            m.event("value-semantics")
            src = v.copy()
            w, g, c = WorldCoordinate(src), GeodeticWorldCoordinate(src.tolist()), ImageCoordinate(src[:2])
            g2 = GeodeticWorldCoordinate(src)
            src[:] = 99.0
            m.check(np.array_equal(w.coordinate, v) and np.array_equal(g2.coordinate, v) and np.array_equal(c.coordinate, v[:2]),
                    "aliased", "a coordinate shares storage with the array it was built from")
            m.check((w.x, w.y, w.z) == tuple(v) and (g.longitude, g.latitude, g.elevation) == tuple(v)
                    and (g.x, g.y, g.z) == tuple(v) and (c.x, c.y) == tuple(v[:2]) and (c.c, c.r) == tuple(v[:2]), "components")
            g.longitude, g.latitude, g.elevation = 1.0, 0.5, 7.0
            w.x, w.y, w.z = 1.0, 0.5, 7.0
            c.c, c.r = 3.0, 4.0
            m.check(g.coordinate.tolist() == [1.0, 0.5, 7.0] and w.coordinate.tolist() == [1.0, 0.5, 7.0]
                    and (c.x, c.y) == (3.0, 4.0), "setters")
            c.x, c.y = 5.0, 6.0
            m.check((c.c, c.r) == (5.0, 6.0), "setters")
            n = int(r.choice([0, 1, 2, 4, 5]))
            m.raises(lambda: WorldCoordinate([0.0] * n), ValueError, "arity", n=n)
            m.raises(lambda: GeodeticWorldCoordinate([0.0] * n), ValueError, "arity", n=n)
            k = int(r.choice([0, 1, 3, 4]))
            m.raises(lambda: ImageCoordinate([0.0] * k), ValueError, "arity", n=k)
            m.check(WorldCoordinate().coordinate.tolist() == [0, 0, 0] and ImageCoordinate().coordinate.tolist() == [0, 0], "default")
            a, b = WorldCoordinate(), WorldCoordinate()
            a.x = 4.0
            m.check(b.x == 0.0 and WorldCoordinate().x == 0.0, "shared-default")
