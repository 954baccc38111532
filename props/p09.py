"""P09 terrain lookup: a flat reference (the posts themselves, bilinear) decides every answer of every query history."""

import math
import os

import numpy as np
import pyproj
from osgeo import gdal, osr

from aws.osml.gdal.gdal_dem_tile_factory import GDALDigitalElevationModelTileFactory
from aws.osml.photogrammetry import (
    ConstantElevationModel, DigitalElevationModel, DigitalElevationModelTileFactory, DigitalElevationModelTileSet,
    ElevationRegionSummary, GDALAffineSensorModel, GeodeticWorldCoordinate, SRTMTileSet,
)
from aws.osml.photogrammetry.generic_dem_tile_set import GenericDEMTileSet
from vlib.sar import ecef

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
gdal.SetConfigOption("GDAL_PAM_ENABLED", "NO")
DEFAULT_CONFIG = True
SHARDS = {"quick": 64, "thorough": 128}
LOCAL = 'LOCAL_CS["unnamed",UNIT["metre",1],AXIS["Easting",EAST],AXIS["Northing",NORTH]]'
MIN = {"misplaced-tile": 10, "lookups": 6000, "at-post": 800, "missing-tile": 400, "evictions": 400, "summaries": 400, "unusable-tile": 30, "constant": 50, "rotated": 1000, "projected": 500, "projected-other-tile": 100, "damaged-tile": 10, "void": 10}
RULE = "distinct (tile, fractional cell, cache size) lookups across random access histories"
ASSUME = ["one file per cell, in longitude and latitude or the map projection its file declares; values between posts are bilinear"]


class Tile:
    def __init__(self, r, lo, la, point):
        self.lo, self.la = lo, la
        self.w, self.h = int(r.integers(3, 40)), int(r.integers(3, 40))
        self.z = np.round(r.uniform(-200, 4000) + r.normal(0, 300, (self.h, self.w)), 0)
        if r.random() < 0.15:  # water: all posts at one height, often zero
            self.z[:] = 0.0 if r.random() < 0.6 else self.z[0, 0]
        if point:  # posts on the cell edges, as SRTM and DTED
            self.dx, self.dy = 1.0 / (self.w - 1), 1.0 / (self.h - 1)
            self.x0, self.y0 = float(lo), float(la + 1)
        else:  # posts at the centres of w x h cells
            self.dx, self.dy = 1.0 / self.w, 1.0 / self.h
            self.x0, self.y0 = lo + self.dx / 2, la + 1 - self.dy / 2

    def gt(self):
        return [self.x0 - self.dx / 2, self.dx, 0.0, self.y0 + self.dy / 2, 0.0, -self.dy]

    def height(self, lon, lat):
        x = min(max((lon - self.x0) / self.dx, 0.0), self.w - 1.0)
        y = min(max((self.y0 - lat) / self.dy, 0.0), self.h - 1.0)
        i, j = min(int(y), self.h - 2), min(int(x), self.w - 2)
        fy, fx = y - i, x - j
        z = self.z
        return (z[i, j] * (1 - fy) * (1 - fx) + z[i, j + 1] * (1 - fy) * fx + z[i + 1, j] * fy * (1 - fx) + z[i + 1, j + 1] * fy * fx)

    def slope(self):
        return max(np.max(np.abs(np.diff(self.z, axis=0))) / self.dy, np.max(np.abs(np.diff(self.z, axis=1))) / self.dx)

    def write(self, path, dtype, nodata=None, wkt=None):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        ds = gdal.GetDriverByName("GTiff").Create(path, self.w, self.h, 1, dtype)
        sr = osr.SpatialReference()
        sr.ImportFromEPSG(4326)
        ds.SetProjection(wkt or sr.ExportToWkt())
        ds.SetGeoTransform(self.gt())
        if nodata is not None:
            ds.GetRasterBand(1).SetNoDataValue(nodata)
        ds.GetRasterBand(1).WriteArray(self.z)
        ds = None

    def spacing(self):
        g = self.gt()
        a = ecef(math.radians(g[0]), math.radians(g[3]), 0.0)
        b = ecef(math.radians(g[0] + self.w * self.dx), math.radians(g[3] - self.h * self.dy), 0.0)
        return float(np.linalg.norm(a - b) / math.hypot(self.w, self.h))


class CountingFactory(DigitalElevationModelTileFactory):
    def __init__(self, inner):
        super().__init__()
        self.inner, self.loads = inner, []

    def get_tile(self, tile_path):
        self.loads.append(tile_path)
        return self.inner.get_tile(tile_path)


def ask(m, dem, lon, lat, h0):
    g = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h0])
    a, b = g.longitude, g.latitude
    res = dem.set_elevation(g)
    m.event("lookups")
    m.check((g.longitude, g.latitude) == (a, b), "position-changed", "looking up a height moved the location")
    m.check(res is None, "return", f"{res!r}")
    return g.elevation


def history(m, i):
    r = m.rng
    d = m.scratch()
    srtm = r.random() < 0.5
    lo, la = int(r.integers(-178, 176)), int(r.integers(-50, 54))
    if r.random() < 0.3:
        lo, la = -2, -1
    point = r.random() < 0.6
    pre = "" if r.random() < 0.6 else "sub/"
    ts = SRTMTileSet(prefix=pre, version="3arc_v2") if srtm else GenericDEMTileSet("%oh%od/%lh%ld.tif")

    def name(o, a):
        if srtm:
            return f"{pre}{'n' if a >= 0 else 's'}{abs(a):02d}_{'e' if o >= 0 else 'w'}{abs(o):03d}_3arc_v2.tif"
        return f"{'e' if o >= 0 else 'w'}{abs(o):03d}/{'n' if a >= 0 else 's'}{abs(a):02d}.tif"

    tiles, bad = {}, set()
    for o in range(lo, lo + 3):
        for a in range(la, la + 3):
            u = r.random()
            path = f"{d}/{name(o, a)}"
            if u < 0.72:
                t = Tile(r, o, a, point)
                dtype = [gdal.GDT_Int16, gdal.GDT_Float32, gdal.GDT_Int32][int(r.integers(3))]
                if dtype == gdal.GDT_Float32 and np.ptp(t.z) > 0:  # heights need not be whole metres
                    t.z = t.z + np.round(r.uniform(-0.5, 0.5, t.z.shape) * 64) / 64
                t.nodata = -32767.0 if r.random() < 0.5 else None
                t.write(path, dtype, t.nodata)
                tiles[(o, a)] = t
            elif u < 0.8:
                os.makedirs(os.path.dirname(path), exist_ok=True)
                u2 = r.random()
                if u2 < 0.3:  # a tile whose heights cannot be read (all of them)
                    t = Tile(r, o, a, point)
                    t.z = np.abs(t.z) + 1  # (blocks of zeros need no bytes in the file)
                    t.write(path, gdal.GDT_Float64)
                    os.truncate(path, os.path.getsize(path) - t.w * t.h * 8 // 2)
                    m.event("damaged-tile")
                elif u2 < 0.5:  # a readable raster placed in a coordinate system of its own, or nowhere
                    t = Tile(r, o, a, point)
                    if r.random() < 0.5:
                        t.write(path, gdal.GDT_Int16, wkt=LOCAL)
                    else:
                        gt = t.gt()
                        t.gt = lambda gt=gt: [gt[0], gt[1], gt[2], gt[3], gt[1], gt[2]]  # both axes along one line
                        t.write(path, gdal.GDT_Int16)
                    m.event("misplaced-tile")
                elif u2 < 0.7:  # a readable raster that says nothing of where it is
                    raw = gdal.GetDriverByName("GTiff").Create(path, 7, 5, 1, gdal.GDT_Int16)
                    raw.GetRasterBand(1).WriteArray(r.integers(0, 3000, (5, 7)).astype(np.int16))
                    raw = None
                else:
                    open(path, "wb").write(bytes(r.integers(0, 256, 300, dtype=np.uint8)))
                bad.add((o, a))
    # another elevation model of its own, with tiles of the same names elsewhere
    d2 = m.scratch()
    others = {}
    for c in list(tiles)[:: 2]:
        others[c] = Tile(r, *c, point)
        others[c].write(f"{d2}/{name(*c)}", gdal.GDT_Float32)
    dem2 = DigitalElevationModel(ts, GDALDigitalElevationModelTileFactory(d2), raster_cache_size=2)
    size = int(r.integers(1, 5))
    fac = CountingFactory(GDALDigitalElevationModelTileFactory(d))
    dem = DigitalElevationModel(ts, fac, raster_cache_size=size)
    with m.case({"tiles": len(tiles), "bad": len(bad), "cache": size, "point": point, "corner": [lo, la]}, lo, la, size, point, len(tiles)):
        focus = None
        for q in range(m.n(60, 150)):
            if focus is None or r.random() < 0.5:
                focus = (lo + int(r.integers(3)), la + int(r.integers(3)))
            o, a = focus
            t = tiles.get(focus)
            u = r.random()
            if t is not None and u < 0.3:  # exactly on an interior post
                jx, iy = int(r.integers(0, t.w)), int(r.integers(0, t.h))
                lon, lat = t.x0 + jx * t.dx, t.y0 - iy * t.dy
                lon, lat = min(max(lon, o + 1e-7), o + 1 - 1e-7), min(max(lat, a + 1e-7), a + 1 - 1e-7)
                m.event("at-post")
            else:
                lon, lat = o + r.uniform(1e-6, 1 - 1e-6), a + r.uniform(1e-6, 1 - 1e-6)
            h0 = float(r.uniform(-9999, 9999))
            n_before = len(fac.loads)
            z = ask(m, dem, lon, lat, h0)
            if t is None:
                m.event("missing-tile" if focus not in bad else "unusable-tile")
                m.check(z == h0, "no-coverage", f"height {h0} became {z} where there is no elevation data", bad=focus in bad)
            else:
                m.close(z, t.height(lon, lat), 1e-4 + 1e-9 * t.slope(), "height", lonlat=[lon, lat], tile=focus, cell=[t.w, t.h])
                m.seen(focus, size, round((lon - o) * 8), round((lat - a) * 8))
            if r.random() < 0.15:
                m.event("other-model")
                z2 = ask(m, dem2, lon, lat, h0)
                want = others[focus].height(lon, lat) if focus in others else h0
                m.close(z2, want, 1e-4 + (1e-9 * others[focus].slope() if focus in others else 0), "height-of-other-model", lonlat=[lon, lat])
            if len(fac.loads) > n_before and len(set(fac.loads)) > size:
                m.event("evictions")
            if r.random() < 0.5:  # an immediate repeat has the same answer and does not read the file again
                n2 = len(fac.loads)
                z2 = ask(m, dem, lon, lat, h0)
                m.check(z2 == z, "repeat", f"asked twice: {z} then {z2}")
                m.check(len(fac.loads) == n2, "reload", "the tile just used was read again")
            m.check(len(dem.raster_cache) <= size, "cache-size", f"{len(dem.raster_cache)} rasters kept, {size} allowed") if hasattr(dem, "raster_cache") else None
            if r.random() < 0.25:
                g = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), h0])
                s = dem.describe_region(g)
                m.event("summaries")
                m.check(g.coordinate.tolist() == [math.radians(lon), math.radians(lat), h0], "position-changed", "describe_region changed its input")
                if t is None:
                    m.check(s is None, "summary-no-coverage", f"{s!r}")
                elif m.check(s is not None, "summary-missing"):
                    m.close([s.min_elevation, s.max_elevation], [t.z.min(), t.z.max()], 1e-3, "summary-range")
                    m.close(s.post_spacing, t.spacing(), 0.03 * t.spacing(), "summary-spacing")
                    m.check(s.no_data_value == t.nodata, "summary-nodata", f"{s.no_data_value} instead of {t.nodata}")
        # outside the tile set's coverage nothing is known
        far = 75.0 if srtm else None
        if far:
            h0 = 123.5
            m.check(ask(m, dem, lo + 0.5, far, h0) == h0, "no-coverage", "height changed outside the tile set's coverage")
            m.check(dem.describe_region(GeodeticWorldCoordinate([math.radians(lo + 0.5), math.radians(far), h0])) is None, "summary-no-coverage", "a summary outside the tile set's coverage")
            m.event("missing-tile")


def rotated(m):
    """Tiles whose rows do not run along parallels: posts are still at the centres of the cells the file's transform gives."""
    r = m.rng
    d = m.scratch()
    for i in range(m.n(4, 30)):
        t = Tile(r, int(r.integers(-170, 170)), int(r.integers(-60, 60)), False)
        a = float(r.uniform(0, 2 * math.pi)) if r.random() < 0.7 else float(r.choice([0.0, math.pi / 2, math.pi]))
        A = np.array([[math.cos(a), -math.sin(a)], [math.sin(a), math.cos(a)]]) @ np.diag([t.dx, -t.dy if r.random() < 0.8 else t.dy])
        if r.random() < 0.3:
            A = A @ np.array([[1.0, r.uniform(-0.4, 0.4)], [0.0, 1.0]])
        o = np.array([t.lo + 0.5, t.la + 0.5])
        t.gt = lambda: [o[0], A[0, 0], A[0, 1], o[1], A[1, 0], A[1, 1]]
        with m.case({"rotated": [t.w, t.h], "angle": a}, "rotated", t.w, t.h, round(a, 2)):
            t.write(f"{d}/r{i}.tif", gdal.GDT_Float64)

            class TS(DigitalElevationModelTileSet):
                def find_tile_id(self, g):
                    return f"r{i}.tif"

            dem = DigitalElevationModel(TS(), GDALDigitalElevationModelTileFactory(d))
            slope = max(np.max(np.abs(np.diff(t.z, axis=0))), np.max(np.abs(np.diff(t.z, axis=1)))) / min(t.dx, t.dy)
            for _ in range(15):
                px = np.array([r.uniform(0, t.w - 1), r.uniform(0, t.h - 1)])
                if r.random() < 0.3:
                    px = np.floor(px)
                lon, lat = o + A @ (px + 0.5)
                iy, ix = min(int(px[1]), t.h - 2), min(int(px[0]), t.w - 2)
                fy, fx = px[1] - iy, px[0] - ix
                z = t.z[iy:iy + 2, ix:ix + 2]
                want = (1 - fy) * ((1 - fx) * z[0, 0] + fx * z[0, 1]) + fy * ((1 - fx) * z[1, 0] + fx * z[1, 1])
                m.event("rotated")
                m.close(ask(m, dem, lon, lat, 1.0), want, 1e-4 + 1e-8 * slope, "height", post=px.tolist())


def projected(m):
    """Tiles stored in the map projection their file declares: posts are where that projection puts them."""
    r = m.rng
    d = m.scratch()
    current, looks = [None], []

    class TS(DigitalElevationModelTileSet):
        def find_tile_id(self, g):
            return current[0]

    # one elevation model with tiles in different projections
    dem = DigitalElevationModel(TS(), GDALDigitalElevationModelTileFactory(d), raster_cache_size=int(r.integers(1, 4)))
    for i in range(m.n(3, 20)):
        zone, north = int(r.integers(1, 61)), bool(r.random() < 0.5)
        crs = [f"EPSG:{(32600 if north else 32700) + zone}", "EPSG:3857", f"+proj=laea +lat_0={int(r.integers(-60, 60))} +lon_0={6 * zone - 183} +datum=WGS84 +units=m",
               "+proj=longlat +datum=WGS84 +pm=paris"][int(r.integers(4 if 3 < zone < 58 else 3))]
        lo, la = 6 * zone - 183 + float(r.uniform(-2, 2)), (1 if north else -1) * float(r.uniform(3, 60))
        sr = osr.SpatialReference()
        sr.SetFromUserInput(crs)
        to = pyproj.Transformer.from_crs("EPSG:4326", crs, always_xy=True)
        t = Tile(r, 0, 0, False)
        s = metres = float(10 ** r.uniform(1, 3.3))
        c = np.array(to.transform(lo, la))
        if "longlat" in crs:
            s /= 111320.0
        t.gt = lambda: [c[0] - s * t.w / 2, s, 0.0, c[1] + s * t.h / 2, 0.0, -s]
        with m.case({"projection": crs, "post spacing": s, "at": [lo, la], "size": [t.w, t.h]}, "projected", crs, round(s), t.w, t.h):
            t.write(f"{d}/p{i}.tif", gdal.GDT_Float64, wkt=sr.ExportToWkt())

            step = max(np.max(np.abs(np.diff(t.z, axis=0))), np.max(np.abs(np.diff(t.z, axis=1))))

            def look(name=f"p{i}.tif", t=t, to=to, c=c, s=s, tol=1e-3 + 0.01 * step / metres):
                px = np.array([r.uniform(0, t.w - 1), r.uniform(0, t.h - 1)])
                lon, lat = to.transform(c[0] + s * (px[0] + 0.5 - t.w / 2), c[1] - s * (px[1] + 0.5 - t.h / 2), direction="INVERSE")
                iy, ix = min(int(px[1]), t.h - 2), min(int(px[0]), t.w - 2)
                fy, fx = px[1] - iy, px[0] - ix
                z = t.z[iy:iy + 2, ix:ix + 2]
                want = (1 - fy) * ((1 - fx) * z[0, 0] + fx * z[0, 1]) + fy * ((1 - fx) * z[1, 0] + fx * z[1, 1])
                m.event("projected")
                current[0] = name
                m.close(ask(m, dem, lon, lat, 1.0), want, tol, "height", post=px.tolist(), tile=name)

            looks.append(look)
            for _ in range(12):
                if r.random() < 0.3:
                    m.event("projected-other-tile")
                    looks[int(r.integers(len(looks)))]()
                look()
            g = GeodeticWorldCoordinate([math.radians(lo), math.radians(la), 0.0])
            q = dem.describe_region(g)
            m.require(q is not None, "summary-missing")
            m.close([q.min_elevation, q.max_elevation], [t.z.min(), t.z.max()], 1e-3, "summary-range")
            x0, y0, x1, y1 = *to.transform(t.gt()[0], t.gt()[3], direction="INVERSE"), *to.transform(t.gt()[0] + s * t.w, t.gt()[3] - s * t.h, direction="INVERSE")
            want = float(np.linalg.norm(ecef(math.radians(x0), math.radians(y0), 0.0) - ecef(math.radians(x1), math.radians(y1), 0.0)) / math.hypot(t.w, t.h))
            m.close(q.post_spacing, want, 0.03 * want, "summary-spacing")


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(7, 40)):
        history(m, i)
    # full-size tile: the region summary bounds every height in it, and a void is not a height
    d = m.scratch()
    for i in range(m.n(1, 4)):
        n = 601
        o, a = int(r.integers(-170, 170)), int(r.integers(-50, 50))
        with m.case({"large tile": [o, a]}, "large", o, a):
            t = Tile(r, o, a, True)
            t.w = t.h = n
            t.dx = t.dy = 1.0 / (n - 1)
            t.z = np.round(500 + 100 * np.sin(np.arange(n)[:, None] / 40.0) + r.normal(0, 3, (n, n)))
            pi, pj = int(r.integers(5, n // 2 - 5)), int(r.integers(5, n - 5))
            t.z[pi, pj] = 4000.0
            t.z[n - 1 - pi, pj] = -150.0
            vi, vj = int(r.integers(10, n - 20)), int(r.integers(10, n - 20))
            while abs(vi - pi) < 12 or abs(vi - (n - 1 - pi)) < 12:
                vi = int(r.integers(10, n - 20))
            zz = t.z.copy()
            t.z[vi : vi + 8, vj : vj + 8] = -32767
            t.write(f"{d}/{'n' if a >= 0 else 's'}{abs(a):02d}_{'e' if o >= 0 else 'w'}{abs(o):03d}_1arc_v3.tif", gdal.GDT_Int16, -32767)
            t.z = zz
            dem = DigitalElevationModel(SRTMTileSet(), GDALDigitalElevationModelTileFactory(d))
            g = GeodeticWorldCoordinate([math.radians(o + 0.5), math.radians(a + 0.5), 0.0])
            s = dem.describe_region(g)
            m.require(s is not None, "summary-missing")
            m.check(s.min_elevation <= -150.0 + 1e-6 and s.max_elevation >= 4000.0 - 1e-6, "summary-bounds",
                    f"summary [{s.min_elevation}, {s.max_elevation}] does not contain heights -150 and 4000 of the tile")
            m.check(s.min_elevation >= -1000, "summary-void", f"void counted as terrain: minimum {s.min_elevation}")
            m.event("summaries")
            for (yy, xx) in ((pi, pj), (n - 1 - pi, pj), (0, 0), (n - 1, n - 1), (int(r.integers(n)), int(r.integers(n)))):
                if vi - 1 <= yy <= vi + 8 and vj - 1 <= xx <= vj + 8:
                    continue
                lon = min(max(t.x0 + xx * t.dx, o + 1e-9), o + 1 - 1e-9)
                lat = min(max(t.y0 - yy * t.dy, a + 1e-9), a + 1 - 1e-9)
                m.close(ask(m, dem, lon, lat, -1.0), zz[yy, xx], 0.01, "height-at-post", post=[yy, xx])
            for _ in range(2):
                yy, xx = vi + r.uniform(1, 6), vj + r.uniform(1, 6)
                z = ask(m, dem, t.x0 + xx * t.dx, t.y0 - yy * t.dy, 77.0)
                m.event("void")
                m.check(z == 77.0 or -150 <= z <= 4000, "no-data-void", f"height {z} reported inside a void (no-data) area")
    rotated(m)
    projected(m)
    # arbitrary grids through the tile factory abstraction
    for i in range(m.n(6, 40)):
        t = Tile(r, int(r.integers(-170, 170)), int(r.integers(-60, 60)), True)
        smodel = GDALAffineSensorModel([t.x0, t.dx, 0.0, t.y0, 0.0, -t.dy])
        summ = ElevationRegionSummary(float(t.z.min()), float(t.z.max()), -32767, 30.0)

        class TS(DigitalElevationModelTileSet):
            def find_tile_id(self, g):
                k = math.floor(math.degrees(g.longitude) * 7)
                return [None, "", "a", "b"][k % 4]

        class TF(DigitalElevationModelTileFactory):
            def get_tile(self, p):
                return (t.z, smodel, summ) if p == "a" else (None, None, None)

        with m.case({"grid": [t.w, t.h]}, "stub", t.w, t.h, t.lo):
            dem = DigitalElevationModel(TS(), TF()) if r.random() < 0.5 else DigitalElevationModel(TS(), TF(), 1)
            keep = t.z.copy()
            for _ in range(30):
                lon, lat = t.lo + r.uniform(0.001, 0.999), t.la + r.uniform(0.001, 0.999)
                h0 = float(r.uniform(-5, 5))
                z = ask(m, dem, lon, lat, h0)
                k = math.floor(math.degrees(math.radians(lon)) * 7) % 4
                if k == 2:
                    m.close(z, t.height(lon, lat), 1e-5, "height", stub=True)
                else:
                    m.event("missing-tile")
                    m.check(z == h0, "no-coverage", f"{h0} became {z}")
            m.check(np.array_equal(keep, t.z), "input-mutated", "elevation array changed")
    for i in range(10):
        h = float(r.uniform(-400, 9000))
        with m.case({"constant": h}, "const", round(h)):
            em = ConstantElevationModel(h)
            m.event("constant")
            lon, lat = r.uniform(-180, 180), r.uniform(-90, 90)
            m.check(ask(m, em, lon, lat, 1.0) == h, "constant-height")
            s = em.describe_region(GeodeticWorldCoordinate([0.1, 0.1, 0.0]))
            m.check(s.min_elevation == h and s.max_elevation == h and s.post_spacing > 0, "constant-summary", f"{s}")
