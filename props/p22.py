"""P22 map tiles: pictures whose pixel values encode their own position are cut into map tiles; every tile pixel then reports where it came from."""

import math
import os

import numpy as np
import pyproj
from osgeo import gdal

from aws.osml.gdal import GDALCompressionOptions as C, GDALImageFormats as F, RangeAdjustmentType as RA, load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, SensorModel
from vlib import rpc, tiles
from props import p19

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
gdal.PushErrorHandler("CPLQuietErrorHandler")
DEFAULT_CONFIG = True
SHARDS = {"quick": 64, "thorough": 128}
MIN = {"limited-camera": 60, "tile": 400, "none": 100, "pixel": 10000, "transparent": 5000, "non-square": 150, "overview": 60, "deep-overview": 20, "color": 100, "centre-elevation": 8, "partial": 100, "adjusted": 40, "far-away": 60, "abutting": 60, "complex-sar": 100, "contrast": 4, "anywhere": 40, "damaged": 30, "pure-colour": 500, "saturated": 300}
RULE = "distinct (camera, image size, bands, overviews, adjustment, tile bounds, tile size)"
ASSUME = ["tile pixels may be sampled at their corner or centre, source pixels likewise", "cameras nearly linear across a tile (the documented 3x3 grid is an approximation): its deviation is granted",
          "pixels of value zero in all shown bands are transparent"]
R = 6371000.0


class Stub(SensorModel):
    """Affine camera whose default ground height varies over the image and whose projection depends on the height."""

    def __init__(self, lon0, lat0, a, parallax, heights):
        super().__init__()
        self.o, self.a, self.inv, self.par, self.hs = np.array([lon0, lat0]), a, np.linalg.inv(a), parallax, heights

    def height(self, x, y):
        return self.hs[0] + self.hs[1] * x + self.hs[2] * y

    def image_to_world(self, c, elevation_model=None, options=None):
        h = self.height(c.x, c.y)
        lo, la = self.o + self.a @ (np.array([c.x, c.y]) - self.par * h)
        return GeodeticWorldCoordinate([lo, la, h])

    def world_to_image(self, g):
        x, y = self.inv @ (np.array([g.longitude, g.latitude]) - self.o) + self.par * g.elevation
        return ImageCoordinate([x, y])


class Limited(SensorModel):
    """A camera that can only locate places within some distance of its image: elsewhere it raises or answers not-a-number."""

    def __init__(self, inner, w, h, how):
        super().__init__()
        self.inner, self.w, self.h, self.how = inner, w, h, how

    def image_to_world(self, c, elevation_model=None, options=None):
        return self.inner.image_to_world(c, elevation_model, options)

    def world_to_image(self, g):
        c = self.inner.world_to_image(g)
        if not (-self.w < c.x < 2 * self.w and -self.h < c.y < 2 * self.h):
            if isinstance(self.how, Exception):
                raise self.how
            return ImageCoordinate([self.how, self.how])
        return c


RANGES = {gdal.GDT_Byte: [(20.0, 250.0)], gdal.GDT_UInt16: [(2000.0, 9000.0), (1.0, 65000.0)], gdal.GDT_Int16: [(-900.0, 6000.0), (-32000.0, 32000.0), (-5000.0, -100.0)],
          gdal.GDT_UInt32: [(100.0, 4.2e9), (1e6, 1.1e6)], gdal.GDT_Float32: [(-2.0, 3.0), (0.02, 0.6), (1e6, 5e11), (-1e-3, 1e-3)]}


PLAIN = {gdal.GDT_UInt16: (0.0, 700.0), gdal.GDT_Int16: (-150.0, 420.0), gdal.GDT_UInt32: (10.0, 400.0), gdal.GDT_Float32: (-150.0, 420.0)}


def picture(r, w, h, nb, t=gdal.GDT_Byte, own=False, plain=False):
    """float maps of x and y per band: value = lo + (hi-lo) * (cx * x/w + cy * y/h), band 1 follows x, band 2 follows y; every band may
    have its own range of values."""
    lo, hi = RANGES[t][int(r.integers(len(RANGES[t])))]
    if plain and t in PLAIN:  # shown without range adjustment: some values do not fit into the tile
        lo, hi = PLAIN[t]
    rngs = [(lo, hi)] * nb
    if own and t != gdal.GDT_Byte:
        rngs = [(lo + (hi - lo) * a, lo + (hi - lo) * (a + b)) for a, b in zip(r.uniform(0, 0.5, nb), r.uniform(0.2, 0.5, nb))]
    yy, xx = np.mgrid[0:h, 0:w]
    wts = [(1.0, 0.0), (0.0, 1.0), (0.5, 0.5), (1.0, 0.0)][:nb] if nb > 1 else [[(1.0, 0.0), (0.0, 1.0), (0.6, 0.4)][int(r.integers(3))]]
    f = [lambda x, y, q=q, lo=lo, hi=hi: lo + (hi - lo) * (q[0] * x / (w - 1) + q[1] * y / (h - 1)) for q, (lo, hi) in zip(wts, rngs)]
    arr = np.array([g(xx, yy) for g in f])
    arr = arr.astype(np.float32) if t == gdal.GDT_Float32 else np.round(arr).astype(tiles.NP[t])
    # change of value per source pixel
    slope = [(hi - lo) * max(q[0] / (w - 1), 0) + (hi - lo) * q[1] / (h - 1) for q, (lo, hi) in zip(wts, rngs)]
    return arr, f, slope, rngs


def decode(data, d):
    t = tiles.Tile(bytes(data), d)
    a = t.array().astype(float)
    drv = t.ds.GetDriver().ShortName
    t.close()
    return drv, a


def source(m, r, d, k, t=gdal.GDT_Byte, nb=1, big=False, own=False, plain=False):
    w, h = int(r.integers(60, 260)), int(r.integers(60, 260))
    if big:
        w, h = int(r.integers(500, 1400)), int(r.integers(500, 1400))
    arr, f, slope, rng = picture(r, w, h, nb, t, own, plain)
    kind = ["stub", "affine", "utm", "stub", "rpc"][k % 5]
    opts = ["PHOTOMETRIC=MINISBLACK", "ALPHA=NO"]
    path = os.path.join(d, f"o{k}.tif")
    lon, lat = float(r.uniform(-170, 170)), float(r.uniform(-65, 65))
    gsd = 10 ** r.uniform(-0.3, 1.0)
    geo = None
    if kind == "affine":
        px = gsd / 111320.0
        tt = r.uniform(-math.pi, math.pi) if r.random() < 0.6 else 0.0
        geo = [lon, px * math.cos(tt), px * math.sin(tt), lat, px * math.sin(tt), -px * math.cos(tt)]
    if kind == "utm":
        zone = int((lon + 180) // 6) + 1
        code = (32600 if lat >= 0 else 32700) + zone
        tr = pyproj.Transformer.from_crs("EPSG:4326", f"EPSG:{code}", always_xy=True)
        e0, n0 = tr.transform(lon, lat)
        tt = r.uniform(-math.pi, math.pi) if r.random() < 0.6 else 0.0
        geo = [e0, gsd * math.cos(tt), gsd * math.sin(tt), n0, gsd * math.sin(tt), -gsd * math.cos(tt)]
        ds = tiles.write(path, arr, t, options=opts, geo=geo, wkt=p19.srs(code))
        ds = None
        ds, model = load_gdal_dataset(path)

        def ref(lo, la, z):
            e, n = tr.transform(math.degrees(lo), math.degrees(la))
            return tuple(np.linalg.solve([[geo[1], geo[2]], [geo[4], geo[5]]], [e - geo[0], n - geo[3]]))

        def ground(x, y):
            lo, la = tr.transform(geo[0] + geo[1] * x + geo[2] * y, geo[3] + geo[4] * x + geo[5] * y, direction="INVERSE")
            return math.radians(lo), math.radians(la)
        return kind, ds, model, (lambda lo, la: ref(lo, la, 0.0)), ground, w, h, arr, f, slope, rng
    ds = tiles.write(path, arr, t, options=opts, geo=geo, wkt=p19.srs(4326) if geo else None)
    if kind == "affine":
        ds = None
        ds, model = load_gdal_dataset(path)
        ref = lambda lo, la, z: tuple(np.linalg.solve([[geo[1], geo[2]], [geo[4], geo[5]]], [math.degrees(lo) - geo[0], math.degrees(la) - geo[3]]))
        cz = 0.0
        ground = lambda x, y: (math.radians(geo[0] + geo[1] * x + geo[2] * y), math.radians(geo[3] + geo[4] * x + geo[5] * y))
    elif kind == "stub":
        tt = r.uniform(-math.pi, math.pi)
        px = gsd / R
        a = px * np.array([[math.cos(tt), math.sin(tt)], [math.sin(tt), -math.cos(tt)]])
        if r.random() < 0.3:
            a[:, 0] *= -1  # looks at the scene from the other side
        hs = (float(r.uniform(0, 500)), float(r.uniform(-6, 6)), float(r.uniform(-6, 6)))
        par = r.uniform(-0.06, 0.06, 2)
        model = Stub(math.radians(lon), math.radians(lat), a, par, hs)
        cz = hs[0] + hs[1] * w / 2 + hs[2] * h / 2
        if abs(hs[1] * (w - h) / 2 + hs[2] * (h - w) / 2) * np.abs(par).max() > 4:
            m.event("centre-elevation")
        ref = lambda lo, la, z: tuple(model.inv @ (np.array([lo, la]) - model.o) + par * z)
        ground = lambda x, y: tuple(model.o + a @ (np.array([x, y]) - par * cz))
    else:
        p = rpc.random_rpc(r, 60.0)
        p["line_off"], p["samp_off"] = float(h // 2), float(w // 2)
        model = rpc.build(p)
        cz = model.image_to_world(ImageCoordinate([w / 2, h / 2])).elevation
        ref = lambda lo, la, z: rpc.project(p, math.degrees(lo), math.degrees(la), z)
        # local linear inverse, only used to choose tiles
        s = 1e-4
        lo0, la0 = math.radians(p["long_off"]), math.radians(p["lat_off"])
        for _ in range(20):
            c0 = np.array(ref(lo0, la0, cz))
            J = np.array([(np.array(ref(lo0 + 1e-7, la0, cz)) - c0) / 1e-7, (np.array(ref(lo0, la0 + 1e-7, cz)) - c0) / 1e-7]).T
            dlo, dla = np.linalg.solve(J, np.array([w / 2, h / 2]) - c0)
            lo0, la0 = lo0 + dlo, la0 + dla
        Ji = np.linalg.inv(J)
        ground = lambda x, y: tuple(np.array([lo0, la0]) + Ji @ np.array([x - w / 2, y - h / 2]))
    return kind, ds, model, (lambda lo, la: ref(lo, la, cz)), ground, w, h, arr, f, slope, rng


def bounds(ground, x0, y0, x1, y1):
    g = np.array([ground(x, y) for x, y in [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]])
    return [float(v) for v in (g[:, 0].min(), g[:, 1].min(), g[:, 0].max(), g[:, 1].max())]


def grid_deviation(proj, bb, size):
    """How far the documented 3x3 bilinear approximation may be from the camera (pixels), as a function of relative tile position."""
    us = [0.0, 0.5, 1.0]
    G = np.array([[proj(bb[0] + u * (bb[2] - bb[0]), bb[3] - v * (bb[3] - bb[1])) for u in us] for v in us])

    def approx(u, v):
        i, j = min(int(v * 2), 1), min(int(u * 2), 1)
        a, b = v * 2 - i, u * 2 - j
        return (1 - a) * ((1 - b) * G[i, j] + b * G[i, j + 1]) + a * ((1 - b) * G[i + 1, j] + b * G[i + 1, j + 1])
    return approx


def one(m, r, d, fac, kind, proj, ground, w, h, nb, level, judge_value, bb, size, must, note):
    tw, th = size
    data = fac.create_orthophoto_tile(tuple(bb), size)
    if data is None:
        m.check(not must, "no-tile", f"no map tile although the area overlaps the image ({note})")
        m.event("none")
        return
    m.event("tile")
    drv, a = decode(data, d)
    m.require(drv == "PNG", "format", drv)
    m.require(a.shape[1:] == (th, tw), "tile-size", f"{a.shape[2]}x{a.shape[1]} instead of {tw}x{th}")
    m.require(a.shape[0] == 4, "bands", f"{a.shape[0]} bands instead of colour and transparency")
    if tw != th:
        m.event("non-square")
    if note == "world":
        return
    approx = grid_deviation(proj, bb, size)
    # source pixels per tile pixel
    c0, cx, cy = (np.array(approx(*q)) for q in [(0.5, 0.5), (0.5 + 0.5 / tw, 0.5), (0.5, 0.5 + 0.5 / th)])
    step = float(max(np.abs(cx - c0).max() + np.abs(cy - c0).max(), 0)) * 2
    for _ in range(60):
        i, j = int(r.integers(tw)), int(r.integers(th))
        if r.random() < 0.2:
            i = int(r.choice([0, tw - 1]))
        if r.random() < 0.2:
            j = int(r.choice([0, th - 1]))
        cands = []
        for u, v in [((i + 0.5) / tw, (j + 0.5) / th), (i / max(tw - 1, 1), j / max(th - 1, 1))]:
            p = np.array(proj(bb[0] + u * (bb[2] - bb[0]), bb[3] - v * (bb[3] - bb[1])))
            cands.append((p, float(np.abs(approx(u, v) - p).max())))
        p = cands[0][0]
        slack = max(np.abs(cands[0][0] - cands[1][0]).max(), 0.3 * step) + max(c[1] for c in cands) + 1.2 * level
        edge = 4.0 * level + slack
        if edge < p[0] < w - edge and edge < p[1] < h - edge:
            m.event("pixel")
            judge_value(a[:, j, i], p, slack, (i, j))
        elif p[0] < -edge or p[1] < -edge or p[0] > w + edge or p[1] > h + edge:
            m.event("transparent")
            m.check(a[3, j, i] == 0, "opaque-outside", f"tile pixel {(i, j)} shows a place outside the image, alpha {a[3, j, i]}", source=p)


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for k in range(m.n(10, 60)):
        adj = [RA.NONE, RA.NONE, RA.MINMAX, RA.DRA][int(r.integers(4))]
        nb = int(r.choice([1, 2, 3, 4]))
        if adj != RA.NONE:
            nb = int(r.choice([1, 3, 4]))
        t = gdal.GDT_Byte if adj == RA.NONE and r.random() < 0.6 else int(r.choice(list(RANGES)))
        big = k % 5 == shard % 5
        kind, ds, model, proj, ground, w, h, arr, f, slope, rngs = source(m, r, d, k, t, nb, big, own=adj != RA.NONE and r.random() < 0.6, plain=adj == RA.NONE)
        levels = 0
        if big or r.random() < 0.5:
            levels = int(r.integers(3, 6)) if big else int(r.integers(1, 3))
            ds.BuildOverviews("AVERAGE", [2 ** (i + 1) for i in range(levels)])
        stats = adj != RA.NONE and r.random() < 0.75
        if stats:
            for i in range(ds.RasterCount):
                ds.GetRasterBand(i + 1).ComputeStatistics(False)
        if adj != RA.NONE:
            m.event("adjusted")
        fac = GDALTileFactory(ds, model, tile_format=F.PNG, output_type=gdal.GDT_Byte, range_adjustment=adj)
        before = arr.copy()
        pairs = []

        def judge_value(px, p, slack, at):
            shown = min(nb, 3) if nb != 2 else 1
            if shown == 1:
                m.check(px[0] == px[1] == px[2], "gray", f"{px[:3]} is not gray")
            for b in range(shown):
                v, tol = f[b](p[0], p[1]), slope[b] * slack
                if adj == RA.NONE:
                    if any(f[i](p[0], p[1]) - slope[i] * slack >= 3 for i in range(shown)):
                        m.check(px[3] == 255, "transparent-inside", f"tile pixel {at} is transparent", source=p)
                    if v > 255:
                        m.event("saturated")
                    lo, hi = max(0.0, min(255.0, v - tol)), max(0.0, min(255.0, v + tol))
                    m.check(lo - 1.6 <= px[b] <= hi + 1.6, "position" if b == 0 or nb == 1 else "position-band", f"band {b + 1} shows {px[b]} instead of {v:.1f} +- {tol + 1.6:.1f} at {at}", source=p)
                elif adj == RA.MINMAX and stats:
                    a0, a1 = float(arr[b].min()), float(arr[b].max())
                    s = 255.0 / (a1 - a0)
                    m.check(abs(px[b] - (v - a0) * s) <= (tol + (1.0 if t != gdal.GDT_Float32 else 0)) * s + 2.1, "adjusted-value", f"band {b + 1} shows {px[b]} instead of {(v - a0) * s:.1f}", source=p)
                elif not stats:
                    pairs.append((b, v - tol, v + tol, float(px[b]), at))
                elif adj == RA.DRA and stats:
                    # the suggested range keeps at least the middle 90 % of these evenly spread values apart
                    lo, hi = rngs[b]
                    q = (v - lo) / (hi - lo)
                    e = (tol + (hi - lo) / 250) / (hi - lo)
                    m.check(px[b] <= 255 * min(1.0, (q + e) / 0.55) + 3 and px[b] >= 255 * max(0.0, (q - e - 0.35) / 0.65) - 3, "adjusted-value", f"band {b + 1} shows {px[b]} for relative value {q:.3f}", source=p)
        for j in range(m.n(7, 10)):
            sz = [(32, 32), (48, 20), (20, 48), (64, 64), (33, 65), (128, 40)][int(r.integers(6))]
            sz = tuple(int(v) for v in sz)
            style = str(r.choice(["inside", "inside", "partial", "cover", "far", "abut", "world"]))
            if style == "inside":
                x0, y0 = r.uniform(0, w * 0.6), r.uniform(0, h * 0.6)
                bb = bounds(ground, x0, y0, x0 + r.uniform(10, w * 0.4), y0 + r.uniform(10, h * 0.4))
            elif style == "partial":
                m.event("partial")
                x0, y0 = r.uniform(-w * 0.5, w * 0.8), r.uniform(-h * 0.5, h * 0.8)
                bb = bounds(ground, x0, y0, x0 + r.uniform(10, w), y0 + r.uniform(10, h))
            elif style == "cover":
                q = r.uniform(0, 0.5)
                bb = bounds(ground, -q * w, -q * h, w * (1 + q), h * (1 + q))
            elif style == "world":
                m.event("anywhere")
                dd = math.radians(10 ** r.uniform(-3, 1.5))
                x0, y0 = r.uniform(-math.pi, math.pi - dd), r.uniform(-1.5, 1.5 - dd)
                bb = [float(x0), float(y0), float(x0 + dd), float(y0 + dd)]
                if r.random() < 0.6:  # tiles of coarse zoom levels, next to the equator
                    z = int(r.integers(2, 6))
                    q = 2 * math.pi / 2 ** z
                    x0 = -math.pi + q * int(r.integers(0, 2 ** z))
                    bb = [x0, 0.0, x0 + q, q * 0.9] if r.random() < 0.5 else [x0, -q * 0.9, x0 + q, 0.0]
            elif style == "far":
                m.event("far-away")
                bb = bounds(ground, 0, 0, w, h)
                dx, dy = [(40.0, 0), (0, 20.0), (-60.0, 8.0), (0.02, 0.02), (120.0, 0.0)][int(r.integers(5))]
                c = math.degrees(bb[0]) + dx
                dx = dx if -179 < c < 179 else -dx
                dy = dy if math.degrees(bb[3]) + dy < 85 else -dy
                dx, dy = math.radians(dx) + np.sign(dx) * (bb[2] - bb[0]), math.radians(dy) + np.sign(dy) * (bb[3] - bb[1])
                bb = [bb[0] + dx, bb[1] + dy, bb[2] + dx, bb[3] + dy]
            else:
                m.event("abutting")
                bb = bounds(ground, 0, 0, w, h)
                side = int(r.integers(4))
                ww, hh = bb[2] - bb[0], bb[3] - bb[1]
                off = [(ww, 0), (-ww, 0), (0, hh), (0, -hh)][side]
                bb = [bb[0] + off[0], bb[1] + off[1], bb[2] + off[0], bb[3] + off[1]]
            must = False
            if style in ("inside", "cover", "partial"):
                # some tile pixel well inside the image
                uv = [(a / 8, b / 8) for a in range(9) for b in range(9)]
                pts = [proj(bb[0] + u * (bb[2] - bb[0]), bb[3] - v * (bb[3] - bb[1])) for u, v in uv]
                must = any(3 < x < w - 3 and 3 < y < h - 3 for x, y in pts)
                cs = np.array(pts)
                dim = min(np.ptp(cs[:, 0]), np.ptp(cs[:, 1]))
                lv = int(min(levels, max(0, math.floor(math.log2(max(dim, 1e-9) / min(sz))) + 1)))
            else:
                lv = levels
            if lv:
                m.event("overview")
            if lv > 2 and style != "far":
                m.event("deep-overview")
            if nb >= 3:
                m.event("color")
            with m.case({"camera": kind, "size": [w, h], "bands": nb, "type": gdal.GetDataTypeName(t), "overviews": levels, "adjustment": str(adj), "statistics": stats, "tile": style,
                         "bounds": [math.degrees(v) for v in bb], "tile size": sz}, kind, w, h, nb, levels, str(adj), tuple(bb), sz):
                pairs.clear()
                one(m, r, d, fac, kind, proj, ground, w, h, nb, 2.0 ** lv, judge_value, bb, sz, must, style)
                for b in range(min(nb, 3) if nb != 2 else 1):
                    q = sorted(x for x in pairs if x[0] == b)
                    for i in range(0, len(q) - 1, 3):
                        for o in q[i + 1::7]:
                            if o[1] > q[i][2]:
                                m.check(o[3] >= q[i][3] - 1.01, "order", f"band {b + 1}: value {o[1]:g} shows as {o[3]} but the smaller {q[i][2]:g} as {q[i][3]}")
                    lo, hi = rngs[b]
                    if q and style in ("cover", "partial") and max(x[1] for x in q) - min(x[2] for x in q) > 0.6 * (hi - lo):
                        m.event("contrast")
                        m.check(max(x[3] for x in q) - min(x[3] for x in q) > 90, "contrast", f"{len(q)} pixels spread over the value range show as {min(x[3] for x in q)}..{max(x[3] for x in q)}")
        how = [ValueError("no answer here"), RuntimeError("did not converge"), ZeroDivisionError("division by zero"), np.linalg.LinAlgError("singular"),
               float("nan"), float("inf"), -float("inf")][int(r.integers(7))]
        with m.case({"camera": kind, "size": [w, h], "limited": str(how)}, "limited", type(how).__name__):
            m.event("limited-camera")
            fac2 = GDALTileFactory(ds, Limited(model, w, h, how), tile_format=F.PNG, output_type=gdal.GDT_Byte, range_adjustment=adj)
            bb = bounds(ground, 4 * w, 4 * h, 5 * w, 5 * h) if r.random() < 0.5 else bounds(ground, w / 2, h / 2, 4 * w, 4 * h)
            m.check(fac2.create_orthophoto_tile(tuple(bb), (32, 32)) is None, "limited", "a map tile although the camera cannot locate all of it")
            bb = bounds(ground, w * 0.3, h * 0.3, w * 0.6, h * 0.6)
            m.check(fac2.create_orthophoto_tile(tuple(bb), (32, 32)) is not None, "no-tile", "no map tile although the area overlaps the image (limited camera)")
        with m.case({"camera": kind, "call": "source pixels"}):
            a = ds.ReadAsArray().reshape(arr.shape)
            m.check(np.array_equal(a, before), "source-changed")
        ds = None

    # pixels that cannot be read give no tile
    for k in range(m.n(2, 8)):
        w, h = int(r.integers(150, 300)), int(r.integers(150, 300))
        nb = int(r.choice([1, 3]))
        with m.case({"camera": "stub", "source": "damaged", "bands": nb}, "damaged", nb, w, h):
            path = os.path.join(d, f"damaged{k}.tif")
            tiles.write(path, r.integers(1, 256, (nb, h, w)).astype(np.uint8), gdal.GDT_Byte, "GTiff", options=["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16", "PHOTOMETRIC=MINISBLACK", "INTERLEAVE=PIXEL"])
            os.truncate(path, int(os.path.getsize(path) * r.uniform(0.4, 0.6)))
            ds = gdal.Open(path)
            if ds is not None:
                px = 1e-5 / 57.3
                fac = GDALTileFactory(ds, Stub(0.1, 0.2, px * np.array([[1.0, 0.0], [0.0, -1.0]]), np.zeros(2), (10.0, 0.0, 0.0)), tile_format=F.PNG, output_type=gdal.GDT_Byte, range_adjustment=RA.NONE)
                bad = [0.1 + px * w * 0.2, 0.2 - px * h * 0.95, 0.1 + px * w * 0.7, 0.2 - px * h * 0.75]
                m.event("damaged")
                m.check(fac.create_orthophoto_tile(tuple(bad), (32, 32)) is None, "damaged", "a map tile made of pixels that cannot be read")
                ok = [0.1 + px * w * 0.2, 0.2 - px * h * 0.25, 0.1 + px * w * 0.7, 0.2 - px * h * 0.05]
                m.check(fac.create_orthophoto_tile(tuple(ok), (32, 32)) is not None, "no-tile", "no map tile although its pixels can be read")
            ds = None

    # colours without any red, green or blue are colours, too
    for k in range(m.n(3, 16)):
        cell, rows, cols = int(r.integers(12, 30)), int(r.integers(2, 5)), int(r.integers(2, 5))
        nb = int(r.choice([3, 4]))
        pal = np.array([[0, 0, 255], [0, 255, 0], [255, 0, 0], [255, 255, 0], [0, 255, 255], [255, 0, 255], [0, 90, 30], [1, 0, 0], [0, 0, 7], [120, 130, 140]])
        pick = r.integers(0, len(pal), (rows, cols))
        arr = np.kron(pal[pick].transpose(2, 0, 1), np.ones((1, cell, cell))).astype(np.uint8)
        if nb == 4:
            arr = np.concatenate([arr, r.integers(0, 256, arr[:1].shape).astype(np.uint8)])
        with m.case({"camera": "stub", "colours": pal[pick].tolist(), "cell": cell, "bands": nb}, "colours", pick.tobytes(), cell, nb):
            h, w = arr.shape[1:]
            ds = tiles.write(None, arr, gdal.GDT_Byte, "MEM")
            px = 1.0 / R
            model = Stub(float(r.uniform(-3, 3)), float(r.uniform(-1, 1)), px * np.array([[1.0, 0.0], [0.0, -1.0]]), np.zeros(2), (10.0, 0.0, 0.0))
            fac = GDALTileFactory(ds, model, tile_format=F.PNG, output_type=gdal.GDT_Byte, range_adjustment=RA.NONE)
            size = (cols * 16, rows * 16)
            data = fac.create_orthophoto_tile((float(model.o[0]), float(model.o[1] - px * h), float(model.o[0] + px * w), float(model.o[1])), size)
            m.require(data is not None, "no-tile", "no map tile of the whole image")
            drv, q = decode(data, d)
            m.require(q.shape == (4, size[1], size[0]), "tile-size", str(q.shape))
            for i in range(rows):
                for j in range(cols):
                    got, want = q[:, i * 16 + 8, j * 16 + 8], pal[pick[i, j]]
                    m.event("pure-colour")
                    m.check(got[3] == 255, "transparent-colour", f"{want.tolist()} is transparent")
                    m.check(np.abs(got[:3] - want).max() <= 1, "colour", f"{got[:3].tolist()} instead of {want.tolist()}")
        ds = None

    # complex SAR pixels are shown by magnitude
    for k in range(m.n(3, 16)):
        w, h = int(r.integers(60, 200)), int(r.integers(60, 200))
        t = int(r.choice([gdal.GDT_Float32, gdal.GDT_Int16]))
        yy, xx = np.mgrid[0:h, 0:w]
        top = {gdal.GDT_Float32: 10 ** r.uniform(-2, 4), gdal.GDT_Int16: 10 ** r.uniform(2.3, 4.4)}[t]
        mag = lambda x, y: top * (0.15 + 0.85 * (0.5 * x / w + 0.5 * y / h))
        ph = r.uniform(-math.pi, math.pi, (h, w))
        arr = np.array([mag(xx, yy) * np.cos(ph), mag(xx, yy) * np.sin(ph)])
        arr = np.round(arr).astype(np.int16) if t == gdal.GDT_Int16 else arr.astype(np.float32)
        ds = tiles.write(None, arr, t, "MEM")
        stats = r.random() < 0.5
        if stats:
            for i in range(2):
                ds.GetRasterBand(i + 1).ComputeStatistics(False)
        px = 1.0 / R
        a = px * np.array([[1.0, 0.0], [0.0, -1.0]])
        model = Stub(float(r.uniform(-3, 3)), float(r.uniform(-1, 1)), a, np.zeros(2), (10.0, 0.0, 0.0))
        adj = RA.DRA if r.random() < 0.5 else RA.MINMAX
        fac = GDALTileFactory(ds, model, tile_format=F.PNG, output_type=gdal.GDT_Byte, range_adjustment=adj)
        gains = []
        for j in range(4):
            x0, y0 = r.uniform(0, w * 0.5), r.uniform(0, h * 0.5)
            x1, y1 = x0 + r.uniform(20, w * 0.5), y0 + r.uniform(20, h * 0.5)
            bb = [float(model.o[0] + px * x0), float(model.o[1] - px * y1), float(model.o[0] + px * x1), float(model.o[1] - px * y0)]
            with m.case({"camera": "stub", "complex": True, "type": gdal.GetDataTypeName(t), "size": [w, h], "peak": top, "statistics": stats, "adjustment": str(adj), "window": [x0, y0, x1, y1]}, "complex", w, h, t, top, tuple(bb)):
                m.event("complex-sar")
                data = fac.create_orthophoto_tile(tuple(bb), (32, 24))
                m.require(data is not None, "no-tile", "no map tile although the area overlaps the image")
                drv, q = decode(data, d)
                m.require(q.shape == (4, 24, 32), "tile-size", str(q.shape))
                g = []
                for _ in range(30):
                    i, jj = int(r.integers(32)), int(r.integers(24))
                    x, y = x0 + (x1 - x0) * (i + 0.5) / 32, y0 + (y1 - y0) * (jj + 0.5) / 24
                    if not (4 < x < w - 4 and 4 < y < h - 4):
                        continue
                    v = q[0, jj, i]
                    if 12 < v < 254:
                        g.append(v / mag(x, y))
                m.check(q[0].max() > 25, "sar-black", f"the brightest pixel is {q[0].max()} although magnitudes reach {mag(x1, y1):g}")
                if len(g) > 4:
                    gains.append(float(np.median(g)))
                    m.check(max(g) < 1.35 * min(g), "sar-gain", f"brightness per magnitude varies between {min(g):g} and {max(g):g} in one tile")
                    if stats:
                        m.check(max(gains) < 1.12 * min(gains), "sar-gain-tiles", f"brightness per magnitude varies between {min(gains):g} and {max(gains):g} between tiles")
