"""P19 tile georeferencing: the camera loaded from a tile's own bytes must agree with the source camera at the pixel the tile was cut from."""

import math
import os
import re

import numpy as np
from osgeo import gdal, osr

from aws.osml.gdal import GDALCompressionOptions as C, GDALImageFormats as F, load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from vlib import bundle, rpc, rsm, sar, tiles
from vlib.bundle import metres
from vlib.core import DATA
from vlib.sm import i2w, w2i

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
gdal.PushErrorHandler("CPLQuietErrorHandler")
DEFAULT_CONFIG = True
SHARDS = {"quick": 16, "thorough": 64}
MIN = {"tile": 600, "exact-camera": 70, "tie-point-camera": 70, "rpc-camera": 16, "corner-string": 350, "corner-camera": 15, "resized": 120, "no-camera-tile": 50, "chip-record": 40}
RULE = "distinct (source camera, CRS, window, output size, tile format)"
ASSUME = ["corner strings are judged to one arc second plus one pixel", "RPC records hold whole pixels: 1.5 tile pixels", "georeferencing the encoded format cannot hold (PNG, JPEG) may be absent"]


def srs(code):
    s = osr.SpatialReference()
    s.ImportFromEPSG(code)
    return s.ExportToWkt()


def affine_source(r, d, k):
    w, h = int(r.integers(30, 160)), int(r.integers(30, 160))
    lon, lat = float(r.uniform(-170, 170)), float(r.uniform(-70, 70))
    gsd = 10 ** r.uniform(-0.3, 2.0)
    code = int(r.choice([4326, 3857, 0, 0]))
    if code == 0:
        zone = int((lon + 180) // 6) + 1
        code = (32600 if lat >= 0 else 32700) + zone
    if code == 4326:
        x, y, px = lon, lat, gsd / 111320.0
    else:
        a, b = osr.SpatialReference(), osr.SpatialReference()
        a.ImportFromEPSG(4326)
        b.ImportFromEPSG(code)
        a.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        b.SetAxisMappingStrategy(osr.OAMS_TRADITIONAL_GIS_ORDER)
        x, y, _ = osr.CoordinateTransformation(a, b).TransformPoint(lon, lat)
        px = gsd
    t = 0.0 if r.random() < 0.6 else r.uniform(-math.pi, math.pi)
    ar = 2 ** r.uniform(-0.5, 0.5)
    g = [x, px * math.cos(t), px * ar * math.sin(t), y, px * math.sin(t), -px * ar * math.cos(t)]
    arr = tiles.pixels(r, gdal.GDT_Byte, w, h, int(r.choice([1, 3])))
    p = os.path.join(d, f"a{k}.tif")
    tiles.write(p, arr, gdal.GDT_Byte, geo=g, wkt=srs(code))
    return p, w, h, f"EPSG:{code}" + ("" if t == 0 else " rotated"), gsd, (lon, lat)


def gcp_source(r, d, k):
    w, h = int(r.integers(30, 160)), int(r.integers(30, 160))
    lon, lat = math.radians(r.uniform(-170, 170)), math.radians(r.uniform(-70, 70))
    gsd = 10 ** r.uniform(0, 2.0)
    t, q = r.uniform(-math.pi, math.pi), r.uniform(-2e-4, 2e-4, 2)
    cl = math.cos(lat)

    def world(x, y):
        u = 1.0 + q[0] * x + q[1] * y
        e, n = gsd * (x * math.cos(t) - y * math.sin(t)) / u, gsd * (-x * math.sin(t) - y * math.cos(t)) / u
        return math.degrees(lon + e / bundle.R / cl), math.degrees(lat + n / bundle.R)
    px = [(0, 0), (w, 0), (w, h), (0, h)] + [(float(r.uniform(0, w)), float(r.uniform(0, h))) for _ in range(int(r.integers(0, 5)))]
    gs = [gdal.GCP(*world(x, y), 0.0, float(x), float(y)) for x, y in px]
    arr = tiles.pixels(r, gdal.GDT_Byte, w, h, 1)
    p = os.path.join(d, f"g{k}.tif")
    tiles.write(p, arr, gdal.GDT_Byte, gcps=(gs, srs(4326)))
    return p, w, h, f"{len(gs)} tie points", gsd, (math.degrees(lon), math.degrees(lat))


def rpc_source(r, d, k, chipped):
    w, h = int(r.integers(60, 300)), int(r.integers(60, 300))
    s = bundle.precise(r, "rpc", quantize=True)
    # the raster is a window of the modelled image: offsets are relative to it unless a chip record relates the two
    chip = None
    opts = []
    if chipped:
        fx, fy = max(0, int(s.pixel[0]) - int(r.integers(0, w))), max(0, int(s.pixel[1]) - int(r.integers(0, h)))
        sc = float(r.choice([1.0, 2.0]))
        chip = bundle.Chip((float(fx), float(fy)), (sc, sc), w, h, s.p["size"][0], s.p["size"][1])
        opts.append("TRE=ICHIPB=" + chip.text())
    else:
        s.p["line_off"], s.p["samp_off"] = float(int(r.integers(0, h))), float(int(r.integers(0, w)))
    opts.append("TRE=RPC00B=" + bundle.rpc_tre_text(s.p))
    p = os.path.join(d, f"r{k}.ntf")
    arr = tiles.pixels(r, gdal.GDT_Byte, w, h, 1)
    tiles.write(p, arr, gdal.GDT_Byte, "NITF", options=opts)
    return p, w, h, s, chip


def memory_model(r, w, h):
    """A camera of any kind whose image is about w x h; returned with a rough pixel size."""
    kind = str(r.choice(["rpc", "rsm", "sicd", "sidd"]))
    s = bundle.precise(r, kind)
    if kind == "rpc":
        model = rpc.build(s.p)
    elif kind == "rsm":
        model = rsm.build(s.p)
    else:
        from aws.osml.gdal.sensor_model_factory import SensorModelFactory

        model = SensorModelFactory(w, h, xml_dess=bundle.des_list([s.xml])).build()
    return kind, model, s


DMS = re.compile(r"(\d\d)(\d\d)(\d\d)([NS])(\d\d\d)(\d\d)(\d\d)([EW])")


def corners(text):
    out = []
    for i in range(4):
        mt = DMS.fullmatch(text[15 * i:15 * i + 15])
        if not mt:
            return None
        g = mt.groups()
        if max(int(g[1]), int(g[2]), int(g[5]), int(g[6])) > 59 or int(g[0]) > 90 or int(g[4]) > 180:
            return None
        la = (int(g[0]) + int(g[1]) / 60 + int(g[2]) / 3600) * (1 if g[3] == "N" else -1)
        lo = (int(g[4]) + int(g[5]) / 60 + int(g[6]) / 3600) * (1 if g[7] == "E" else -1)
        out.append((math.radians(lo), math.radians(la)))
    return out


def igeolo(m, tds, model, win, size=None):
    text = tds.GetMetadataItem("NITF_IGEOLO")
    m.require(tds.GetMetadataItem("NITF_ICORDS") == "G" and text is not None and len(text) == 60, "corner-string-missing", f"{tds.GetMetadataItem('NITF_ICORDS')!r} {text!r}")
    got = corners(text)
    m.require(got is not None, "corner-string-malformed", text)
    x, y, w, h = win
    want = [i2w(m, model, a, b).coordinate for a, b in [(x, y), (x + w, y), (x + w, y + h), (x, y + h)]]
    # a corner may be quoted for the outer corner or the centre of the corner pixel
    sx, sy = (1.0, 1.0) if size is None else (max(1.0, 0.5 * w / size[0]), max(1.0, 0.5 * h / size[1]))
    o, ax, ay = i2w(m, model, x + w / 2, y + h / 2).coordinate, i2w(m, model, x + w / 2 + sx, y + h / 2).coordinate, i2w(m, model, x + w / 2, y + h / 2 + sy).coordinate
    dist = lambda a, b: abs((a - b + math.pi) % (2 * math.pi) - math.pi)
    tlon, tlat = 1.1 * (dist(ax[0], o[0]) + dist(ay[0], o[0])), 1.1 * (abs(ax[1] - o[1]) + abs(ay[1] - o[1]))
    m.event("corner-string")
    sec = math.radians(1.01 / 3600)
    for g, a in zip(got, want):
        m.check(abs(g[1] - a[1]) <= tlat + sec and dist(g[0], a[0]) <= tlon + sec, "corner-string", f"corner {np.degrees(g).tolist()} instead of {np.degrees(a[:2]).tolist()}", text=text)


def pick(r, w, h, resize=True):
    x, y = int(r.integers(0, w - 16)), int(r.integers(0, h - 16))
    win = [x, y, int(r.integers(12, w - x + 1)), int(r.integers(12, h - y + 1))]
    size = None
    if r.random() < 0.15:
        win = [0, 0, w, h]
    if resize and r.random() < 0.35:
        size = (int(r.integers(8, 2 * win[2])), int(r.integers(8, 2 * win[3])))
    return win, size


def cut(m, fac, win, size, d, ext):
    data = fac.create_encoded_tile(list(win), output_size=size)
    m.require(data is not None and len(data) > 0, "no-tile")
    m.event("tile")
    if size is not None:
        m.event("resized")
    p = os.path.join(d, "tile." + ext)
    for q in (p, p + ".aux.xml"):
        if os.path.exists(q):
            os.remove(q)
    with open(p, "wb") as fh:
        fh.write(bytes(data))
    return p


def points(r, win, size):
    tw, th = size or (win[2], win[3])
    return tw, th, [(0.0, 0.0), (float(tw), 0.0), (float(tw), float(th)), (0.0, float(th))] + [(float(r.uniform(0, tw)), float(r.uniform(0, th))) for _ in range(2)]


def back(win, tw, th, x, y):
    return win[0] + x * win[2] / tw, win[1] + y * win[3] / th


def agree(m, r, tmodel, smodel, win, size, tol, key, only_corners=False, extra_m=0.0, gsd=1.0):
    tw, th, pts = points(r, win, size)
    for x, y in pts[:4] if only_corners else pts:
        sx, sy = back(win, tw, th, x, y)
        g = i2w(m, smodel, sx, sy).coordinate
        if extra_m:
            t = i2w(m, tmodel, x, y).coordinate
            m.close(metres(t, g), 0.0, extra_m + tol * gsd, key, pixel=[x, y])
        else:
            c = w2i(m, tmodel, *g)
            m.close([c.x, c.y], [x, y], tol, key, source=[sx, sy])


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for k in range(m.n(4, 24)):
        kind = "affine" if k % 2 == 0 else "gcp"
        path, w, h, note, gsd, where = (affine_source if kind == "affine" else gcp_source)(r, d, k)
        ds, model = load_gdal_dataset(path)
        for j in range(m.n(8, 10)):
            fmt = [F.GTIFF, F.GTIFF, F.NITF, F.NITF, F.PNG][j % 5]
            if r.random() < 0.1:
                fmt = F.JPEG
            win, size = pick(r, w, h)
            given = fmt == F.NITF or r.random() < 0.5
            with m.case({"source": kind, "georeference": note, "gsd": gsd, "where": where, "window": win, "output": size, "tile": str(fmt)}, kind, note, tuple(win), size, str(fmt)):
                m.require(model is not None, "no-source-camera")
                fac = GDALTileFactory(ds, model if given else None, tile_format=fmt, tile_compression=C.NONE)
                p = cut(m, fac, win, size, d, str(fmt.value).lower())
                tds, tmodel = load_gdal_dataset(p)
                tw, th = size or (win[2], win[3])
                if fmt == F.GTIFF:
                    m.require(tmodel is not None, "no-camera", "the tile carries no usable georeferencing")
                    m.event("exact-camera" if kind == "affine" else "tie-point-camera")
                    agree(m, r, tmodel, model, win, size, 2e-3 if kind == "affine" else 0.05, "camera")
                elif fmt == F.NITF:
                    igeolo(m, tds, model, win, size)
                    if min(win[2], win[3]) * gsd > 600.0:
                        m.require(tmodel is not None, "no-camera", "the tile carries no usable georeferencing")
                        m.event("corner-camera")
                        agree(m, r, tmodel, model, win, size, 2.0 * max(1.0, win[2] / tw, win[3] / th), "corner-camera", True, 45.0, gsd)
                elif tmodel is not None:
                    agree(m, r, tmodel, model, win, size, 2e-3 if kind == "affine" else 0.05, "camera")
                else:
                    m.event("no-camera-tile")
                tds = None
        ds = None
    # rational polynomials, with and without a chip record
    for k in range(m.n(2, 10)):
        chipped = k % 2 == 1
        path, w, h, s, chip = rpc_source(r, d, k, chipped)
        ds, model = load_gdal_dataset(path)
        for j in range(m.n(5, 8)):
            win, size = pick(r, w, h)
            full = win == [0, 0, w, h] and size in (None, (w, h))
            with m.case({"source": "rpc", "chip record": chipped, "size": [w, h], "window": win, "output": size, "rpc": [s.p["samp_off"], s.p["line_off"]]}, "rpc", chipped, s.p["lat_off"], tuple(win), size):
                m.require(model is not None, "no-source-camera")
                fac = GDALTileFactory(ds, model, tile_format=F.NITF, tile_compression=C.NONE)
                p = cut(m, fac, win, size, d, "ntf")
                tds, tmodel = load_gdal_dataset(p)
                igeolo(m, tds, model, win, size)
                tw, th = size or (win[2], win[3])
                has = "RPC00B" in (tds.GetMetadata("TRE") or {})
                keeps = chipped or (s.p["line_off"] >= win[1] and s.p["samp_off"] >= win[0])
                if tmodel is None and not keeps and min(win[2], win[3]) * s.gsd < 600.0:
                    continue  # neither record can describe this tile
                m.require(tmodel is not None, "no-camera", "the tile carries no usable georeferencing")
                if not chipped:
                    if keeps:
                        m.check(has, "rpc-lost", "the tile lost the polynomial camera")
                    if has:
                        m.event("rpc-camera")
                        rs = max(win[2] / tw, win[3] / th, tw / win[2], th / win[3])
                        agree(m, r, tmodel, model, win, size, 1.5 + (0.5 * rs if size else 0.0), "rpc-camera")
                else:
                    m.event("chip-record")
                    wrong = None
                    for x, y in points(r, win, size)[2]:
                        sx, sy = back(win, tw, th, x, y)
                        g = i2w(m, model, sx, sy).coordinate
                        c = w2i(m, tmodel, *g)
                        if has and max(abs(c.x - x), abs(c.y - y)) > 2.5:
                            fx, fy = chip.to_full(sx, sy)
                            # what the camera says if only the chip record went missing
                            ex, ey = (fx - win[0]) * tw / win[2], (fy - win[1]) * th / win[3]
                            wrong = "chip-record-lost" if max(abs(c.x - ex), abs(c.y - ey)) < 5.0 * max(1.0, tw / win[2], th / win[3]) else "chip-camera"
                            m.check(False, wrong, f"camera of the tile: ground of tile pixel {(x, y)} projects to {(c.x, c.y)}")
                            break
                    if wrong is None:
                        m.check(True, "chip-camera")
                tds = None
        ds = None
    # corner strings for cameras of every kind
    w, h = int(r.integers(300, 800)), int(r.integers(300, 800))
    arr = np.full((1, h, w), 7, np.uint8)
    mem = tiles.write(None, arr, gdal.GDT_Byte, "MEM")
    for k in range(m.n(6, 30)):
        kind, model, s = memory_model(r, w, h)
        for j in range(3):
            win, size = pick(r, w, h, resize=False)
            with m.case({"source": "in-memory camera", "kind": kind, "window": win, "ground": [math.degrees(v) for v in s.ground[:2]]}, kind, tuple(win), tuple(s.ground)):
                m.require(model is not None, "no-source-camera")
                fac = GDALTileFactory(mem, model, tile_format=F.NITF, tile_compression=C.NONE)
                p = cut(m, fac, win, None, d, "ntf")
                igeolo(m, gdal.Open(p), model, win)
