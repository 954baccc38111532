"""P17 tile pixels: each encoded tile is decoded on its own and compared with the window of the source array it was cut from."""

import os

import numpy as np
from osgeo import gdal

from aws.osml.gdal import GDALCompressionOptions as C, GDALImageFormats as F
from aws.osml.image_processing import GDALTileFactory
from vlib import tiles

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
gdal.PushErrorHandler("CPLQuietErrorHandler")
DEFAULT_CONFIG = True
SHARDS = {"quick": 32, "thorough": 64}
MIN = {"tile": 600, "lossless": 400, "lossy": 60, "resized": 80, "padded": 60, "single-pixel": 10, "multi-band": 100, "overviews": 10, "outside": 4, "unstorable": 60, "truncated-source": 60, "no-tile": 60}
RULE = "distinct (source type, bands, source layout, tile format, compression, window, output size)"
ASSUME = ["pixel types the tile format can store", "lossy compressions judged on smooth pictures by mean and peak error", "resized tiles without overviews use nearest neighbour sampling"]
COMBOS = [(F.NITF, C.NONE), (F.NITF, C.J2K), (F.NITF, None), (F.NITF, C.JPEG), (F.GTIFF, C.NONE), (F.GTIFF, C.LZW), (F.GTIFF, None), (F.GTIFF, C.JPEG), (F.GTIFF, C.J2K),
          (F.PNG, C.NONE), (F.PNG, None), (F.JPEG, C.NONE), (F.JPEG, C.JPEG)]
J2K = [gdal.GDT_Byte, gdal.GDT_UInt16, gdal.GDT_Int16]
INTS = [gdal.GDT_Byte, gdal.GDT_UInt16, gdal.GDT_Int16, gdal.GDT_UInt32, gdal.GDT_Int32]


def lossless(fmt, comp, t):
    if fmt == F.NITF:
        return comp == C.NONE or (comp in (None, C.J2K) and t not in J2K)
    if fmt == F.GTIFF:
        return comp != C.JPEG
    return fmt == F.PNG


def pick(r):
    fmt, comp = COMBOS[int(r.integers(len(COMBOS)))]
    if fmt == F.PNG:
        t = int(r.choice([gdal.GDT_Byte, gdal.GDT_UInt16])); nb = int(r.choice([1, 2, 3, 4]))
    elif fmt == F.JPEG or comp == C.JPEG:
        t = gdal.GDT_Byte; nb = int(r.choice([1, 3]))
    elif fmt == F.NITF and comp in (None, C.J2K):
        t = int(r.choice(J2K + [gdal.GDT_UInt32, gdal.GDT_Int32, gdal.GDT_Float32, gdal.GDT_Float64, gdal.GDT_CFloat32])); nb = int(r.choice([1, 3]))
    elif fmt == F.NITF:
        t = int(r.choice(INTS + [gdal.GDT_Float32, gdal.GDT_Float64, gdal.GDT_CFloat32])); nb = int(r.choice([1, 2, 3, 4, 8]))
    else:
        t = int(r.choice(INTS + [gdal.GDT_Float32, gdal.GDT_Float64, gdal.GDT_UInt64, gdal.GDT_Int64, gdal.GDT_CFloat32])); nb = int(r.choice([1, 2, 3, 4, 5, 8]))
    return fmt, comp, t, nb


def source(r, d, k, arr, t):
    drivers = ["tif", "tif-tiled", "tif-lzw", "mem"]
    if t in INTS + [gdal.GDT_Float32, gdal.GDT_Float64] and arr.shape[0] < 9:
        drivers += ["nitf"]
    kind = str(r.choice(drivers))
    p = os.path.join(d, f"src{k}." + ("ntf" if kind == "nitf" else "tif"))
    if kind == "mem":
        return kind, tiles.write(None, arr, t, "MEM")
    if kind == "nitf":
        return kind, tiles.write(p, arr, t, "NITF", options=["BLOCKA_BLOCK_COUNT=0"] + (["BLOCKXSIZE=32", "BLOCKYSIZE=16"] if r.random() < 0.5 else []))
    opts = {"tif": [], "tif-tiled": ["TILED=YES", "BLOCKXSIZE=32", "BLOCKYSIZE=16"], "tif-lzw": ["COMPRESS=LZW", "INTERLEAVE=BAND"]}[kind]
    return kind, tiles.write(p, arr, t, "GTiff", options=opts)


def window(r, w, h):
    style = str(r.choice(["inside", "inside", "inside", "full", "pixel", "edge", "over", "over-tl", "strip"]))
    if style == "full":
        return style, [0, 0, w, h]
    if style == "pixel":
        return style, [int(r.integers(0, w)), int(r.integers(0, h)), 1, 1]
    if style == "edge":
        tw, th = int(r.integers(1, w + 1)), int(r.integers(1, h + 1))
        return style, [w - tw, h - th, tw, th]
    if style == "over":
        return style, [int(r.integers(0, w)), int(r.integers(0, h)), int(r.integers(1, w + 10)), int(r.integers(1, h + 10))]
    if style == "over-tl":
        return style, [-int(r.integers(0, 10)), -int(r.integers(0, 10)), int(r.integers(12, w + 20)), int(r.integers(12, h + 20))]
    if style == "strip":
        return style, [int(r.integers(0, w - 2)), 0, 2, h] if r.random() < 0.5 else [0, int(r.integers(0, h - 2)), w, 2]
    x, y = int(r.integers(0, w - 1)), int(r.integers(0, h - 1))
    return style, [x, y, int(r.integers(1, w - x + 1)), int(r.integers(1, h - y + 1))]


def cut(arr, win):
    b, h, w = arr.shape
    x, y, tw, th = win
    out = np.zeros((b, th, tw), arr.dtype)
    x0, y0, x1, y1 = max(x, 0), max(y, 0), min(x + tw, w), min(y + th, h)
    if x1 > x0 and y1 > y0:
        out[:, y0 - y:y1 - y, x0 - x:x1 - x] = arr[:, y0:y1, x0:x1]
    return out


def nearest_ok(got, arr, win, size):
    """Every output pixel equals a source pixel within one pixel of the sampled centre (GDAL reads some shapes line by line and
    then rounds each line on its own, which moves a sample by up to one source pixel)."""
    b, h, w = arr.shape

    def cand(n_out, start, n_in, lim):
        c = np.floor(start + (np.arange(n_out) + 0.5) * n_in / n_out + 1e-9).astype(int)
        return [np.clip(c + d, 0, lim - 1) for d in (0, -1, 1)]
    ok = np.zeros(got.shape, bool)
    for ys in cand(size[1], win[1], win[3], h):
        for xs in cand(size[0], win[0], win[2], w):
            ok |= got == arr[:, ys][:, :, xs]
    return bool(ok.all())


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for k in range(m.n(26, 160)):
        fmt, comp, t, nb = pick(r)
        exact = lossless(fmt, comp, t)
        w, h = (int(r.integers(13, 90)), int(r.integers(13, 90))) if exact else (int(r.integers(150, 300)), int(r.integers(150, 300)))
        arr = tiles.pixels(r, t, w, h, nb, smooth=not exact)
        kind, ds = source(r, d, k, arr, t)
        overviews = exact is False and kind.startswith("tif") and r.random() < 0.3
        if overviews:
            path = ds.GetDescription()
            ds = None
            up = gdal.Open(path, gdal.GA_Update)
            up.BuildOverviews("AVERAGE", [2, 4])
            up = None
            ds = gdal.Open(path)
            m.event("overviews")
        desc = {"type": tiles.NAME[t], "bands": nb, "size": [w, h], "source": kind, "format": fmt, "compression": comp}
        with m.case(desc, "factory"):
            kw = {} if r.random() < 0.7 else {"output_type": t}
            fac = GDALTileFactory(ds, tile_format=fmt, tile_compression=comp, **kw)
            ref = [ds.RasterXSize, ds.RasterYSize, ds.RasterCount]
        if m.violations and m.violations[-1]["case_no"] == m.case_no:
            continue
        for j in range(m.n(5, 9)):
            style, win = window(r, w, h) if exact else ("inside", [int(r.integers(0, w - 140)), int(r.integers(0, h - 140)), int(r.integers(100, 141)), int(r.integers(100, 141))])
            inside = win[0] >= 0 and win[1] >= 0 and win[0] + win[2] <= w and win[1] + win[3] <= h
            size = None
            if inside and r.random() < 0.3:
                size = (int(r.integers(1, 2 * win[2] + 2)), int(r.integers(1, 2 * win[3] + 2))) if exact else (win[2] // 2, win[3] // 2)
            if not exact and size is None and overviews:
                size = (win[2] // 2, win[3] // 2)
            with m.case({**desc, "window": win, "output": size}, tuple(desc.items()), tuple(win), size):
                keep = list(win)
                data = fac.create_encoded_tile(win, output_size=size)
                m.check(win == keep, "window-mutated")
                m.require(data is not None and len(data) > 0, "no-tile", f"no tile for {win} of {w}x{h}")
                tile = tiles.Tile(data, d)
                try:
                    m.require(tile.ds is not None, "undecodable", "the encoded tile cannot be opened")
                    got = tile.array()
                    drv = tile.ds.GetDriver().ShortName
                    gt = tile.ds.GetRasterBand(1).DataType
                    ic = tile.ds.GetMetadataItem("NITF_IC")
                    tc = tile.ds.GetMetadataItem("COMPRESSION", "IMAGE_STRUCTURE")
                finally:
                    tile.close()
                m.event("tile")
                m.check(drv == fmt, "format", f"{drv} instead of {fmt}")
                m.check(gt == t, "pixel-type", f"{gdal.GetDataTypeName(gt)} instead of {tiles.NAME[t]}")
                tw, th = size or (win[2], win[3])
                m.require(got.shape == (nb, th, tw), "tile-shape", f"{got.shape} instead of {(nb, th, tw)}")
                if fmt == F.NITF:
                    want = {C.NONE: "NC", C.JPEG: "C3"}.get(comp, "C8" if t in J2K else "NC")
                    m.check(ic == want, "compression", f"image compression {ic} instead of {want}")
                elif fmt == F.GTIFF:
                    want = {C.NONE: (None,), C.JPEG: ("JPEG", "YCbCr JPEG")}.get(comp, ("LZW",))
                    m.check(tc in want, "compression", f"{tc} instead of {want}")
                if nb > 1:
                    m.event("multi-band")
                if win[2] == win[3] == 1:
                    m.event("single-pixel")
                if exact:
                    m.event("lossless")
                    if size is None:
                        want = cut(arr, win)
                        m.check(np.array_equal(got, want), "pixels" if inside else "padding", f"{int(np.sum(got != want))} of {want.size} pixels differ from the source window")
                        if not inside:
                            m.event("padded")
                    else:
                        m.event("resized")
                        m.check(nearest_ok(got, arr, win, size), "resampled", "a resized tile holds values that are not at the sampled locations")
                else:
                    m.event("lossy")
                    x0, y0 = win[0], win[1]
                    if size is None:
                        want = cut(arr, win).astype(float)
                    else:
                        m.event("resized")
                        c = cut(arr, win).astype(float)
                        want = c[:, : 2 * size[1], : 2 * size[0]].reshape(nb, size[1], 2, size[0], 2).mean((2, 4))
                    full = 255.0 if t == gdal.GDT_Byte else 4000.0
                    err = np.abs(got.astype(float) - want) / full
                    m.stat("lossy-mean", err.mean())
                    m.stat("lossy-max", err.max())
                    m.check(err.mean() < 0.03 and err.max() < 0.2, "lossy-pixels", f"mean error {err.mean():.3f} max {err.max():.3f} of full scale")
        if k % 4 == 0:
            # what the codec cannot store, or the source cannot deliver, gives no tile rather than the remains of one
            t2 = int(r.choice(INTS + [gdal.GDT_Float32, gdal.GDT_Float64, gdal.GDT_CFloat32, gdal.GDT_CFloat64]))
            f2, c2 = [(F.NITF, C.JPEG), (F.NITF, C.LZW), (F.GTIFF, C.JPEG), (F.NITF, C.NONE), (F.NITF, None)][int(r.integers(5))]
            w, h = int(r.integers(70, 120)), int(r.integers(70, 120))
            a2 = tiles.pixels(r, t2, w, h, 1, smooth=True)
            win = [int(r.integers(0, 4)), int(r.integers(0, 4)), 64, 64]
            with m.case({"type": tiles.NAME.get(t2, str(t2)), "format": f2, "compression": c2, "size": [w, h], "storable": "perhaps"}, "unstorable", t2, f2, c2):
                m.event("unstorable")
                ds2 = tiles.write(None, a2, t2, "MEM")
                n0 = len(tiles.vsimem())
                data = GDALTileFactory(ds2, tile_format=f2, tile_compression=c2).create_encoded_tile(list(win))
                m.check(len(tiles.vsimem()) == n0, "left-behind", "in-memory files left after making a tile")
                if data is None:
                    m.check(t2 == gdal.GDT_CFloat64 or c2 not in (C.NONE, None), "no-tile", "no tile although the format stores the type")
                    m.event("no-tile")
                else:
                    tile = tiles.Tile(data, d)
                    try:
                        if m.check(tile.ds is not None, "undecodable", "the encoded tile cannot be opened"):
                            got, want = tile.array().astype(complex), cut(a2, win).astype(complex)
                            m.check(np.abs(got - want).max() <= 0.1 * np.abs(want).max() + 8, "lossy-pixels", f"pixels differ by {np.abs(got - want).max():g}")
                    finally:
                        tile.close()
                ds2 = None
            with m.case({"type": tiles.NAME[t], "source": "truncated"}, "truncated", t):
                m.event("truncated-source")
                a3 = tiles.pixels(r, t, 90, 80, 1)
                p3 = os.path.join(d, f"cutoff{k}.tif")
                tiles.write(p3, a3, t, "GTiff", options=["TILED=YES", "BLOCKXSIZE=16", "BLOCKYSIZE=16"])
                n = os.path.getsize(p3)
                os.truncate(p3, int(n * r.uniform(0.3, 0.9)))
                ds3 = gdal.Open(p3)
                if ds3 is not None and t in INTS + [gdal.GDT_Float32, gdal.GDT_Float64]:
                    fac = GDALTileFactory(ds3, tile_format=F.GTIFF, tile_compression=C.NONE)
                    for _ in range(4):
                        win = [int(r.integers(0, 50)), int(r.integers(0, 50)), 16, 16]
                        data = fac.create_encoded_tile(list(win))
                        if data is None:
                            m.event("no-tile")
                            continue
                        tile = tiles.Tile(data, d)
                        try:
                            m.check(tile.ds is not None and np.array_equal(tile.array(), cut(a3, win)), "unreadable-source", "the pixels cannot be read from the source, yet there is a tile")
                        finally:
                            tile.close()
                ds3 = None
        if shard % 4 == 0 and k % 6 == 0:
            with m.case({**desc, "window": "negative size"}, "bad-window", k):
                m.event("outside")
                data = fac.create_encoded_tile([2, 2, -1, 3])
                m.check(data is None, "impossible-window", "a window with a negative size produced a tile")
        ds = None
