"""P18 range adjustment: every decoded tile pixel is compared with the linear map its band's own value distribution determines."""

import glob
import os

import numpy as np
from osgeo import gdal

from aws.osml.gdal import GDALCompressionOptions as C, GDALImageFormats as F, RangeAdjustmentType as A, get_type_and_scales
from aws.osml.gdal.gdal_utils import get_minmax_for_type
from aws.osml.image_processing import GDALTileFactory
from props.p26 import reference
from vlib import tiles

gdal.DontUseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")
DEFAULT_CONFIG = True
SHARDS = {"quick": 32, "thorough": 64}
MIN = {"file-replaced": 50, "tile": 600, "adjust:NONE": 100, "adjust:MINMAX": 150, "adjust:DRA": 150, "constant-band": 30, "two-valued": 30, "outliers": 100, "negative": 60, "wide": 8, "multi-band": 100,
       "converted": 200, "mixed-types": 30, "float-source": 80}
RULE = "distinct (source type, value distribution per band, adjustment, output type, window)"
ASSUME = ["every row of an image holds the same values in a different order, so that statistics GDAL estimates from a sample equal the exact ones",
          "64-bit and complex sources and floating point outputs are not range adjusted"]
SRC = [gdal.GDT_Byte, gdal.GDT_UInt16, gdal.GDT_Int16, gdal.GDT_UInt32, gdal.GDT_Int32, gdal.GDT_Float32, gdal.GDT_Float64]
OUT = [gdal.GDT_Byte, gdal.GDT_UInt16, gdal.GDT_Int16, gdal.GDT_UInt32, gdal.GDT_Int32]


def values(m, r, t, w):
    """The multiset of one row."""
    isint = t in tiles.RANGE
    lo, hi = tiles.RANGE.get(t, (-1e4, 1e4))
    kind = str(r.choice(["spread", "narrow", "outliers", "constant", "two", "dominant", "full", "wide"]))
    span = hi - lo
    if kind == "full":
        v = r.uniform(lo, hi, w) if span < 1e6 else r.uniform(lo / 100, hi / 100, w)
        if isint and span < 1e5:
            v[:2] = lo, hi
    elif kind == "wide":
        v = r.uniform(max(lo, -3e6), min(hi, 3e6), w)
        if min(hi, 3e6) - max(lo, -3e6) > 1e6:
            m.event("wide")
    elif kind == "spread":
        c = r.uniform(max(lo, -2000) + 0, min(hi, 4000)); v = c + r.uniform(-1, 1, w) * min(span / 4, 10 ** r.uniform(0.5, 3))
    elif kind == "narrow":
        c = r.uniform(max(lo, -200), min(hi, 900)); v = c + r.uniform(0, 6, w)
    elif kind == "outliers":
        m.event("outliers")
        c = r.uniform(max(lo, -200) + 60, min(hi, 900) * 0.7); v = c + r.normal(0, 12, w)
        v[0] = min(hi, c + r.uniform(60, 3000))
        if r.random() < 0.5:
            v[1] = max(lo, c - r.uniform(50, 300))
    elif kind == "constant":
        m.event("constant-band")
        v = np.full(w, r.choice([lo if isint else -3.5, 0, min(hi, 77), hi if isint and span < 1e6 else 12.25]))
    elif kind == "two":
        m.event("two-valued")
        a = r.choice([0, 1, 5, 100]); b = a + r.choice([1, 1, 2, 50])
        v = np.where(np.arange(w) < r.uniform(0.05, 0.95) * w, a, b).astype(float)
        v[0], v[-1] = a, b
    else:
        c = float(r.integers(0, 120)); v = np.full(w, c)
        k = max(1, int(0.01 * w))
        v[:k] = c + r.uniform(1, 100, k)
    v = np.clip(v, lo, hi)
    if isint:
        v = np.round(v)
    v = v.astype(tiles.NP[t])
    if float(v.min()) < 0:
        m.event("negative")
    return kind, v


def expected_range(v, t, adj):
    """(smin, smax, tolerance of either end) or None when rounding leaves the range open."""
    x = v.astype(float)
    amin, amax = x.min(), x.max()
    if adj == A.MINMAX or amin == amax:
        return amin, amax, 0.0
    if t in tiles.RANGE and amax - amin < 65536:
        c = np.bincount((x - amin).astype(int))
        a, b, s, e, exact, slack = reference(c, amin, amax + 1, 0.02, 0.98, 0.2, 0.4)
        tol = 0.01
    else:
        n = 255 if t not in tiles.RANGE else 65536
        ext = 0.5 if t in tiles.RANGE else 0.0
        width = (amax - amin + 2 * ext) / n
        c = np.bincount(np.minimum(((x - amin + ext) / width).astype(int), n - 1), minlength=n)
        a, b, s, e, exact, slack = reference(c, amin, amax + 2 * ext, 0.02, 0.98, 0.2, 0.4)
        if t not in tiles.RANGE:
            slack = True     # values near a bucket border may be counted on either side
            q0, q1 = np.quantile(x, [0.02, 0.98], method="nearest")
            if q1 - q0 < 6 * width:
                return None
        tol = 2.5 * width
    if not exact:
        s, e, tol = amin, amax, max(tol, 1.01 if t in tiles.RANGE and amax - amin < 65536 else 0)
        return (s, e, tol) if not slack else None
    if slack and t in tiles.RANGE:
        return None
    return s, e, tol


def type_ranges(m):
    """The range of every real pixel type is that of the type itself."""
    for gt, dt in [(t, d) for t, d in tiles.NP.items() if not np.issubdtype(d, np.complexfloating)]:
        with m.case({"call": "get_minmax_for_type", "type": gdal.GetDataTypeName(gt)}, "type-range", gt):
            lo, hi = get_minmax_for_type(gt)
            i = np.finfo(dt) if np.issubdtype(dt, np.floating) else np.iinfo(dt)
            exact = not np.issubdtype(dt, np.floating)
            m.check((int(lo), int(hi)) == (i.min, i.max) if exact else (np.isclose(lo, float(i.min), rtol=1e-6) and np.isclose(hi, float(i.max), rtol=1e-6)), "type-range", f"{lo}..{hi} instead of {i.min}..{i.max}")
            m.event("type-range")


def run(m, tier, shard):
    r = m.rng
    type_ranges(m)
    d = m.scratch()
    for k in range(m.n(40, 200)):
        t = int(r.choice(SRC))
        nb = int(r.choice([1, 1, 2, 3, 4]))
        w, h = int(r.integers(60, 220)), int(r.integers(4, 24))
        types = [t] * nb
        if nb > 1 and t in tiles.RANGE and r.random() < 0.3:
            types = [t] + [int(v) for v in r.choice(SRC[:5], nb - 1)]
        mixed = len(set(types)) > 1
        kinds, rows = zip(*[values(m, r, tb, w) for tb in types])
        arr = [np.array([r.permutation(v) for _ in range(h)]) for v in rows]
        kind = "mixed" if mixed else str(r.choice(["tif", "mem", "nitf"]))
        # often another image in the place of one that was used before
        ds = fac = None
        name = os.path.join(d, f"s{k}" if r.random() < 0.5 else "same")
        for f in glob.glob(name + ".*"):
            m.event("file-replaced")
            os.unlink(f)
        if mixed:
            m.event("mixed-types")
            ds = gdal.GetDriverByName("MEM").Create("", w, h, 1, t)
            for tb in types[1:]:
                ds.AddBand(tb)
            for b in range(nb):
                ds.GetRasterBand(b + 1).WriteArray(arr[b])
        else:
            arr = np.array(arr)
        if mixed:
            pass
        elif kind == "mem":
            ds = tiles.write(None, arr, t, "MEM")
        elif kind == "nitf":
            ds = tiles.write(name + ".ntf", arr, t, "NITF", options=["BLOCKXSIZE=%d" % w, "BLOCKYSIZE=1"])
        else:
            ds = tiles.write(name + ".tif", arr, t, "GTiff", options=["PHOTOMETRIC=MINISBLACK", "ALPHA=NO"])
        adjusts = [A.NONE, A.MINMAX, A.DRA]
        r.shuffle(adjusts)
        if t not in tiles.RANGE:
            m.event("float-source")
        for adj in adjusts:
            out = None if r.random() < 0.35 and t in tiles.RANGE and not mixed else int(r.choice(OUT if not mixed or r.random() < 0.4 else types))
            if adj == A.NONE and t not in tiles.RANGE:
                continue
            ot = t if out is None else out
            olo, ohi = tiles.RANGE[ot]
            desc = {"type": [tiles.NAME[tb] for tb in types] if mixed else tiles.NAME[t], "bands": kinds, "size": [w, h], "adjust": str(adj), "output": tiles.NAME[ot] if out is not None else None, "source": kind}
            ok = False
            with m.case({**desc, "call": "get_type_and_scales"}, "scales", repr(desc)):
                got_type, scales = get_type_and_scales(ds, desired_output_type=out, range_adjustment=adj)
                m.check(got_type == ot, "output-type", f"{got_type} instead of {ot}")
                m.check(len(scales) == nb, "scales-per-band", f"{len(scales)} for {nb} bands")
                m.check(all(list(s[2:]) == [olo, ohi] for s in scales), "output-range", f"{scales}")
                fac = GDALTileFactory(ds, tile_format=F.GTIFF, tile_compression=C.NONE, output_type=out, range_adjustment=adj)
                ok = True
            if not ok:
                continue
            maps = [{} for _ in range(nb)]
            for j in range(m.n(2, 4)):
                x, y = (0, 0) if j == 0 else (int(r.integers(0, w - 1)), int(r.integers(0, h - 1)))
                win = [x, y, w, h] if j == 0 else [x, y, int(r.integers(1, w - x + 1)), int(r.integers(1, h - y + 1))]
                with m.case({**desc, "window": win}, repr(desc), tuple(win), repr(rows[0][:6])):
                    data = fac.create_encoded_tile(win)
                    m.require(data is not None, "no-tile")
                    tile = tiles.Tile(data, d)
                    got = tile.array()
                    gt = tile.ds.GetRasterBand(1).DataType
                    tile.close()
                    m.event("tile"); m.event("adjust:" + {A.NONE: "NONE", A.MINMAX: "MINMAX", A.DRA: "DRA"}[adj])
                    if nb > 1:
                        m.event("multi-band")
                    if out is not None and out != t:
                        m.event("converted")
                    m.check(gt == ot, "pixel-type", f"{gdal.GetDataTypeName(gt)} instead of {tiles.NAME[ot]}")
                    m.require(got.shape == (nb, win[3], win[2]), "tile-shape", f"{got.shape}")
                    want = [a[y:y + win[3], x:x + win[2]] for a in arr]
                    eps = 1.0 + 2e-7 * (ohi - olo)
                    for b in range(nb):
                        src, g = want[b].ravel().astype(float), got[b].ravel().astype(float)
                        # a function of the pixel value, the same in every tile, never decreasing
                        uv, first = np.unique(src, return_index=True)
                        m.check(np.array_equal(g, g[first][np.searchsorted(uv, src)]), "not-a-function", "equal source pixels got different output values in one tile")
                        gv = g[first]
                        m.check(bool(np.all(np.diff(gv) >= 0)), "order", "a brighter source pixel became darker than a darker one")
                        for a_, b_ in zip(uv.tolist(), gv.tolist()):
                            if maps[b].setdefault(a_, b_) != b_:
                                m.check(False, "differs-between-tiles", f"value {a_} became {maps[b][a_]} in one tile and {b_} in another")
                                break
                        if adj == A.NONE:
                            lo, hi = tiles.RANGE[types[b]]
                            s, e, tol = float(lo), float(hi), 0.0
                        else:
                            rng = expected_range(rows[b], types[b], adj)
                            if rng is None:
                                m.event("open-range")
                                continue
                            s, e, tol = rng
                        if s == e:
                            continue
                        f = lambda s_, e_: olo + np.clip((uv - s_) / (e_ - s_), 0, 1) * (ohi - olo)
                        if tol and e - s <= 2 * tol:
                            continue
                        tol += 4e-7 * float(np.abs(uv).max())
                        cand = np.array([f(s + p, e + q) for p in (-tol, 0, tol) for q in (-tol, 0, tol)])
                        bad = (gv < cand.min(0) - eps) | (gv > cand.max(0) + eps)
                        i = int(np.argmax(bad))
                        m.check(not bad.any(), "adjusted-value", f"band {b} ({kinds[b]}): value {uv[i]} became {gv[i]}, expected {cand[4][i]:.2f} (range {s}..{e})")
        ds = None
