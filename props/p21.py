"""P21 tile requests are isolated: whatever was requested before, a request gives the same tile, leaves no residue and changes nothing it was given."""

import hashlib
import os
import re
import threading

import numpy as np
from osgeo import gdal, osr

from aws.osml.gdal import GDALCompressionOptions as C, GDALImageFormats as F, RangeAdjustmentType as RA, load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from props import p19, p20
from vlib import sar, tiles

gdal.DontUseExceptions()
gdal.PushErrorHandler("CPLQuietErrorHandler")
DEFAULT_CONFIG = True
SHARDS = {"quick": 16, "thorough": 64}
MIN = {"request": 900, "repeat": 150, "refused": 80, "second-factory": 200, "adjusted": 150, "orthophoto": 50, "sar": 100, "threaded-tile": 800, "interleaved": 20}
RULE = "distinct (source, factory settings, sequence of requests so far)"
ASSUME = ["encoder time stamps in NITF headers and SIDD processing records are not compared", "statistics sidecar files written by GDAL next to the source are allowed"]
DATES = re.compile(r"NITF_(FDT|IDATIM)$")


def describe(path):
    """Everything a reader of the tile sees, without time stamps."""
    ds = gdal.Open(path)
    if ds is None:
        return ("unreadable",)
    md = {}
    for dom in ("", "TRE", "RPC", "IMAGE_STRUCTURE", "xml:DES"):
        v = ds.GetMetadata(dom)
        if dom == "xml:DES":
            segs = p20.fields(ds) if v else []
            md[dom] = repr([(a, sorted(b.items()), re.sub(r"<[^<>]*ApplicationInformation.*?>|ProcessedDate|\d{4}-\d\d-\d\dT[\d:.]+Z?", "", c or "")) for a, b, c in segs])
        else:
            md[dom] = repr(sorted((k, x) for k, x in (v or {}).items() if not DATES.search(k)))
    bands = [(ds.GetRasterBand(i + 1).DataType, ds.GetRasterBand(i + 1).GetColorInterpretation(), ds.GetRasterBand(i + 1).GetNoDataValue()) for i in range(ds.RasterCount)]
    out = (ds.RasterXSize, ds.RasterYSize, tuple(bands), hashlib.md5(np.ascontiguousarray(ds.ReadAsArray()).tobytes()).hexdigest(), ds.GetGeoTransform(),
           hashlib.md5(ds.GetProjection().encode()).hexdigest(), tuple((g.GCPX, g.GCPY, g.GCPPixel, g.GCPLine) for g in ds.GetGCPs() or ()), tuple(sorted(md.items())))
    ds = None
    return out


def state(ds):
    """Observable state of the source dataset."""
    return repr((ds.GetGeoTransform(), ds.GetProjection(), [(g.GCPX, g.GCPY, g.GCPPixel, g.GCPLine) for g in ds.GetGCPs() or ()],
                 sorted((ds.GetMetadata() or {}).items()), sorted((ds.GetMetadata("TRE") or {}).items()), ds.GetMetadata("xml:DES"),
                 [(ds.GetRasterBand(i + 1).DataType, ds.GetRasterBand(i + 1).GetNoDataValue(), ds.GetRasterBand(i + 1).GetColorInterpretation()) for i in range(ds.RasterCount)]))


def digest(p):
    return hashlib.md5(open(p, "rb").read()).hexdigest()


def source(m, r, d, k, which=None):
    kind = ["affine", "sicd", "wide", "sidd", "gcp", "rpc"][k % 6 if which is None else which]
    if kind == "affine":
        p, w, h, *_ = p19.affine_source(r, d, k)
    elif kind == "gcp":
        p, w, h, *_ = p19.gcp_source(r, d, k)
    elif kind == "rpc":
        p, w, h, *_ = p19.rpc_source(r, d, k, bool(r.random() < 0.3))
    elif kind == "wide":
        w, h = int(r.integers(40, 160)), int(r.integers(40, 160))
        t = int(r.choice([gdal.GDT_UInt16, gdal.GDT_Int16, gdal.GDT_Float32]))
        p = os.path.join(d, f"w{k}.tif")
        tiles.write(p, tiles.pixels(r, t, w, h, int(r.choice([1, 3, 4]))), t, options=["PHOTOMETRIC=MINISBLACK", "ALPHA=NO"], geo=[10.0, 1e-5, 0, 40.0, 0, -1e-5], wkt=p19.srs(4326))
    else:
        name, xml, w, h, nb, t = p20.product(m, r, kind)
        p = os.path.join(d, f"s{k}.ntf")
        p20.write_nitf(p, tiles.pixels(r, t, w, h, nb), t, [p20.header(r, kind) + xml])
    return kind, p, w, h


def at_once(m, r, d, k):
    """Several threads cut tiles at the same time, each with a dataset and a factory of its own: every tile is the one the same request
    gets when nothing else is going on."""
    jobs = []
    same = r.random() < 0.4
    for t in range(4):
        kind, path, w, h = jobs[0][:4] if same and jobs else source(m, r, d, f"t{k}_{t}", int(r.integers(6)))
        ds, model = load_gdal_dataset(path)
        fmt = F.NITF if kind in ("sicd", "sidd") else [F.NITF, F.GTIFF][int(r.integers(2))]
        fac = GDALTileFactory(ds, model, tile_format=fmt, tile_compression=C.NONE)
        jobs.append((kind, path, w, h, ds, fac, [p19.pick(r, w, h, resize=False)[0] for _ in range(6)]))
    with m.case({"threads": [j[0] for j in jobs], "same source": same}, "threads", k, tuple(j[0] for j in jobs)):
        want = []
        for j in jobs:
            want.append([])
            for win in j[6]:
                t = tiles.Tile(j[5].create_encoded_tile(list(win)), d)
                t.ds = None
                want[-1].append(describe(t.path))
                t.close()
        got, log = [[] for _ in jobs], []

        def work(n):
            for win in jobs[n][6]:
                try:
                    got[n].append(jobs[n][5].create_encoded_tile(list(win)))
                except Exception as e:
                    got[n].append(e)
                log.append(n)

        start = tiles.vsimem()
        ts = [threading.Thread(target=work, args=(n,), daemon=True) for n in range(len(jobs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
        m.check(not any(t.is_alive() for t in ts), "thread-stuck", "a thread got no tile")
        m.event("threaded-tile", len(log))
        m.seen("interleaving", tuple(log))
        if sum(a != b for a, b in zip(log, log[1:])) > 4:
            m.event("interleaved")
        for n, j in enumerate(jobs):
            for win, data, w in zip(j[6], got[n], want[n]):
                m.require(isinstance(data, (bytes, bytearray)), "threads", f"{data!r} instead of a tile while other threads cut theirs")
                t = tiles.Tile(data, d)
                t.ds = None
                now = describe(t.path)
                t.close()
                m.check(now == w, "threads", f"another tile while other threads cut theirs: {diff(w, now)}")
        m.check(tiles.vsimem() == start, "residue", "files left in GDAL's memory file system")


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for k in range(m.n(3, 12)):
        at_once(m, r, d, k)
    for k in range(m.n(6, 30)):
        kind, path, w, h = source(m, r, d, k + shard)
        ds, model = load_gdal_dataset(path)
        for cfg in range(2):
            fmt = F.NITF if kind in ("sicd", "sidd") and r.random() < 0.7 else [F.NITF, F.GTIFF, F.PNG, F.JPEG][int(r.integers(4))]
            if kind == "sicd" and fmt != F.NITF:
                fmt = F.GTIFF
            out, adj = None, RA.NONE
            if fmt in (F.PNG, F.JPEG) or (kind == "wide" and r.random() < 0.7):
                out, adj = gdal.GDT_Byte, [RA.NONE, RA.MINMAX, RA.DRA][int(r.integers(3))]
            comp = [C.NONE, None][int(r.integers(2))] if fmt != F.JPEG else C.JPEG
            nb = ds.RasterCount
            if fmt == F.JPEG and nb not in (1, 3):
                fmt, comp = F.GTIFF, C.LZW
            desc = {"source": kind, "size": [w, h], "bands": nb, "tile": str(fmt), "compression": str(comp), "adjustment": str(adj)}
            mk = lambda: GDALTileFactory(ds, model, tile_format=fmt, tile_compression=comp, output_type=out, range_adjustment=adj)
            before_files = digest(path)
            start = tiles.vsimem()
            seen = {}
            fac = None
            with m.case({**desc, "call": "construct"}):
                fac = mk()
            if fac is None:
                continue
            src_state = state(ds)
            hist = []
            for j in range(m.n(7, 10)):
                u = r.random()
                bad = u < 0.12
                if bad:
                    # refused, possibly in the middle of producing the tile
                    win, size = [[0, 0, 0, 0], [-5, -5, 3, 3], [w + 5, 2, 4, 4], [0, 0, 5, 5], [3, 3, -4, 4]][int(r.integers(5))], (0, 5) if r.random() < 0.3 else None
                    if win == [0, 0, 5, 5]:
                        size = (3, 3) if kind == "sicd" and fmt == F.NITF else (-2, 3)
                elif seen and u < 0.45:
                    win, size = list(seen)[int(r.integers(len(seen)))]
                    win = list(win)
                else:
                    win, size = p19.pick(r, w, h, resize=kind != "sicd" and r.random() < 0.5)
                hist.append((tuple(win), size))
                with m.case({**desc, "window": win, "output": size, "request": j}, kind, str(fmt), str(adj), tuple(hist)):
                    m.event("request")
                    if adj != RA.NONE:
                        m.event("adjusted")
                    if kind in ("sicd", "sidd"):
                        m.event("sar")
                    arg, keep = list(win), list(win)
                    if bad:
                        m.event("refused")
                        try:
                            fac.create_encoded_tile(arg, output_size=size)
                        except Exception:
                            pass  # whether it is refused by None or an exception is judged elsewhere
                    else:
                        data = fac.create_encoded_tile(arg, output_size=size)
                        m.require(data is not None, "no-tile")
                        t = tiles.Tile(data, d)
                        t.ds = None
                        now = describe(t.path)
                        t.close()
                        key = (tuple(win), size)
                        if key in seen:
                            m.event("repeat")
                            m.check(seen[key] == now, "history", f"the same request gave another tile later: {diff(seen[key], now)}")
                        seen[key] = now
                        if j % 3 == 0:
                            # an untouched factory is the reference
                            m.event("second-factory")
                            other = mk().create_encoded_tile(list(win), output_size=size)
                            m.require(other is not None, "no-tile")
                            t = tiles.Tile(other, d)
                            t.ds = None
                            fresh = describe(t.path)
                            t.close()
                            m.check(fresh == now, "history", f"a new factory gives another tile: {diff(fresh, now)}")
                    m.check(arg == keep, "window-mutated", f"{keep} became {arg}")
                    left = [x for x in tiles.vsimem() if x not in start]
                    m.check(not left, "residue", f"files left in GDAL's memory file system: {left[:3]}")
                    m.check(state(ds) == src_state, "source-state", "the request changed the source dataset")
                    for x in left:
                        gdal.Unlink(x)
                if model is not None and kind in ("affine", "gcp", "wide") and j % 3 == 2:
                    with m.case({**desc, "call": "orthophoto", "request": j}, kind, "ortho", tuple(hist)):
                        m.event("orthophoto")
                        from vlib.sm import i2w

                        c = np.degrees([i2w(m, model, x, y).coordinate[:2] for x, y in [(2, 2), (w - 2, 2), (w - 2, h - 2), (2, h - 2)]])
                        bb = np.radians([c[:, 0].min(), c[:, 1].min(), c[:, 0].max(), c[:, 1].max()])
                        hist.append("ortho")
                        if nb in (1, 3):
                            a = fac.create_orthophoto_tile(tuple(bb), (32, 32))
                            b = mk().create_orthophoto_tile(tuple(bb), (32, 32))
                            m.check((a is None) == (b is None) and (a is None or bytes(a) == bytes(b)), "history", "a map tile depends on what was requested before")
                        m.check(state(ds) == src_state, "source-state", "the request changed the source dataset")
                        m.check(tiles.vsimem() == start, "residue", "files left in GDAL's memory file system")
            with m.case({**desc, "call": "source"}):
                m.check(digest(path) == before_files, "source-file", "the source file was modified")
        ds = None
        with m.case({"source": kind, "call": "closed source"}):
            m.check(digest(path) == before_files, "source-file", "the source file was modified")


def diff(a, b):
    if len(a) != len(b):
        return f"{a[:2]} / {b[:2]}"
    return next((f"field {i}: {str(x)[:150]} / {str(y)[:150]}" for i, (x, y) in enumerate(zip(a, b)) if x != y), "")
