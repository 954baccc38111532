"""P20 SAR tile metadata: every tile is opened from its own bytes; its camera must agree with the source camera at the pixels it was cut from."""

import math
import os
import re
from xml.etree import ElementTree as ET

import numpy as np
from osgeo import gdal

from aws.osml.gdal import GDALCompressionOptions as C, GDALImageFormats as F, NITFDESAccessor, load_gdal_dataset
from aws.osml.image_processing import GDALTileFactory
from aws.osml.image_processing.sicd_updater import SICDUpdater
from aws.osml.image_processing.sidd_updater import SIDDUpdater
from vlib import bundle, sar, tiles
from vlib.bundle import metres
from vlib.core import DATA
from vlib.sm import i2w

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
gdal.PushErrorHandler("CPLQuietErrorHandler")
DEFAULT_CONFIG = True
SHARDS = {"quick": 16, "thorough": 40}
MIN = {"tile:sicd": 150, "tile:sidd": 150, "camera": 1000, "second-generation": 40, "resized": 40, "source-is-chip": 60, "document": 100, "header": 100, "updater": 60, "scaling-refused": 8, "quadrilateral": 40, "other-segment-first": 12, "single-line": 20}
RULE = "distinct (product, window, output size, position in the history of tiles cut, generation)"
ASSUME = ["a single row or column of pixels is not stretched", "resized SIDD tiles are related to the source by their corner pixels, as the SIDD standard defines"]
TEMPLATE = open(os.path.join(DATA, "example.sidd.xml")).read()
FIELDS = ["DESVER", "DECLAS", "DESCLSY", "DESCODE", "DESCTLH", "DESREL", "DESDCTP", "DESDCDT", "DESDCXM", "DESDG", "DESDGDT", "DESCLTX", "DESCATP", "DESCAUT", "DESCRSN", "DESSRDT", "DESCTLN", "DESSHL"]
SHF = [("DESCRC", 5), ("DESSHFT", 8), ("DESSHDT", 20), ("DESSHRP", 40), ("DESSHSI", 60), ("DESSHSV", 10), ("DESSHSD", 20), ("DESSHTN", 120), ("DESSHLPG", 125), ("DESSHLPT", 25),
       ("DESSHLI", 20), ("DESSHLIN", 120), ("DESSHABS", 200)]


def header(r, kind):
    f = lambda s, n: s[:n].ljust(n)
    cl = r.random() < 0.5
    h = "01" + ("U" if not cl else str(r.choice(list("UCR")))) + f("US" if cl else "", 2) + f("XYZ" if cl else "", 11) + f("HH" if cl else "", 2)
    h += f("REL TO USA" if cl else "", 20) + f("DD" if cl else "", 2) + f("20300102" if cl else "", 8) + f("X1" if cl else "", 4) + f("D" if cl else "", 1) + f("20310203" if cl else "", 8)
    h += f("SOME TEXT" if cl else "", 43) + f("O" if cl else "", 1) + f("AUTHORITY" if cl else "", 40) + f("A" if cl else "", 1) + f("20200304" if cl else "", 8) + f("CTL7" if cl else "", 15)
    shf = ""
    if r.random() < 0.75:
        v = {"DESCRC": "99999", "DESSHFT": "XML", "DESSHDT": "2020-01-01T00:00:00Z", "DESSHRP": "SOME BODY", "DESSHSI": kind.upper() + " Volume 1 Design", "DESSHSV": "1.2",
             "DESSHSD": "2018-12-13T00:00:00Z", "DESSHTN": "urn:X:" + kind, "DESSHLPG": "+12.0-013.0", "DESSHLPT": "", "DESSHLI": "", "DESSHLIN": "", "DESSHABS": "abstract" if r.random() < 0.5 else ""}
        shf = "".join(f(v[n], k) for n, k in SHF)
    return h + "%04d" % len(shf) + shf


def norm(text):
    t = (text or "").strip()
    try:
        return float(t)
    except ValueError:
        mt = re.fullmatch(r"(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(?:\.(\d+))?(Z|\+00:00)?", t)
        if mt:
            return ("time", mt.group(1), float("0." + (mt.group(2) or "0")))
        return {"true": True, "false": False}.get(t, t)


def flatten(e, path=""):
    p = path + "/" + e.tag
    out = [(p, tuple(sorted((k, norm(v)) for k, v in e.attrib.items() if not k.endswith("schemaLocation"))), norm(e.text) if len(e) == 0 else None)]
    for c in e:
        if isinstance(c.tag, str):
            out += flatten(c, p)
    return out


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return all(same(x, y) for x, y in zip(a, b))
    return a == b


def document_diff(src, got, ignore):
    A = [x for x in flatten(ET.fromstring(src)) if not ignore.search(x[0])]
    B = [x for x in flatten(ET.fromstring(got)) if not ignore.search(x[0])]
    for x, y in zip(A, B):
        if not same(x, y):
            return f"{x} became {y}"
    if len(A) != len(B):
        return f"{len(A)} elements became {len(B)}: {[x[0] for x in A if x[0] not in {y[0] for y in B}][:2]} {[y[0] for y in B if y[0] not in {x[0] for x in A}][:2]}"
    return None


IGN = {"sicd": re.compile(r"\}ImageData/\{[^}]*\}(NumRows|NumCols|FirstRow|FirstCol)$"), "sidd": re.compile(r"\}DownstreamReprocessing")}


def product(m, r, kind):
    """xml, raster width, height, bands, type"""
    w, h = int(r.integers(24, 140)), int(r.integers(24, 140))
    if kind == "sicd":
        if r.random() < 0.25:
            name = str(r.choice(["example.sicd121.capella.xml", "example.sicd121.pfa.xml", "example.sicd121.rma.xml"]))
            xml = open(os.path.join(DATA, name)).read()
            fr, fc = int(r.integers(0, 500)), int(r.integers(0, 500))
            for tag, v in (("FirstRow", fr), ("FirstCol", fc)):
                xml = re.sub(rf"(<ImageData>.*?<{tag}>)\d+(</{tag}>)", rf"\g<1>{v}\g<2>", xml, count=1, flags=re.S)
            for tag, v in (("NumRows", h), ("NumCols", w)):
                xml = re.sub(rf"(<ImageData>.*?<{tag}>)\d+(</{tag}>)", rf"\g<1>{v}\g<2>", xml, count=1, flags=re.S)
            m.event("source-is-chip")
            return name, xml, w, h, 2, gdal.GDT_Float32
        p = sar.random_sicd(r, kind=str(r.choice(["PLANE", "XRGYCR", "XCTYAT", "PFA", "RGAZCOMP", "RGZERO"])), version=str(r.choice(["1.2.1", "1.3.0"])), chip=False)
        p["num_rows"], p["num_cols"] = h, w
        p["first_row"] = int(np.clip(p["scp_row"] - r.integers(-40, 120), 0, p["full_rows"] - h)) if r.random() < 0.7 else 0
        p["first_col"] = int(np.clip(p["scp_col"] - r.integers(-40, 120), 0, p["full_cols"] - w)) if r.random() < 0.7 else 0
        if p["first_row"] or p["first_col"]:
            m.event("source-is-chip")
        if r.random() < 0.5:
            return p["kind"], sar.sicd_xml(p), w, h, 2, gdal.GDT_Float32
        return p["kind"], sar.sicd_xml(p, "RE16I_IM16I"), w, h, 2, gdal.GDT_Int16
    p = sar.random_sidd(r, version=str(r.choice(["2.0.0", "3.0.0"])))
    chip = None
    if r.random() < 0.5:
        m.event("source-is-chip")
        s = float(r.choice([1.0, 1.0, 2.0, 0.5]))
        r0, c0 = p["scp_row"] - float(r.integers(0, 100)), p["scp_col"] - float(r.integers(0, 100))
        r1, c1 = r0 + s * (h - 1), c0 + s * (w - 1)
        chip = dict(size=(h, w), ul=(r0, c0), ur=(r0, c1), ll=(r1, c0), lr=(r1, c1))
    else:
        p["num_rows"], p["num_cols"] = h, w
        p["scp_row"], p["scp_col"] = float(h // 2), float(w // 2)
    return "chip" if chip else "full", sar.sidd_xml(p, TEMPLATE, chip), w, h, int(r.choice([1, 3])), gdal.GDT_Byte


def write_nitf(path, arr, t, des):
    b, h, w = arr.shape
    ds = gdal.GetDriverByName("NITF").Create(path, w, h, b, t, options=[f"DES=XML_DATA_CONTENT={x}" for x in des])
    for i in range(b):
        ds.GetRasterBand(i + 1).WriteArray(arr[i])
    ds.FlushCache()
    ds = None


def corner(win, size, tx, ty):
    """source pixel behind a tile pixel"""
    if size is None or tuple(size) == (win[2], win[3]):
        return win[0] + tx, win[1] + ty
    return win[0] + tx * (win[2] - 1) / max(size[0] - 1, 1), win[1] + ty * (win[3] - 1) / max(size[1] - 1, 1)


def sliver(r, win):
    """the window cut down to a single column, row or pixel"""
    win = list(win)
    a = int(r.integers(1, 4))
    if a & 1:
        win[2] = 1
    if a & 2:
        win[3] = 1
    return win


def judge(m, r, kind, tile_path, tile_xml_src, src_model, to_src, tw, th, tol, origin=None):
    tds, tmodel = load_gdal_dataset(tile_path)
    m.require(tmodel is not None, "no-camera", "no camera can be built from the tile")
    pts = [(0.0, 0.0), (tw - 1.0, 0.0), (tw - 1.0, th - 1.0), (0.0, th - 1.0)] + [(float(r.uniform(0, tw - 1)), float(r.uniform(0, th - 1))) for _ in range(2)]
    for x, y in pts:
        sx, sy = to_src(x, y)
        a = i2w(m, tmodel, x, y).coordinate
        b = i2w(m, src_model, sx, sy).coordinate
        m.event("camera")
        m.close([metres(a, b), a[2] - b[2]], [0.0, 0.0], tol, "camera", pixel=[x, y])
    return tds, tmodel


def fields(ds):
    acc = NITFDESAccessor(ds.GetMetadata("xml:DES"))
    out = []
    for seg in acc.get_segments_by_name("XML_DATA_CONTENT"):
        f = {e.get("name"): e.get("value") for e in seg.findall("./field")}
        u = {e.get("name"): e.get("value") for e in seg.findall("./field/user_defined_fields/field")}
        out.append(({k: f.get(k) for k in FIELDS + ["DESSHF"]}, u, NITFDESAccessor.extract_desdata_xml(seg)))
    return out


def quadrilateral(m, r):
    """Chips of a chip whose corners are no parallelogram in the original image: the standard's bilinear relation gives their corners."""
    p = sar.random_sidd(r, version=str(r.choice(["2.0.0", "3.0.0"])))
    nr, nc = int(r.integers(20, 600)), int(r.integers(20, 600))
    o = r.uniform(0, 300, 2)
    q = {"ul": o, "ur": o + [0, nc - 1], "ll": o + [nr - 1, 0], "lr": o + [nr - 1, nc - 1]}
    q = {k: (v + r.uniform(-0.1, 0.1, 2) * min(nr, nc)) for k, v in q.items()}
    u = SIDDUpdater(sar.sidd_xml(p, TEMPLATE, dict(size=(nr, nc), **{k: v.tolist() for k, v in q.items()})))
    for _ in range(2):
        x, y = int(r.integers(0, nc - 4)), int(r.integers(0, nr - 4))
        win = [x, y, int(r.integers(2, nc - x + 1)), int(r.integers(2, nr - y + 1))]
        out = None if r.random() < 0.5 else (int(r.integers(2, 300)), int(r.integers(2, 300)))
        with m.case({"call": "quadrilateral", "corners": {k: v.tolist() for k, v in q.items()}, "size": [nr, nc], "window": win, "output": out}, "quad", nr, nc, tuple(win), out):
            m.event("quadrilateral")
            u.update_image_data_for_chip(win, out)
            e = ET.fromstring(u.encode_current_xml())
            g = [n for n in e.iter() if n.tag.endswith("}GeometricChip")]
            m.require(len(g) == 1, "chip-element", f"{len(g)} chip elements")
            val = lambda *path: float(_find(g[0], path).text)
            m.check((val("ChipSize", "Row"), val("ChipSize", "Col")) == (float((out or win[2:])[1]), float((out or win[2:])[0])), "chip-size")
            for tag, (cx, cy) in {"UpperLeft": (win[0], win[1]), "UpperRight": (win[0] + win[2] - 1, win[1]), "LowerLeft": (win[0], win[1] + win[3] - 1), "LowerRight": (win[0] + win[2] - 1, win[1] + win[3] - 1)}.items():
                a, b = cy / (nr - 1), cx / (nc - 1)
                want = (1 - a) * (1 - b) * q["ul"] + (1 - a) * b * q["ur"] + a * (1 - b) * q["ll"] + a * b * q["lr"]
                m.close([val(f"Original{tag}Coordinate", "Row"), val(f"Original{tag}Coordinate", "Col")], want, 1e-6, "chip-corner", corner=tag)


def _find(e, path):
    for name in path:
        e = next(c for c in e if c.tag.rsplit("}", 1)[-1] == name)
    return e


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for k in range(m.n(10, 60)):
        kind = ["sicd", "sidd"][(k + shard) % 2]
        name, xml, w, h, nb, t = product(m, r, kind)
        arr = tiles.pixels(r, t, w, h, nb)
        path = os.path.join(d, f"src{k}.ntf")
        prolog = '<?xml version="1.0" encoding="UTF-8"?>' if r.random() < 0.5 and not xml.startswith("<?xml") else ""
        des = [header(r, kind) + prolog + xml]
        if kind == "sidd" and r.random() < 0.4:
            des.append(header(r, "sicd") + sar.sicd_xml(sar.random_sicd(r)))
        if r.random() < 0.25:
            # something else, or nothing at all, in an XML segment in front
            m.event("other-segment-first")
            des.insert(0, header(r, kind) + ("" if r.random() < 0.5 else "<Note><Text>made from SICD and SIDD data</Text></Note>"))
        write_nitf(path, arr, t, des)
        desc = {"product": kind, "kind": name, "size": [w, h], "segments": len(des)}
        ok = False
        with m.case(desc, "factory", kind, xml[:400]):
            ds, model = load_gdal_dataset(path)
            m.require(model is not None, "no-source-camera")
            srcf = [f for f in fields(ds) if f[2] and "urn:SI" in f[2]][0]
            fac = GDALTileFactory(ds, model, tile_format=F.NITF, tile_compression=C.NONE)
            ok = True
        if not ok:
            continue
        gsd = None
        prev = None
        for j in range(m.n(5, 8)):
            x, y = int(r.integers(0, w - 4)), int(r.integers(0, h - 4))
            win = [x, y, int(r.integers(3, w - x + 1)), int(r.integers(3, h - y + 1))]
            if prev is not None and r.random() < 0.2:
                win = list(prev[0])
            size = None
            thin = min(win[2:]) == 1
            if r.random() < 0.15:
                thin = True
            if thin:
                m.event("single-line")
                win = sliver(r, win)
            elif kind == "sidd" and r.random() < 0.35:
                size = (int(r.integers(2, 2 * win[2])), int(r.integers(2, 2 * win[3])))
            if kind == "sicd" and r.random() < 0.15:
                size = (win[2], win[3])
            with m.case({**desc, "window": win, "output": size, "tile": j}, kind, xml[:600], tuple(win), size, j):
                data = fac.create_encoded_tile(win, output_size=size)
                m.require(data is not None, "no-tile")
                m.event("tile:" + kind)
                if size is not None and kind == "sidd":
                    m.event("resized")
                tp = os.path.join(d, "t.ntf")
                with open(tp, "wb") as fh:
                    fh.write(bytes(data))
                tw, th = size or (win[2], win[3])
                tds, tmodel = judge(m, r, kind, tp, xml, model, lambda a, b: corner(win, size, a, b), tw, th, 0.02)
                if size is None:
                    got = tds.ReadAsArray().reshape(nb, th, tw)
                    m.check(np.array_equal(got, arr[:, win[1]:win[1] + th, win[0]:win[0] + tw]), "pixels", "tile pixels differ from the source window")
                fl = fields(tds)
                m.event("document")
                m.require(len(fl) >= 1, "segment-lost", "the tile carries no XML data segment")
                m.check(len(fl) == 1, "segment-repeated", f"{len(fl)} XML data segments in the tile")
                diff = document_diff(xml, fl[0][2], IGN[kind])
                m.check(diff is None, "document-changed", str(diff))
                m.event("header")
                m.check(fl[0][0] == srcf[0], "header-changed", f"{[(n, srcf[0][n], fl[0][0][n]) for n in srcf[0] if srcf[0][n] != fl[0][0][n]][:3]}")
                m.check(fl[0][1] == srcf[1], "header-subfields", f"{[(n, srcf[1].get(n), fl[0][1].get(n)) for n in srcf[1] if srcf[1].get(n) != fl[0][1].get(n)][:3]}")
                if kind == "sicd":
                    e = ET.fromstring(fl[0][2])
                    ns = e.tag[: e.tag.index("}") + 1]
                    s = ET.fromstring(xml).find(ns + "ImageData")
                    g = e.find(ns + "ImageData")
                    v = {q: int(g.find(ns + q).text) for q in ("NumRows", "NumCols", "FirstRow", "FirstCol")}
                    want = {"NumRows": win[3], "NumCols": win[2], "FirstRow": int(s.find(ns + "FirstRow").text) + win[1], "FirstCol": int(s.find(ns + "FirstCol").text) + win[0]}
                    m.check(v == want, "chip-fields", f"{v} instead of {want}")
                # cut a tile from the tile
                if j % 2 == 0 and (thin or (tw > 8 and th > 8)):
                    m.event("second-generation")
                    f2 = GDALTileFactory(tds, tmodel, tile_format=F.NITF, tile_compression=C.NONE)
                    x2, y2 = int(r.integers(0, max(tw - 4, 1))), int(r.integers(0, max(th - 4, 1)))
                    win2 = [x2, y2, int(r.integers(min(3, tw), tw - x2 + 1)), int(r.integers(min(3, th), th - y2 + 1))]
                    size2 = None
                    if r.random() < (0.4 if size is not None else 0.15):
                        win2 = sliver(r, win2)
                    elif kind == "sidd" and not thin and r.random() < 0.3:
                        size2 = (2 * win2[2], win2[3] + 1)
                    data2 = f2.create_encoded_tile(win2, output_size=size2)
                    m.require(data2 is not None, "no-tile")
                    tp2 = os.path.join(d, "t2.ntf")
                    with open(tp2, "wb") as fh:
                        fh.write(bytes(data2))
                    tw2, th2 = size2 or (win2[2], win2[3])
                    judge(m, r, kind, tp2, xml, model, lambda a, b: corner(win, size, *corner(win2, size2, a, b)), tw2, th2, 0.05)
                tds = None
                prev = (win, size)
        if kind == "sicd" and k % 4 < 2:
            with m.case({**desc, "call": "resize"}, "scaling", k):
                m.event("scaling-refused")
                wn, out = [([1, 1, 8, 8], (4, 4)), ([1, 1, 8, 8], (8, 4)), ([1, 1, 8, 8], (16, 8)), ([1, 1, 8, 8], (8, 9)), ([1, 1, 8, 12], (12, 8)), ([2, 1, 12, 6], (9, 8))][int(r.integers(6))]
                m.raises(lambda: fac.create_encoded_tile(wn, output_size=out), ValueError, "sicd-scaling", "a scaled SICD tile was produced although the metadata cannot describe it")
        if kind == "sidd" and r.random() < 0.8:
            quadrilateral(m, r)
        # the updater on its own: the last call decides, whatever came before
        with m.case({**desc, "call": "updater"}, "updater", xml[:600]):
            U = SICDUpdater if kind == "sicd" else SIDDUpdater
            u = U(xml)
            wins = []
            for _ in range(3):
                x, y = int(r.integers(0, w - 4)), int(r.integers(0, h - 4))
                wins.append([x, y, int(r.integers(3, w - x + 1)), int(r.integers(3, h - y + 1))])
            for q in wins:
                keep = list(q)
                u.update_image_data_for_chip(q, None)
                m.check(q == keep, "window-mutated")
                m.event("updater")
                f = U(xml)
                f.update_image_data_for_chip(q, None)
                a, b = u.encode_current_xml(), f.encode_current_xml()
                m.check(a == b, "updater-history", "metadata for a chip depends on the chips described before")
        ds = None
