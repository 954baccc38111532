"""P13 sensor model selection: every metadata source describes a different place, so each answer identifies the source behind it."""

import math
import os
from xml.etree import ElementTree as ET

import numpy as np
from osgeo import gdal, osr

from aws.osml.gdal import SensorModelFactory, SensorModelTypes, load_gdal_dataset
from vlib import bundle
from vlib.bundle import Approx, Chip, Recorder, metres
from vlib.sm import i2w, w2i

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
DEFAULT_CONFIG = True
SHARDS = {"quick": 64, "thorough": 128}
MIN = {"image_to_world": 300, "composite": 60, "winner:rpc": 20, "winner:rsm": 20, "winner:sicd": 20, "winner:sidd": 20, "winner:none": 20,
       "approx:affine": 20, "approx:gcp": 20, "approx:cscrna": 20, "chip": 30, "selected": 50, "file": 40, "nothing": 8, "unreadable": 8, "unused-chip-record": 30}
RULE = "distinct combinations of (metadata sources present, model types selected, chip or full image, direct or from file)"
ASSUME = ["sources that are well formed (damaged ones are P14)", "the approximate source is within a few hundred metres of the precise one"]
PREF = ["rsm", "rpc"]
TYPE = {"affine": SensorModelTypes.AFFINE, "gcp": SensorModelTypes.PROJECTIVE, "cscrna": SensorModelTypes.PROJECTIVE, "rpc": SensorModelTypes.RPC,
        "rsm": SensorModelTypes.RSM, "sicd": SensorModelTypes.SICD, "sidd": SensorModelTypes.SICD}


def expected(present, selected):
    ok = [k for k in present if selected is None or TYPE[k] in selected]
    win = next((k for k in ("sidd", "sicd", "rsm", "rpc") if k in ok), None)
    app = next((k for k in ("cscrna", "gcp", "affine") if k in ok), None)
    return win, app


def judge(m, model, win, app, approx, pixel, ground, chip, coarse=False):
    """pixel: raster pixel of the winner's anchor (or any pixel when there is no precise source)."""
    m.event("winner:" + (win.kind if win else "none"))
    if app:
        m.event("approx:" + app)
    if win is None and app is None:
        m.event("nothing")
        m.check(model is None, "model-from-nothing", f"no usable source, but got {type(model).__name__}")
        return
    m.require(model is not None, "no-model", f"no sensor model although {win.kind if win else app} metadata is present")
    want_app = None
    if app:
        a = approx[app]
        full = chip.to_full(*pixel) if chip and app == "cscrna" else pixel
        want_app = a.world(*full)
    if win is None:
        g = i2w(m, model, *pixel)
        d = metres((g.longitude, g.latitude), want_app)
        others = {k: round(metres((g.longitude, g.latitude), v.world(*(chip.to_full(*pixel) if chip and k == "cscrna" else pixel)))) for k, v in approx.items()}
        m.check(d < 5.0, "wrong-approximate-source", f"answer is {d:.1f} m from the {app} location", distances=others)
        c = w2i(m, model, *want_app, 0.0)
        m.close(c.coordinate, pixel, 5.0 / a.g + 0.5, "approximate-pixel")
        return
    c = w2i(m, model, *ground)
    m.close(c.coordinate, pixel, 1.0, "wrong-precise-source/projection", winner=win.kind, approximate=app)
    em = Recorder(ground[2], ground[0], ground[1], lo=ground[2] - 5, hi=ground[2] + 5)
    g = i2w(m, model, *pixel, em)
    d = metres((g.longitude, g.latitude), ground)
    m.check(d < 5.0 + 2.0 * win.gsd, "wrong-precise-source/location", f"answer is {d:.1f} m from the {win.kind} location")
    if app and not coarse:
        m.event("composite")
        m.require(len(em.asked) > 0, "terrain-ignored", "the elevation model was never consulted")
        d = metres(em.asked[0], want_app)
        m.check(d < 5.0, "wrong-approximate-source/composite", f"the search starts {d:.1f} m from the {app} location (first terrain query)")


def build_case(m, r, present, selected, files=False):
    winkind, app = expected(present, selected)
    srcs = {k: bundle.precise(r, k, quantize=files) for k in present if k in ("rpc", "rsm", "sicd", "sidd")}
    win = srcs.get(winkind)
    chip = None
    w, h = int(r.integers(40, 3000)), int(r.integers(40, 3000))
    if files:
        w, h = int(r.integers(20, 120)), int(r.integers(20, 120))
    if win:
        ground, pixel = win.ground, win.pixel
        gsd = max(win.gsd, 0.05)
        if not files:  # the raster covers the pixel that is asked about
            w, h = int(max(w, abs(pixel[0]) * 1.2 + 10)), int(max(h, abs(pixel[1]) * 1.2 + 10))
    else:
        ground, pixel = (math.radians(r.uniform(-170, 170)), math.radians(r.uniform(-70, 70)), 0.0), (float(r.uniform(0, w)), float(r.uniform(0, h)))
        gsd = 10 ** r.uniform(-0.5, 1)
    if winkind not in ("sicd", "sidd") and r.random() < 0.45 and ("rpc" in present or "rsm" in present or "cscrna" in present) and "sicd" not in present and "sidd" not in present:
        s = np.array([1.0, 1.0]) if r.random() < 0.5 else r.uniform(0.5, 4, 2)
        if files:
            s = np.round(s, 2)
        t = r.uniform(0.2, 0.8, 2) * [w, h]
        o = np.asarray(pixel) - s * t if win else r.uniform(0, 500, 2)
        if files:
            o = np.round(np.abs(o) if not win else o)
        chip = Chip(o, s, w, h, int(max(w * s[0] + abs(o[0]) + 10, 100)), int(max(h * s[1] + abs(o[1]) + 10, 100)))
        if files and np.any(o < 1):
            chip = None
        m.event("chip", int(chip is not None))
        if chip and win:
            pixel = chip.to_chip(*pixel)
    approx = {}
    for k in ("affine", "gcp", "cscrna"):
        if k in present:
            t = chip.to_full(*pixel) if chip and k == "cscrna" else pixel
            approx[k] = Approx(r, k, ground, *t, gsd)
    return srcs, win, app, approx, pixel, ground, chip, w, h


def direct(m, r, i):
    pool = ["affine", "gcp", "cscrna", "rpc", "rsm", "sicd", "sidd"]
    present = [k for k in pool if r.random() < [0.5, 0.35, 0.4, 0.35, 0.3, 0.2, 0.2][pool.index(k)]]
    selected = None
    if r.random() < 0.4 and "sidd" not in present:  # no selector names SIDD products, so a selection does not concern them
        selected = [t for t in SensorModelTypes if r.random() < 0.55]
        r.shuffle(selected)
        m.event("selected")
    srcs, win, app, approx, pixel, ground, chip, w, h = build_case(m, r, present, selected)
    few_gcps = "gcp" not in present and r.random() < 0.3
    bad_rpc = "rpc" not in present and r.random() < 0.3
    style = str(r.choice(["base64", "inline"]))
    with m.case({"present": present, "selected": selected and [t.value for t in selected], "chip": chip is not None, "few gcps": few_gcps, "failed rpc": bad_rpc,
                 "des": style}, tuple(present), tuple(sorted(t.value for t in selected)) if selected is not None else None, chip is not None):
        kw = {}
        if "affine" in present:
            kw["geo_transform"] = approx["affine"].geotransform()
            if r.random() < 0.5:
                sr = osr.SpatialReference()
                sr.ImportFromEPSG(4326)
                kw["proj_wkt"] = sr.ExportToWkt()
        if "gcp" in present:
            kw["ground_control_points"] = approx["gcp"].gcps(r, w, h, int(r.integers(4, 8)))
        elif few_gcps:
            kw["ground_control_points"] = Approx(r, "gcp", ground, *pixel, 1.0).gcps(r, w, h, int(r.integers(0, 4)))
        root = ET.Element("tres")
        steps = []
        if "rpc" in present:
            steps.append(lambda: bundle.rpc.tre_xml(srcs["rpc"].p, root, rnd=m.rnd))
        elif bad_rpc:
            steps.append(lambda: bundle.rpc.tre_xml(bundle.rpc.random_rpc(r), root, success="0"))
        if "rsm" in present:
            steps.append(lambda: bundle.rsm.tre_xml(srcs["rsm"].p, m.rnd, root))
        if "cscrna" in present:
            fw, fh = (chip.fw, chip.fh) if chip else (w, h)
            steps.append(lambda: approx["cscrna"].cscrna(root, fw, fh))
        if chip:
            steps.append(lambda: chip.xml(root))
        elif steps and r.random() < 0.35:
            steps.append(lambda: Chip.unused_xml(root, r))
            m.event("unused-chip-record")
        m.rnd.shuffle(steps)
        for s in steps:
            s()
        if steps or r.random() < 0.2:
            kw["xml_tres"] = root
        dess = [srcs[k].xml for k in ("sidd", "sicd") if k in present]
        if "sidd" in present and "sicd" not in present and r.random() < 0.3:
            dess.append(bundle.precise(r, "sicd").xml)  # the phase history a derived product was made from
        if dess and r.random() < 0.3:
            dess.insert(0, "<Note><Text>%s</Text></Note>" % r.choice(["derived from SICD", "see SIDD volume 1", "none"]))
            m.event("unrelated-xml")
        if dess or r.random() < 0.2:
            kw["xml_dess"] = bundle.des_list(dess, style, extra=r.random() < 0.3)
        before = ET.tostring(root)
        kept = {k: repr(v) for k, v in kw.items() if k in ("geo_transform", "xml_dess", "proj_wkt")}
        model = SensorModelFactory(w, h, selected_sensor_model_types=list(selected) if selected is not None else None, **kw).build()
        m.check(ET.tostring(root) == before and all(repr(kw[k]) == v for k, v in kept.items()), "input-metadata-mutated", "building changed the metadata it was given")
        judge(m, model, win, app, approx, pixel, ground, chip)


def from_file(m, r, i, d):
    flavour = ["tif-affine", "tif-gcp", "png", "ntf-rpc", "ntf-corners", "ntf-sicd", "ntf-sidd", "tif-both"][i % 8]
    present = {"tif-affine": ["affine"], "tif-gcp": ["gcp"], "png": [], "ntf-rpc": ["rpc"] + (["cscrna"] if r.random() < 0.6 else []), "ntf-corners": ["cscrna"],
               "ntf-sicd": ["sicd"], "ntf-sidd": ["sidd"] + (["sicd"] if r.random() < 0.4 else []), "tif-both": ["affine"]}[flavour]
    srcs, win, app, approx, pixel, ground, chip, w, h = build_case(m, r, present, None, files=True)
    path = os.path.join(d, f"f{i}." + {"t": "tif", "p": "png", "n": "ntf"}[flavour[0]])
    with m.case({"file": flavour, "present": present, "chip": chip is not None, "size": [w, h]}, flavour, tuple(present), chip is not None, w, h):
        m.event("file")
        opts = []
        if "rpc" in present:
            opts.append("TRE=RPC00B=" + bundle.rpc_tre_text(srcs["rpc"].p))
        if "cscrna" in present:
            if chip is None:
                approx["cscrna"].g = max(approx["cscrna"].g, 2.0)
            opts.append("TRE=CSCRNA=" + approx["cscrna"].cscrna_text(*((chip.fw, chip.fh) if chip else (w, h))))
        if chip:
            opts.append("TRE=ICHIPB=" + chip.text())
        if flavour == "png":
            src = gdal.GetDriverByName("MEM").Create("", w, h, 1, gdal.GDT_Byte)
            ds = gdal.GetDriverByName("PNG").CreateCopy(path, src)
        elif flavour.startswith("tif"):
            ds = gdal.GetDriverByName("GTiff").Create(path, w, h, 1, gdal.GDT_Byte)
            sr = osr.SpatialReference()
            sr.ImportFromEPSG(4326)
            if "affine" in present:
                ds.SetGeoTransform(approx["affine"].geotransform())
                ds.SetProjection(sr.ExportToWkt())
            else:
                ds.SetGCPs(approx["gcp"].gcps(r, w, h, int(r.integers(4, 8))), sr.ExportToWkt())
        else:
            for k in ("sidd", "sicd"):
                if k in present:
                    opts.append("DES=XML_DATA_CONTENT=" + des_text(srcs[k].xml))
            ds = gdal.GetDriverByName("NITF").Create(path, w, h, 1, gdal.GDT_Byte, options=opts)
        ds.FlushCache()
        ds = None
        ds, model = load_gdal_dataset(path)
        m.check(ds is not None and (ds.RasterXSize, ds.RasterYSize) == (w, h), "dataset", "wrong dataset returned")
        # corner fields have a resolution of a metre, so far outside the raster they say nothing useful
        judge(m, model, win, app, approx, pixel, ground, chip, coarse=win is not None and chip is None)
        ds = None
    bad = os.path.join(d, "bad%d.ntf" % i)
    with m.case({"file": "unreadable", "n": i}):
        m.event("unreadable")
        kind = i % 3
        if kind == 0:
            open(bad, "wb").write(bytes(r.integers(0, 256, int(r.integers(0, 400))).tolist()))
        elif kind == 1:
            open(bad, "wb").write(b"NITF02.10" + b" " * 20)
        m.raises(lambda: load_gdal_dataset(bad), ValueError, "unreadable-file", "an unreadable file was not reported as ValueError")


def des_text(xml):
    """User header of an XML_DATA_CONTENT segment followed by the document."""
    return "01U" + " " * 166 + "0000" + xml


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for i in range(m.n(22, 150)):
        direct(m, r, i)
    for i in range(m.n(8, 40)):
        from_file(m, r, i, d)
