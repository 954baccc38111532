"""P14 damaged metadata: one source is made unusable; the build must behave exactly as if that source were absent."""

import copy
import math
import os
import re
from xml.etree import ElementTree as ET
from xml.sax.saxutils import quoteattr

import numpy as np
from osgeo import gdal, osr

from aws.osml.gdal import SensorModelFactory, load_gdal_dataset
from props import p19
from props.p13 import build_case, expected, judge
from vlib import bundle
from vlib.sm import i2w, w2i

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
DEFAULT_CONFIG = True
SHARDS = {"quick": 64, "thorough": 128}
MIN = {"damage:rpc": 60, "damage:rsm": 60, "damage:cscrna": 40, "damage:sicd": 40, "damage:sidd": 40, "damage:affine": 20, "damage:gcp": 20, "damage:ichipb": 30,
       "damage:des": 20, "fallback": 100, "nothing": 20, "gcp-crs": 40, "after-damage": 4}
RULE = "distinct (kind of damage, field or element damaged, sources left intact)"
ASSUME = ["damage that makes a source detectably unusable: fields missing, blank, not numbers or not finite, scale factors of zero, groups incomplete or repeated, tie points all at one place or not finite, documents truncated",
          "a value that is still a plausible number cannot be told from the intended one; tie points that are distinct but on one line are not generated"]
BAD = ["", " ", "ABC", "--", "1.2.3", "N/A", "+", "0x1G", "NaN", "-nan", "inf", "-Infinity"]
LOCAL = 'LOCAL_CS["unnamed",UNIT["metre",1],AXIS["Easting",EAST],AXIS["Northing",NORTH]]'
SCALE = re.compile(r"^(\w+_SCALE|\w+NRMSF|[RC]SSIZ)$")
RSM_OPTIONAL = re.compile(r"^(IID|GRP[XYZ]|FULL[RC]|TNIS|.*TRMS)$")
RPC_OPTIONAL = re.compile(r"^ERR_")


def damage_tre(m, r, tre, optional, repeated):
    """Damage one record in place; returns a description."""
    fields = [f for f in tre.findall("./field") if not optional.match(f.get("name"))]
    reps = tre.findall("./repeated") if repeated else []
    kind = str(r.choice(["drop", "garble", "no-value"] + (["rep-drop", "rep-index", "rep-empty", "rep-garble", "rep-no-number", "rep-no-index", "rep-missing", "rep-twice", "rep-short"] if reps else [])))
    scales = [f for f in fields if SCALE.match(f.get("name"))]
    if scales and r.random() < 0.1:
        f = scales[int(r.integers(0, len(scales)))]
        f.set("value", str(r.choice(["0", "0.0", "+0.000000E+00", "-0"])))
        return "zero-scale", f.get("name")
    if kind in ("drop", "garble", "no-value"):
        f = fields[int(r.integers(0, len(fields)))]
        if kind == "drop":
            tre.remove(f)
        elif kind == "garble":
            f.set("value", str(r.choice(BAD)))
        else:
            del f.attrib["value"]
        return kind, f.get("name")
    rep = reps[int(r.integers(0, len(reps)))]
    g = rep[int(r.integers(0, len(rep)))]
    if kind == "rep-drop":
        tre.remove(rep)
    elif kind == "rep-index":
        g.set("index", str(r.choice(["x", "", str(len(rep) + int(r.integers(0, 5)))])))
    elif kind == "rep-empty":
        for c in list(g):
            g.remove(c)
    elif kind == "rep-garble":
        g[0].set("value", str(r.choice(BAD)))
    elif kind == "rep-missing":
        rep.remove(g)
    elif kind == "rep-twice":
        g.set("index", str((int(g.get("index")) + 1) % len(rep)) if len(rep) > 1 else "1")
    elif kind == "rep-short":
        last = next(c for c in rep if int(c.get("index")) == len(rep) - 1)
        rep.remove(last)
        rep.set("number", str(len(rep)))
    elif kind == "rep-no-number":
        del rep.attrib["number"]
    else:
        del g.attrib["index"]
    return kind, rep.get("name")


SICD_REQUIRED = ["GeoData", "GeoData/SCP", "GeoData/SCP/ECF", "GeoData/SCP/ECF/X", "ImageData/SCPPixel", "ImageData/SCPPixel/Row", "Grid", "Grid/TimeCOAPoly",
                 "Grid/Row/UVectECF", "Grid/Row/SS", "Grid/Col/UVectECF/Z", "Position", "Position/ARPPoly", "Position/ARPPoly/X", "SCPCOA/SideOfTrack",
                 "Grid/Type", "ImageData/FirstRow"]
SICD_NUMBER = ["GeoData/SCP/ECF/X", "GeoData/SCP/ECF/Z", "Grid/Row/SS", "Grid/Col/SS", "ImageData/SCPPixel/Row", "Grid/Row/UVectECF/Y", "ImageData/FirstCol", "Grid/TimeCOAPoly/Coef", "Position/ARPPoly/Y/Coef"]
SIDD_REQUIRED = ["Measurement", "Measurement/PlaneProjection", "Measurement/PlaneProjection/ReferencePoint", "Measurement/PlaneProjection/ReferencePoint/ECEF",
                 "Measurement/PlaneProjection/SampleSpacing", "Measurement/PlaneProjection/SampleSpacing/Row", "Measurement/PlaneProjection/TimeCOAPoly",
                 "Measurement/PlaneProjection/ProductPlane", "Measurement/PlaneProjection/ProductPlane/RowUnitVector", "Measurement/ARPPoly", "Measurement/ARPPoly/Y",
                 "Measurement/PlaneProjection/ReferencePoint/Point"]
SIDD_NUMBER = ["Measurement/PlaneProjection/ReferencePoint/ECEF/X", "Measurement/PlaneProjection/SampleSpacing/Row", "Measurement/PlaneProjection/ProductPlane/ColUnitVector/Z",
               "Measurement/PlaneProjection/ReferencePoint/Point/Row", "Measurement/ARPPoly/Z/Coef", "Measurement/PlaneProjection/TimeCOAPoly/Coef"]


def damage_doc(r, xml, which):
    kind = str(r.choice(["truncate", "drop", "number", "unknown-version", "noise", "exponent"] + (["algorithm"] if "<Type>RGAZIM" in xml else []) + (["grid-type"] if which == "sicd" else [])
                        + (["az-sf"] if "<AzSF>" in xml and "RGAZCOMP<" in xml else []) + (["r-ca"] if "<R_CA_SCP>" in xml and "<Type>RGZERO" in xml else [])))
    if kind == "grid-type":
        return re.sub("(<Grid>.*?<Type>)[A-Z]*<", r"\g<1>" + str(r.choice(["OTHER", "", "XRGZERO"])) + "<", xml, count=1, flags=re.S), (kind, "")
    if kind in ("az-sf", "r-ca"):
        tag = {"az-sf": "AzSF", "r-ca": "R_CA_SCP"}[kind]
        return re.sub(f"<{tag}>[^<]*</{tag}>", str(r.choice(["", f"<{tag}>NaN</{tag}>", f"<{tag}>ABC</{tag}>", f"<{tag}/>"])), xml), (kind, tag)
    if kind == "algorithm":  # a grid that needs polar format or range-azimuth parameters, formed by something else
        return re.sub("<ImageFormAlgo>[A-Z]*<", "<ImageFormAlgo>OTHER<", xml), (kind, "OTHER")
    if kind == "exponent":  # a term the polynomial does not have
        k = list(re.finditer(r' (exponent[12])="(\d+)"', xml))
        k = k[int(r.integers(len(k)))]
        v = str(r.choice(["9", "40", "-1", "-2", "x", "1.5"]))
        return xml[:k.start()] + f' {k.group(1)}="{v}"' + xml[k.end():], (kind, v)
    if kind == "truncate":
        return xml[: int(len(xml) * r.uniform(0.2, 0.95))], (kind, "")
    if kind == "unknown-version":
        return re.sub(r"urn:(SICD|SIDD):[0-9.]+", r"urn:\1:9.9.9", xml), (kind, "")
    if kind == "noise":
        k = int(len(xml) * r.uniform(0.3, 0.9))
        return xml[:k] + "<&" + xml[k:], (kind, "")
    root = ET.fromstring(xml)
    path = str(r.choice({"drop": SICD_REQUIRED, "number": SICD_NUMBER}[kind] if which == "sicd" else {"drop": SIDD_REQUIRED, "number": SIDD_NUMBER}[kind]))
    node, parent = root, None
    for part in path.split("/"):
        parent = node
        node = next(c for c in node if c.tag.split("}")[-1] == part)
    if kind == "drop":
        parent.remove(node)
    else:
        node.text = str(r.choice(["ABC", "1.2.3", "12 m", "NaN", "INF"]))
    return ET.tostring(root, encoding="unicode"), (kind, path)


def unusable_gcps(m, r, d, k):
    """Tie points given in a coordinate system that leads nowhere, alone or next to a camera that does not need them."""
    w, h = int(r.integers(40, 120)), int(r.integers(40, 120))
    how = str(r.choice(["local", "out-of-domain"]))
    wkt = osr.SpatialReference()
    wkt.SetFromUserInput("EPSG:32631")
    wkt = LOCAL if how == "local" else wkt.ExportToWkt()
    far = 1.0 if how == "local" else 1e12
    gcps = [gdal.GCP(far * (500000 + 10 * x), far * (4000000 - 10 * y), 0.0, float(x), float(y)) for x, y in ((0, 0), (w, 0), (w, h), (0, h), (w / 2, h / 3))]
    p = os.path.join(d, f"g{k}.tif")
    alone = None
    if r.random() < 0.5:  # with a camera in the file
        p, w, h, *_ = p19.rpc_source(r, d, f"g{k}", False)
        alone = load_gdal_dataset(p)[1]
        with open(p + ".aux.xml", "w") as fh:
            points = "".join(f'<GCP Id="{i}" Pixel="{g.GCPPixel}" Line="{g.GCPLine}" X="{g.GCPX}" Y="{g.GCPY}" Z="0"/>' for i, g in enumerate(gcps))
            fh.write(f"<PAMDataset><GCPList Projection={quoteattr(wkt)}>{points}</GCPList></PAMDataset>")
    else:
        ds = gdal.GetDriverByName("GTiff").Create(p, w, h, 1, gdal.GDT_Byte)
        ds.SetGCPs(gcps, wkt)
        ds = None
    with m.case({"tie points": how, "camera": alone is not None}, "gcp-crs", how, alone is not None, w, h):
        ds, model = load_gdal_dataset(p)
        if ds.GetGCPCount() == 5 and ds.GetGCPProjection():
            m.event("gcp-crs")
        if alone is None:
            m.check(model is None, "wrong-camera", f"a {type(model).__name__} from tie points that are nowhere on Earth")
        else:
            m.require(model is not None, "no-model", "unusable tie points cost the image its camera")
            for _ in range(3):
                x, y = float(r.uniform(0, w)), float(r.uniform(0, h))
                m.close(i2w(m, model, x, y).coordinate[:2], i2w(m, alone, x, y).coordinate[:2], 1e-12, "fallback", pixel=[x, y])


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for k in range(m.n(3, 12)):
        unusable_gcps(m, r, d, k)
    for i in range(m.n(44, 360)):
        target = ["rpc", "rsm", "cscrna", "sicd", "sidd", "ichipb", "affine", "rpc", "rsm", "des", "gcp"][i % 11]
        pool = ["affine", "gcp", "cscrna", "rpc", "rsm", "sicd"]
        intact = [k for k in pool if k != target and r.random() < [0.35, 0.3, 0.35, 0.3, 0.25, 0.15][pool.index(k)]]
        if target in ("sidd", "sicd", "des") and "sicd" in intact:
            intact.remove("sicd")  # a broken product document followed by another is decided separately
        if target == "ichipb" and not ({"rpc", "rsm", "cscrna"} & set(intact)):
            intact.append("rpc")
        if target == "ichipb" and "sicd" in intact:
            intact.remove("sicd")
        srcs, win, app, approx, pixel, ground, chip, w, h = build_case(m, r, intact, None)
        if chip and target in ("sicd", "sidd"):
            pass
        if target == "ichipb" and chip is None:
            chip = bundle.Chip((100, 200), (1, 1), w, h, w + 500, h + 500)
        root = ET.Element("tres")
        if "rpc" in intact:
            bundle.rpc.tre_xml(srcs["rpc"].p, root)
        if "rsm" in intact:
            bundle.rsm.tre_xml(srcs["rsm"].p, m.rnd, root)
        if "cscrna" in intact:
            approx["cscrna"].cscrna(root, *((chip.fw, chip.fh) if chip else (w, h)))
        if chip:
            chip.xml(root)
        kw, dess = {}, []
        if "affine" in intact:
            kw["geo_transform"] = approx["affine"].geotransform()
        if "gcp" in intact:
            kw["ground_control_points"] = approx["gcp"].gcps(r, w, h, int(r.integers(4, 8)))
        if "sicd" in intact:
            dess.append(srcs["sicd"].xml)
        what = None
        if target == "rpc":
            sub = ET.Element("tres")
            bundle.rpc.tre_xml(bundle.rpc.random_rpc(r), sub)
            what = damage_tre(m, r, sub[0], RPC_OPTIONAL, True)
            root.extend(list(sub))
        elif target == "rsm":
            sub = ET.Element("tres")
            bundle.rsm.tre_xml(bundle.rsm.random_rsm(r, sections=[(1, 1), (2, 1), (2, 2)][int(r.integers(0, 3))]), m.rnd, sub)
            names = [t.get("name") for t in sub]
            k = int(r.integers(0, len(names)))
            if r.random() < 0.3 and len(names) > 3:  # a section without its polynomials, or sections without an index
                gone = [j for j, n in enumerate(names) if n in ("RSMPCA", "RSMPIA")]
                k = gone[int(r.integers(0, len(gone)))]
                what = ("record-missing", names[k])
                sub.remove(sub[k])
                if what[1] == "RSMPCA" and sum(1 for t in sub if t.get("name") == "RSMPCA") == 1:
                    # a single remaining section looks like an unsectioned camera: ambiguous, drop it too
                    for t in [t for t in sub if t.get("name") == "RSMPCA"]:
                        sub.remove(t)
            else:
                what = damage_tre(m, r, sub[k], RSM_OPTIONAL, names[k] == "RSMPCA")
            root.extend(list(sub))
        elif target == "cscrna":
            sub = ET.Element("tres")
            bundle.Approx(r, "cscrna", ground, *pixel, 1.0).cscrna(sub, w, h)
            if r.random() < 0.25:  # corners that are all the same
                for f in sub[0]:
                    if re.search("CNR_(LAT|LONG)$", f.get("name")):
                        f.set("value", next(x for x in sub[0] if x.get("name").endswith(f.get("name")[2:])).get("value"))
                what = ("same-corners", "")
            else:
                what = damage_tre(m, r, sub[0], re.compile("^PREDICT"), False)
            root.extend(list(sub))
        elif target == "ichipb":
            tre = root.find("./tre[@name='ICHIPB']")
            if r.random() < 0.25:
                for f in tre:  # a record that says it carries no corner data
                    f.set("value", "01" if f.get("name") == "XFRM_FLAG" else "0")
                what = ("no-chip-data", "XFRM_FLAG")
            elif r.random() < 0.2:  # corners that are all the same
                which = str(r.choice(["OP", "FI"]))
                for f in tre:
                    if re.match(which + "_(ROW|COL)_", f.get("name")):
                        f.set("value", "0.5")
                what = ("same-corners", which)
            else:
                what = damage_tre(m, r, tre, re.compile("^(XFRM_FLAG|SCALE_FACTOR)$"), False)
        elif target == "affine":
            gt = [float(v) for v in r.uniform(-50, 50, 6)]
            wkt = None
            d = str(r.choice(["singular", "zeros", "bad-wkt", "local-crs", "not-finite"]))
            if d == "singular":
                gt[1], gt[4] = (0.0, 0.0) if r.random() < 0.5 else (gt[1], 0.0)
                gt[5] = gt[5] if gt[1] == 0.0 else 0.0
            elif d == "zeros":
                gt = [0.0] * 6
            elif d == "not-finite":
                gt[int(r.integers(0, 6))] = float(r.choice([math.nan, math.inf, -math.inf]))
            elif d == "bad-wkt":
                wkt = str(r.choice(["GARBAGE", "GEOGCS[", "EPSG:999999"]))
            else:
                wkt = 'LOCAL_CS["unnamed",UNIT["metre",1],AXIS["Easting",EAST],AXIS["Northing",NORTH]]'
            what = (d, "")
            kw["geo_transform"], kw["proj_wkt"] = gt, wkt
        elif target == "gcp":
            pts = bundle.Approx(r, "gcp", ground, *pixel, 1.0).gcps(r, w, h, int(r.integers(4, 8)))
            d = str(r.choice(["same-place", "same-pixel", "not-finite", "few"]))
            if d == "few":
                pts = pts[:int(r.integers(0, 4))]
            elif d == "not-finite":
                g = pts[int(r.integers(0, len(pts)))]
                setattr(g, str(r.choice(["GCPX", "GCPY", "GCPPixel", "GCPLine"])), float(r.choice([math.nan, math.inf])))
            else:
                for g in pts[1:]:
                    for a in ("GCPX", "GCPY") if d == "same-place" else ("GCPPixel", "GCPLine"):
                        setattr(g, a, getattr(pts[0], a))
            what = (d, "")
            kw["ground_control_points"] = pts
        style = "base64"
        if target in ("sicd", "sidd"):
            doc, what = damage_doc(r, bundle.precise(r, target).xml, target)
            dess.append(doc)
            if r.random() < 0.3:  # a sound document behind the damaged one
                extra = bundle.precise(r, "sicd")
                if not chip:
                    intact, srcs["sicd"], win, ground, pixel = intact + ["sicd"], extra, extra, extra.ground, extra.pixel
                    dess.append(extra.xml)
                    app2 = expected(intact, None)[1]
                    for k in approx:  # keep the approximate sources near the winner
                        approx[k] = bundle.Approx(r, k, ground, *pixel, max(extra.gsd, 0.05))
                    big = (int(max(w, abs(pixel[0]) * 1.2 + 10)), int(max(h, abs(pixel[1]) * 1.2 + 10)))
                    w, h = big
                    old = root.find("./tre[@name='CSCRNA']")
                    if old is not None:
                        root.remove(old)
                        approx["cscrna"].cscrna(root, w, h)
                    if "affine" in intact:
                        kw["geo_transform"] = approx["affine"].geotransform()
                    if "gcp" in intact:
                        kw["ground_control_points"] = approx["gcp"].gcps(r, w, h, 5)
                    app = app2
                    m.event("after-damage")
        des = bundle.des_list(dess) if dess else None
        if target == "des":
            bad = str(r.choice(["not-utf8", "not-base64", "no-data", "empty", "not-xml"]))
            what = (bad, "")
            import base64
            val = {"not-utf8": base64.b64encode("<SICD xmlns='urn:SICD:1.2.1'>é</SICD>".encode("latin-1")).decode(), "not-base64": "A", "no-data": None, "empty": "",
                   "not-xml": base64.b64encode(b"urn:SICD: urn:SIDD: plain text").decode()}[bad]
            des = ['<des_list><des name="XML_DATA_CONTENT"><field name="DESVER" value="01" />' + (f'<field name="DESDATA" value="{val}" />' if val is not None else "") + "</des></des_list>"]
        if len(root) or r.random() < 0.5:
            kw["xml_tres"] = root
        with m.case({"damaged": target, "how": what, "intact": intact, "chip": chip is not None}, target, what, tuple(intact)):
            m.event("damage:" + target)
            model = SensorModelFactory(w, h, xml_dess=des, **kw).build()
            if target == "ichipb":
                # which pixels the chip covers is unknown: a camera is still wanted and it must answer
                m.require(model is not None, "no-model", "an unusable chip record cost the image its camera")
                if what[0] == "no-chip-data":
                    w2i(m, model, *ground)
                continue
            if win is not None or app is not None:
                m.event("fallback")
            judge(m, model, win, app, approx, pixel, ground, chip)
