"""Image metadata bundles whose sources each describe a different place, so that an answer identifies the source behind it."""

import base64
import math
import os
from xml.etree import ElementTree as ET

import numpy as np
from osgeo import gdal

from . import rpc, rsm, sar
from .core import DATA
from .sm import PlaneElevation

TEMPLATE = open(os.path.join(DATA, "example.sidd.xml")).read()
R = 6371000.0
OFFSETS = {"affine": (310.0, 20.0), "gcp": (-40.0, 290.0), "cscrna": (-270.0, -110.0)}


class Recorder(PlaneElevation):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.asked = []

    def set_elevation(self, g):
        self.asked.append((float(g.longitude), float(g.latitude)))
        super().set_elevation(g)


def metres(a, b):
    dlon = (a[0] - b[0] + math.pi) % (2 * math.pi) - math.pi
    return math.hypot(dlon * math.cos((a[1] + b[1]) / 2), a[1] - b[1]) * R


class Precise:
    """kind, ground = (lon, lat, h) in radians/metres, pixel = (x, y) in full image coordinates."""


def q8(v, digits):
    return float(f"{v:.{digits}f}")


def quantize_rpc(p):
    """Values exactly representable in the fixed width RPC00B fields."""
    p = dict(p)
    for k in ("lat_off", "lat_scale", "long_off", "long_scale"):
        p[k] = q8(p[k], 4)
    for k in ("line_off", "samp_off", "line_scale", "samp_scale", "height_off", "height_scale"):
        p[k] = float(round(p[k]))
    for k in ("line_num", "line_den", "samp_num", "samp_den"):
        p[k] = [float(coef(v)) for v in p[k]]
    return p


def coef(v):
    """+0.123456E-3 (12 characters)"""
    if v == 0 or abs(v) < 1e-9:
        return "+0.000000E+0"
    e = math.floor(math.log10(abs(v))) + 1
    mant = round(abs(v) / 10.0 ** e, 6)
    if mant >= 1.0:
        mant, e = 0.1, e + 1
    return f"{'-' if v < 0 else '+'}{mant:.6f}E{e:+d}"


def rpc_tre_text(p, success="1"):
    s = success + "0001.50" + "0000.50"
    s += f"{int(p['line_off']):06d}{int(p['samp_off']):05d}{p['lat_off']:+08.4f}{p['long_off']:+09.4f}{int(p['height_off']):+05d}"
    s += f"{int(p['line_scale']):06d}{int(p['samp_scale']):05d}{p['lat_scale']:+08.4f}{p['long_scale']:+09.4f}{int(p['height_scale']):+05d}"
    for k in ("line_num", "line_den", "samp_num", "samp_den"):
        s += "".join(coef(v) for v in p[k])
    assert len(s) == 1041, len(s)
    return s


def precise(r, kind, quantize=False, version=None):
    s = Precise()
    s.kind = kind
    if kind == "rpc":
        s.p = rpc.random_rpc(r)
        if quantize:
            while s.p["samp_off"] > 90000 or s.p["lat_scale"] < 0.004:
                s.p = rpc.random_rpc(r)
            s.p = quantize_rpc(s.p)
        lon, lat = s.p["long_off"] + r.uniform(-0.3, 0.3) * s.p["long_scale"], s.p["lat_off"] + r.uniform(-0.3, 0.3) * s.p["lat_scale"]
        h = s.p["height_off"]
        s.ground = (math.radians(lon), math.radians(lat), h)
        s.pixel = rpc.project(s.p, lon, lat, h)
        s.project = lambda lo, la, z: rpc.project(s.p, math.degrees(lo), math.degrees(la), z)
        s.gsd = s.p["lat_scale"] * 111320.0 / s.p["line_scale"]
    elif kind == "rsm":
        s.p = rsm.random_rsm(r, quad=0.0, form=str(r.choice(["G", "H", "R"])), sections=(1, 1) if r.random() < 0.6 else (2, 1))
        s.p.has_grp = True
        lon, lat = s.p.lonlat(*r.uniform(-0.3, 0.3, 2))
        if s.p.nr > 1 and s.p.near_boundary(*s.p.low(lon, lat, s.p.h0), eps=60):
            return precise(r, kind, quantize, version)
        s.ground = (lon, lat, s.p.h0)
        s.pixel = s.p.project(*s.ground)
        s.project = s.p.project
        s.gsd = s.p.gsd
    else:
        if kind == "sicd":
            s.p = sar.random_sicd(r, kind=str(r.choice(["PLANE", "XRGYCR", "XCTYAT", "PFA", "RGAZCOMP"])), version=version or str(r.choice(["1.2.1", "1.3.0"])))
            if r.random() < 0.3:  # free text naming the other product family
                s.p["core_name"] = str(r.choice(["SIDD_SOURCE_01", "NOT-A-SIDD", "SICD"]))
            s.xml = sar.sicd_xml(s.p)
            s.pixel = (s.p["scp_col"] - s.p["first_col"], s.p["scp_row"] - s.p["first_row"])
        else:
            s.p = sar.random_sidd(r, version=version or str(r.choice(["2.0.0", "3.0.0"])))
            s.xml = sar.sidd_xml(s.p, TEMPLATE)
            s.pixel = (s.p["scp_col"], s.p["scp_row"])
        s.ground = sar.geodetic(np.asarray(s.p["scp"], float))
        s.project = None
        s.gsd = s.p["row_ss"]
    return s


def des_list(xmls, style="base64", extra=False):
    """GDAL's xml:DES metadata for a list of XML documents; style 'base64' (GDAL < 3.9) or 'inline' (newer)."""
    out = "<des_list>"
    if extra:
        out += '<des name="TRE_OVERFLOW"><field name="DESVER" value="01" /><field name="DESDATA" value="AAAA" /></des>'
    for x in xmls:
        out += '<des name="XML_DATA_CONTENT"><field name="DESVER" value="01" /><field name="DECLAS" value="U" />'
        if style == "base64":
            out += f'<field name="DESDATA" value="{base64.b64encode(x.encode()).decode()}" />'
        else:
            out += f'<field name="DESDATA"><xml_content><?xml version="1.0"?>{x}</xml_content></field>'
        out += "</des>"
    return [out + "</des_list>"]


class Approx:
    """Local affine map through (tx, ty) -> ground + offset, the same for every kind of approximate source."""

    def __init__(self, r, kind, ground, tx, ty, gsd):
        self.kind = kind
        de, dn = OFFSETS[kind]
        self.lon0 = ground[0] + de / R / math.cos(ground[1])
        self.lat0 = ground[1] + dn / R
        self.t = (tx, ty)
        self.g = gsd
        self.cl = math.cos(ground[1])

    def world(self, x, y):
        return self.lon0 + self.g * (x - self.t[0]) / R / self.cl, self.lat0 - self.g * (y - self.t[1]) / R

    def geotransform(self):
        lon, lat = self.world(0.0, 0.0)
        return [math.degrees(lon), math.degrees(self.g / R / self.cl), 0.0, math.degrees(lat), 0.0, -math.degrees(self.g / R)]

    def gcps(self, r, w, h, n=4):
        px = [(0, 0), (w, 0), (w, h), (0, h)] + [(float(r.uniform(0, w)), float(r.uniform(0, h))) for _ in range(max(0, n - 4))]
        out = []
        for x, y in px[:n]:
            lo, la = self.world(x, y)
            out.append(gdal.GCP(math.degrees(lo), math.degrees(la), 0.0, float(x), float(y)))
        return out

    def cscrna(self, root, w, h):
        tre = ET.SubElement(root, "tre", name="CSCRNA", location="image")
        ET.SubElement(tre, "field", name="PREDICT_CORNERS", value="Y")
        for nm, p in zip(["UL", "UR", "LR", "LL"], [(0, 0), (w, 0), (w, h), (0, h)]):
            lo, la = self.world(*p)
            for f, v in (("LAT", math.degrees(la)), ("LONG", math.degrees(lo)), ("HT", 10.0)):
                ET.SubElement(tre, "field", name=f"{nm}CNR_{f}", value=repr(float(v)))

    def cscrna_text(self, w, h):
        s = "Y"
        for p in [(0, 0), (w, 0), (w, h), (0, h)]:
            lo, la = self.world(*p)
            s += f"{math.degrees(la):+09.5f}{math.degrees(lo):+010.5f}{10.0:+08.1f}"
        return s


class Chip:
    """chip = (full - o) / s"""

    def __init__(self, o, s, w, h, fw, fh):
        self.o, self.s, self.w, self.h, self.fw, self.fh = np.asarray(o, float), np.asarray(s, float), w, h, fw, fh

    def to_chip(self, x, y):
        return tuple((np.array([x, y]) - self.o) / self.s)

    def to_full(self, x, y):
        return tuple(np.array([x, y]) * self.s + self.o)

    def points(self):
        op = {"11": (0.5, 0.5), "12": (self.w - 0.5, 0.5), "21": (0.5, self.h - 0.5), "22": (self.w - 0.5, self.h - 0.5)}
        return {k: (p, self.to_full(*p)) for k, p in op.items()}

    def xml(self, root):
        tre = ET.SubElement(root, "tre", name="ICHIPB", location="image")

        def f(n, v):
            ET.SubElement(tre, "field", name=n, value=v)

        f("XFRM_FLAG", "00")
        f("SCALE_FACTOR", "0001.00000")
        for pre, which in (("OP", 0), ("FI", 1)):
            for k, v in self.points().items():
                f(f"{pre}_ROW_{k}", repr(float(v[which][1])))
                f(f"{pre}_COL_{k}", repr(float(v[which][0])))
        f("FI_ROW", f"{self.fh:08d}")
        f("FI_COL", f"{self.fw:08d}")

    @staticmethod
    def unused_xml(root, r):
        """A chipping record whose flag says that it carries no coordinates: zeros, or leftovers, in every field."""
        tre = ET.SubElement(root, "tre", name="ICHIPB", location="image")
        names = [f"{p}_{d}_{k}" for p in ("OP", "FI") for k in ("11", "12", "21", "22") for d in ("ROW", "COL")]
        zero = r.random() < 0.5
        ET.SubElement(tre, "field", name="XFRM_FLAG", value="01")
        for n in names:
            ET.SubElement(tre, "field", name=n, value="0" if zero else repr(float(np.round(r.uniform(0, 900), 3))))
        for n in ("FI_ROW", "FI_COL"):
            ET.SubElement(tre, "field", name=n, value="00000000" if zero else f"{int(r.integers(10, 90000)):08d}")

    def text(self):
        s = "00" + "0001.00000" + "00" + "01"
        for which in (0, 1):
            for k in ("11", "12", "21", "22"):
                x, y = self.points()[k][which]
                s += f"{y:012.3f}{x:012.3f}"
        s += f"{self.fh:08d}{self.fw:08d}"
        assert len(s) == 224, len(s)
        return s
