"""Independent RPC00B evaluation and generators (STDI-0002 Vol 1 App E)."""

import math
from xml.etree import ElementTree as ET

import numpy as np

# exponents of (L, P, H) for the 20 RPC00B terms
TERMS = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (2, 0, 0), (0, 2, 0), (0, 0, 2),
         (1, 1, 1), (3, 0, 0), (1, 2, 0), (1, 0, 2), (2, 1, 0), (0, 3, 0), (0, 1, 2), (2, 0, 1), (0, 2, 1), (0, 0, 3)]


def poly(c, l, p, h):
    return math.fsum(k * l ** a * p ** b * h ** d for k, (a, b, d) in zip(c, TERMS))


def project(p, lon, lat, z):
    l, q, h = ((lon - p["long_off"] + 180.0) % 360.0 - 180.0) / p["long_scale"], (lat - p["lat_off"]) / p["lat_scale"], (z - p["height_off"]) / p["height_scale"]
    s = poly(p["samp_num"], l, q, h) / poly(p["samp_den"], l, q, h)
    n = poly(p["line_num"], l, q, h) / poly(p["line_den"], l, q, h)
    return s * p["samp_scale"] + p["samp_off"], n * p["line_scale"] + p["line_off"]


def random_rpc(r, lat_limit=78.0):
    npx = int(10 ** r.uniform(3, 4.6))
    npy = int(npx * 2 ** r.uniform(-1.6, 1.6))  # real frames and strips: aspect ratio up to 3
    gsd = 10 ** r.uniform(-0.5, 1.2)
    lat = float(np.round(r.uniform(-lat_limit, lat_limit), 4))
    lon = float(np.round(r.uniform(-179, 179), 4)) if r.random() < 0.85 else float(np.round(r.choice([180.0, -180.0]) + r.uniform(-0.3, 0.3), 4))
    lon = lon if -180 <= lon <= 180 else lon - math.copysign(360, lon)
    lat_scale = max(0.002, gsd * npy / 2 / 111320.0)
    long_scale = max(0.002, gsd * npx / 2 / 111320.0 / math.cos(math.radians(lat)))
    big = max(1.0, lat_scale / 0.4, long_scale / 0.4)
    lat_scale, long_scale = lat_scale / big, long_scale / big
    small = 10 ** r.uniform(-6, -2.3)

    def num(lead):
        c = r.uniform(-small, small, 20)
        c[0] = r.uniform(-0.02, 0.02)
        c[1], c[2], c[3] = lead
        return [float(v) for v in c]

    def den():
        c = r.uniform(-small, small, 20)
        c[0] = 1.0
        return [float(v) for v in c]

    t = r.uniform(-0.4, 0.4)
    ct, st = math.cos(t), math.sin(t)
    hl, hs = r.uniform(-0.15, 0.15), r.uniform(-0.15, 0.15)
    return {
        "err_bias": 1.5, "err_rand": 0.5, "line_off": float(npy // 2), "samp_off": float(npx // 2), "lat_off": lat, "long_off": lon,
        "height_off": float(int(r.uniform(-50, 3000))), "line_scale": float(npy // 2), "samp_scale": float(npx // 2),
        "lat_scale": lat_scale, "long_scale": long_scale, "height_scale": float(int(r.uniform(50, 600))),
        "line_num": num((st, -ct, hl)), "line_den": den(), "samp_num": num((ct, st, hs)), "samp_den": den(), "size": (npx, npy),
    }


def build(p):
    from aws.osml.photogrammetry import RPCPolynomial, RPCSensorModel

    return RPCSensorModel(
        err_bias=p["err_bias"], err_rand=p["err_rand"], line_off=p["line_off"], samp_off=p["samp_off"], lat_off=p["lat_off"],
        long_off=p["long_off"], height_off=p["height_off"], line_scale=p["line_scale"], samp_scale=p["samp_scale"],
        lat_scale=p["lat_scale"], long_scale=p["long_scale"], height_scale=p["height_scale"],
        line_num_poly=RPCPolynomial(list(p["line_num"])), line_den_poly=RPCPolynomial(list(p["line_den"])),
        samp_num_poly=RPCPolynomial(list(p["samp_num"])), samp_den_poly=RPCPolynomial(list(p["samp_den"])),
    )


def tre_xml(p, root=None, success="1", rnd=None):
    """GDAL's xml:TRE shape for RPC00B."""
    root = root if root is not None else ET.Element("tres")
    tre = ET.SubElement(root, "tre", name="RPC00B", location="image")

    def f(name, v):
        ET.SubElement(tre, "field", name=name, value=v if isinstance(v, str) else repr(float(v)))

    f("SUCCESS", success)
    for k in ("ERR_BIAS", "ERR_RAND", "LINE_OFF", "SAMP_OFF", "LAT_OFF", "LONG_OFF", "HEIGHT_OFF", "LINE_SCALE", "SAMP_SCALE",
              "LAT_SCALE", "LONG_SCALE", "HEIGHT_SCALE"):
        f(k, p[k.lower()])
    for name, key in (("LINE_NUM_COEFF", "line_num"), ("LINE_DEN_COEFF", "line_den"), ("SAMP_NUM_COEFF", "samp_num"), ("SAMP_DEN_COEFF", "samp_den")):
        rep = ET.SubElement(tre, "repeated", name=name, number="20")
        idx = list(range(20))
        if rnd is not None:
            rnd.shuffle(idx)
        for i in idx:
            g = ET.SubElement(rep, "group", index=str(i))
            ET.SubElement(g, "field", name=name, value=repr(float(p[key][i])))
    return root


def build_from_xml(p, rnd=None):
    from aws.osml.gdal.rpc_sensor_model_builder import RPCSensorModelBuilder

    return RPCSensorModelBuilder(tre_xml(p, rnd=rnd)).build()
