"""P06 derived SAR products: the range / range-rate contour of the full-image pixel decides; chips are related to it by the
bilinear corner relation of the product standard."""

import math
import os

import numpy as np

from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from vlib import sar
from vlib.core import DATA
from vlib.sm import i2w, w2i
from props.p05 import judge_point, plane_basis

SHARDS = {"quick": 64, "thorough": 128}
MIN = {"image_to_world": 1500, "world_to_image": 1500, "side:L": 20, "side:R": 20, "chip": 40, "rotated-chip": 10, "scaled-chip": 10, "single-line-chip": 10, "version:3.0.0": 20}
RULE = "distinct products (platform geometry, product plane orientation, chip geometry, version) x pixels"
ASSUME = [
    "plane projection products with orthogonal product plane vectors, physically consistent platform geometry",
    "chip corners form a parallelogram in the original image (crop, scale, flip, rotation); the pixels of a single row or column are square and not mirrored",
]
TEMPLATE = open(os.path.join(DATA, "example.sidd.xml")).read()


def random_chip(r, rows, cols):
    """size (rows, cols) of the chip and the original (row, col) of its corner pixels"""
    nr, nc = int(r.integers(20, 1500)), int(r.integers(20, 1500))
    kind = str(r.choice(["crop", "scale", "rotate", "flip"]))
    if kind in ("crop", "rotate") and r.random() < 0.25:
        # a single row, column or (its orientation cannot be told) pixel
        nr, nc = [(1, nc), (nr, 1), (1, 1)][int(r.integers(3 if kind == "crop" else 2))]
    o = np.array([r.uniform(0, rows * 0.5), r.uniform(0, cols * 0.5)])
    if kind == "crop":
        o = np.floor(o)
    s = float(r.uniform(0.3, 4.0)) if kind != "crop" else 1.0
    a = r.uniform(0, 2 * math.pi) if kind == "rotate" else 0.0
    dr = s * np.array([math.cos(a), math.sin(a)])  # original step per chip row
    dc = s * np.array([-math.sin(a), math.cos(a)])
    if kind == "flip":
        if r.random() < 0.5:
            dr = -dr
        else:
            dc, dr = dr, dc
    if kind == "scale":
        dc = dc * float(r.uniform(0.5, 2))
    ul, ur = o, o + dc * (nc - 1)
    ll, lr = o + dr * (nr - 1), o + dr * (nr - 1) + dc * (nc - 1)
    return kind, dict(size=(nr, nc), ul=ul.tolist(), ur=ur.tolist(), ll=ll.tolist(), lr=lr.tolist()), (o, dr, dc)


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(12, 60)):
        p = sar.random_sidd(r, version=["2.0.0", "3.0.0"][i % 2])
        ref = sar.SarRef(p)
        kind, chip, (o, dr, dc) = ("none", None, (np.zeros(2), np.array([1.0, 0]), np.array([0, 1.0])))
        if i % 3:
            kind, chip, (o, dr, dc) = random_chip(r, p["num_rows"], p["num_cols"])
        with m.case({"side": p["side"], "at": ref.scp_lle, "chip": kind, "geometry": chip, "size": [p["num_rows"], p["num_cols"]],
                     "spacing": [p["row_ss"], p["col_ss"]]}, kind, p["side"], *np.round(ref.scp, 1)):
            m.event("side:" + p["side"])
            m.event("version:" + p["version"])
            if chip:
                m.event("chip")
                if 1 in chip["size"]:
                    m.event("single-line-chip")
                m.event({"rotate": "rotated-chip", "scale": "scaled-chip"}.get(kind, kind + "-chip"))
            model = SIDDSensorModelBuilder(sar.respell(r, sar.sidd_xml(p, TEMPLATE, chip)) if r.random() < 0.5 else sar.sidd_xml(p, TEMPLATE, chip)).build()
            m.require(model is not None, "no-model", "no camera for a complete product")
            nr, nc = chip["size"] if chip else (p["num_rows"], p["num_cols"])
            inv = np.linalg.inv(np.column_stack([dr, dc]))
            for k in range(m.n(14, 30)):
                row, col = float(r.uniform(-0.03, 1.03) * nr), float(r.uniform(-0.03, 1.03) * nc)
                if chip and k < 4:
                    row, col = float([0, 0, nr - 1, nr - 1][k]), float([0, nc - 1, 0, nc - 1][k])
                fr, fc = o + row * dr + col * dc
                g = i2w(m, model, col, row)
                pt = judge_point(m, ref, fc, fr, g)
                m.close(float((pt - ref.scp) @ ref.n), 0.0, 1e-3, "product-plane", pixel=[col, row])
                c = w2i(m, model, *g.coordinate)
                m.close(np.column_stack([dr, dc]) @ [c.y - row, c.x - col], [0, 0], [0.02 / p["row_ss"] + 1e-5, 0.02 / p["col_ss"] + 1e-5], "round-trip", pixel=[col, row])
                q = pt + sum(r.uniform(-30, 30) * b for b in plane_basis(ref.n))
                lon, lat, h = sar.geodetic(q)
                c = w2i(m, model, lon, lat, h)
                f = o + c.y * dr + c.x * dc
                d, dd = ref.residual(f[1], f[0], q)
                rr, _, _, av = ref.contour(f[1], f[0])
                m.close([d, dd * rr / np.linalg.norm(av)], [0, 0], 0.02, "projection", at=[lon, lat, h], answer=c.coordinate)
            if i % 6 == shard % 6:
                q = ref.scp + ref.n * float(r.choice([-100, 100, 300]))
                c = w2i(m, model, *sar.geodetic(q))
                f = o + c.y * dr + c.x * dc
                d, dd = ref.residual(f[1], f[0], q)
                m.check(abs(d) < 0.05, "offplane-height", "scene point above the product plane projected through the plane of the reference point")
