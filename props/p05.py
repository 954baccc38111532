"""P05 complex SAR products: every answer is judged by the range / range-rate contour of the pixel, evaluated independently
from the product metadata as in SICD Volume 3."""

import math
import os

import numpy as np

from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.photogrammetry import ImageCoordinate, WorldCoordinate
from aws.osml.photogrammetry.sicd_sensor_model import (
    GroundPlaneRRDotSurfaceProjection, HAERRDotSurfaceProjection, INCAProjectionSet, PFAProjectionSet, PlaneProjectionSet, Polynomial2D,
    PolynomialXYZ, RGAZCOMPProjectionSet, SARImageCoordConverter,
)
from vlib import sar
from vlib.core import DATA
from vlib.sm import i2w, w2i

SHARDS = {"quick": 64, "thorough": 128}
MIN = {"sparse-polynomials": 60, "image_to_world": 2000, "world_to_image": 2000, "side:L": 20, "side:R": 20, "chip": 20, "real-product": 3, "height-surface": 1000,
       "kind:PLANE": 8, "kind:XRGYCR": 8, "kind:XCTYAT": 8, "kind:PFA": 8, "kind:RGAZCOMP": 8, "kind:RGZERO": 8, "adjusted": 1000, "plane-parts": 2000}
RULE = "distinct products (grid type, image formation, platform geometry, chip window) x pixels"
ASSUME = [
    "physically consistent products: grazing angle 20-65 degrees, squint within 12 degrees, spaceborne and airborne",
    "without terrain the surface is the plane through the scene centre (polar format: the focus plane normal, otherwise the local vertical)",
]
KINDS = ["PLANE", "XRGYCR", "XCTYAT", "PFA", "RGAZCOMP", "RGZERO"]


def judge_point(m, ref, col, row, g, key="contour"):
    """Residual of a reported ground point with respect to the contour of the pixel, in metres."""
    pt = sar.ecef(g.longitude, g.latitude, g.elevation)
    dr, drd = ref.residual(col, row, pt)
    r, _, _, av = ref.contour(col, row)
    cross = drd * r / np.linalg.norm(av)  # range-rate error as metres along track
    m.close([dr, cross], [0, 0], 1e-3, key, pixel=[col, row], answer=g.coordinate)
    m.check(ref.side(col, row, pt) == ref.p["side"], "side-of-track", "answer lies on the wrong side of the flight path", pixel=[col, row])
    return pt


def exercise(m, ref, model, n):
    p, r = ref.p, m.rng
    g = i2w(m, model, p["scp_col"] - p["first_col"], p["scp_row"] - p["first_row"])
    if p["kind"] != "RGZERO" and "/" not in p["kind"]:
        m.close(sar.ecef(*g.coordinate), ref.scp, 1e-3, "scene-centre")
    for k in range(n):
        col = float(r.uniform(-0.05, 1.05) * p["num_cols"])
        row = float(r.uniform(-0.05, 1.05) * p["num_rows"])
        if k % 5 == 0:
            col, row = float(int(r.integers(0, p["num_cols"]))), float(int(r.integers(0, p["num_rows"])))
        g = i2w(m, model, col, row)
        pt = judge_point(m, ref, col, row, g)
        m.close(float((pt - ref.scp) @ ref.n), 0.0, 1e-3, "ground-plane", pixel=[col, row])
        # the other direction, for a point on the same surface that the toolkit has not just produced
        q = pt + sum(r.uniform(-30, 30) * b for b in plane_basis(ref.n))
        lon, lat, h = sar.geodetic(q)
        c = w2i(m, model, lon, lat, h)
        dr, drd = ref.residual(c.x, c.y, q)
        rr, _, _, av = ref.contour(c.x, c.y)
        m.close([dr, drd * rr / np.linalg.norm(av)], [0, 0], 0.02, "projection", at=[lon, lat, h], answer=c.coordinate)
        c = w2i(m, model, *g.coordinate)
        m.close(c.coordinate, [col, row], [0.02 / p["col_ss"] + 1e-6, 0.02 / p["row_ss"] + 1e-6], "round-trip", pixel=[col, row], kind=p["kind"])


def surfaces(m, ref, n):
    """The surface projections on their own: the contour of a pixel meets a surface of constant ellipsoidal height, or a ground plane
    through a given point (geodetic or geocentric normal), at a point that lies on both, on the imaged side."""
    p, r = ref.p, m.rng
    for _ in range(n):
        col, row = float(r.uniform(0, 1) * p["num_cols"]), float(r.uniform(0, 1) * p["num_rows"])
        rr, rd, ap, av = ref.contour(col, row)
        h = ref.scp_lle[2] + float(r.uniform(-500, 500))
        scp = WorldCoordinate(ref.scp)
        pt = np.asarray(HAERRDotSurfaceProjection(scp, p["side"], h).rrdot_to_ground(rr, rd, ap.copy(), av.copy())[0])
        m.event("height-surface")
        m.close(sar.geodetic(pt)[2], h, 1e-5, "height-surface", pixel=[col, row], hae=h)
        judge_residual(m, ref, col, row, pt, "height-contour", 1e-3)
        lon, lat, _ = ref.scp_lle
        at = ref.scp + r.uniform(-200, 200, 3)
        k = int(r.integers(3))
        T = GroundPlaneRRDotSurfaceProjection.GroundPlaneNormalType
        gpn, typ = [(None, T.GEODETIC_EARTH), (None, T.SPHERICAL_EARTH), (sar.up_vec(lon, lat) * float(r.uniform(0.5, 3)) + r.normal(0, 0.05, 3), T.GEODETIC_EARTH)][k]
        pt = np.asarray(GroundPlaneRRDotSurfaceProjection(WorldCoordinate(at), gpn, typ).rrdot_to_ground(rr, rd, ap.copy(), av.copy())[0])
        want = gpn if gpn is not None else at if k == 1 else sar.up_vec(*sar.geodetic(at)[:2])
        m.close(float((pt - at) @ want) / np.linalg.norm(want), 0.0, 1e-4, "plane-surface", pixel=[col, row], normal=k)
        judge_residual(m, ref, col, row, pt, "plane-contour", 1e-3)


def parts(m, ref):
    """The pieces of the pixel-to-scene chain called directly: image plane coordinates (axes need not be at right angles) and the
    contours of a collection with adjustable parameters (position, velocity and range corrections)."""
    p, r = ref.p, m.rng
    u = sar.unit(ref.urow)
    v = sar.unit(ref.ucol + float(r.uniform(-0.4, 0.4)) * u * (r.random() < 0.7))
    conv = SARImageCoordConverter(ImageCoordinate([p["scp_col"], p["scp_row"]]), WorldCoordinate(ref.scp), u, v, p["row_ss"], p["col_ss"])
    nrm = sar.unit(np.cross(u, v))
    for _ in range(6):
        rc = np.array([r.uniform(-200, 1.2 * p["num_rows"]), r.uniform(-200, 1.2 * p["num_cols"])])
        xy = np.asarray(conv.rowcol_to_xrowycol(rc.copy()))
        m.close(xy, [(rc[0] - p["scp_row"]) * p["row_ss"], (rc[1] - p["scp_col"]) * p["col_ss"]], 1e-6, "plane-metres", rowcol=rc)
        m.close(conv.xrowycol_to_rowcol(xy.copy()), rc, 1e-6, "plane-metres-inverse", rowcol=rc)
        ipp = np.asarray(conv.xrowycol_to_ipp(xy.copy()))
        m.close(ipp, ref.scp + xy[0] * u + xy[1] * v, 1e-6, "plane-point", rowcol=rc)
        off = float(r.uniform(-500, 500)) * (r.random() < 0.5)
        m.close(conv.ipp_to_xrowycol(ipp + off * nrm), xy, 1e-6 * max(1.0, p["row_ss"]), "plane-point-inverse", rowcol=rc, axes=float(u @ v))
        m.event("plane-parts")
    native = lambda c: np.polynomial.Polynomial(np.asarray(c, float))
    args = dict(coa_time_poly=Polynomial2D(np.asarray(p["tcoa"], float)), arp_poly=PolynomialXYZ(*[native(c) for c in p["arp"]]))
    scp = WorldCoordinate(ref.scp)
    da, dv, rb = r.normal(0, 50, 3), r.normal(0, 1, 3), float(r.normal(0, 100))
    k = int(r.integers(4))
    adj = [dict(delta_arp=da.copy(), delta_varp=dv.copy(), range_bias=rb), dict(delta_arp=da.copy()), dict(delta_varp=dv.copy()), dict(range_bias=rb)][k]

    def make(**kw):
        if p["grid"] == "RGZERO":
            return INCAProjectionSet(p["r_ca_scp"], native(p["tca"]), Polynomial2D(np.asarray(p["drsf"], float)), **args, **kw)
        if p["grid"] != "RGAZIM":
            return PlaneProjectionSet(scp, ref.urow.copy(), ref.ucol.copy(), **args, **kw)
        if p["algo"] == "PFA":
            return PFAProjectionSet(scp, native(p["polar"]), native(p["ksf"]), **args, **kw)
        return RGAZCOMPProjectionSet(scp, p["az_sf"], **args, **kw)

    both = [(make(**adj), adj), (make(), {})]
    for _ in range(4):
        xy = np.array(ref.xy(r.uniform(0, 1) * p["num_cols"], r.uniform(0, 1) * p["num_rows"]))
        rr, rd, ap, av = ref.contour_xy(*xy)
        for s, kw in both:
            got = s.precise_rrdot_computation(xy.copy())
            m.event("adjusted" if kw else "nominal")
            m.close([float(got[0]), float(got[1])], [rr + kw.get("range_bias", 0.0), rd], [1e-4, 1e-5], "adjusted-contour", kind=p["kind"], adjusted=sorted(kw))
            m.close(got[3], ap + kw.get("delta_arp", 0.0), 1e-4, "adjusted-position", kind=p["kind"], adjusted=sorted(kw))
            m.close(got[4], av + kw.get("delta_varp", 0.0), 1e-5, "adjusted-velocity", kind=p["kind"], adjusted=sorted(kw))


def judge_residual(m, ref, col, row, pt, key, tol):
    dr, drd = ref.residual(col, row, pt)
    r, _, _, av = ref.contour(col, row)
    m.close([dr, drd * r / np.linalg.norm(av)], [0, 0], tol, key, pixel=[col, row])
    m.check(ref.side(col, row, pt) == ref.p["side"], "side-of-track", "answer lies on the wrong side of the flight path", pixel=[col, row])


def plane_basis(n):
    a = np.cross(n, [0.0, 0.0, 1.0] if abs(n[2]) < 0.9 else [1.0, 0.0, 0.0])
    a = a / np.linalg.norm(a)
    return a, np.cross(n, a)


def run(m, tier, shard):
    r = m.rng
    if shard == 0:
        for f in ("example.sicd121.capella.xml", "example.sicd121.pfa.xml", "example.sicd121.rma.xml"):
            xml = open(os.path.join(DATA, f)).read()
            with m.case({"product": f}, f):
                m.event("real-product")
                model = SICDSensorModelBuilder(xml).build()
                m.require(model is not None, "no-model", "no camera for a complete product")
                exercise(m, sar.SarRef(sar.read_sicd(xml)), model, 12)
    for i in range(m.n(12, 60)):
        kind = KINDS[i % 6]
        p = sar.random_sicd(r, kind=kind, version="1.2.1" if r.random() < 0.5 else "1.3.0")
        gaps = kind != "RGZERO" and r.random() < 0.3  # (closest approach would no longer fit the flight path)
        if gaps:
            sar.sparse(r, p)
        ref = sar.SarRef(p)
        with m.case({"kind": kind, "side": p["side"], "at": ref.scp_lle, "first": [p["first_row"], p["first_col"]], "size": [p["num_rows"], p["num_cols"]],
                     "spacing": [p["row_ss"], p["col_ss"]], "tcoa": p["tcoa"]}, kind, p["side"], *np.round(ref.scp, 1)):
            m.event("kind:" + kind)
            m.event("side:" + p["side"])
            m.event("chip", int(p["first_row"] or p["first_col"]))
            model = SICDSensorModelBuilder(sar.respell(r, sar.sicd_xml(p)) if r.random() < 0.5 else sar.sicd_xml(p)).build()
            m.event("sparse-polynomials", int(gaps))
            m.require(model is not None, "no-model", "no camera for a complete product")
            exercise(m, ref, model, m.n(16, 30))
            surfaces(m, ref, 3)
            parts(m, ref)
            if i % 6 == shard % 6:
                # known finding: scene points off the default ground plane
                q = ref.scp + ref.n * float(r.choice([-100, 100, 300]))
                c = w2i(m, model, *sar.geodetic(q))
                dr, drd = ref.residual(c.x, c.y, q)
                rr, _, _, av = ref.contour(c.x, c.y)
                m.check(max(abs(dr), abs(drd * rr / np.linalg.norm(av))) < 0.05, "offplane-height", "scene point above the ground plane projected through the plane of the scene centre")
