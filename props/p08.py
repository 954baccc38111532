"""P08 terrain-aware geolocation: a reported location must lie on the terrain the caller supplied and on the line of sight
(or range / range-rate contour) of the pixel, both evaluated independently; for SAR contours that cross the terrain more than
once, the lowest crossing, found by walking the contour in the reference geometry, is the required answer."""

import math
import os

import numpy as np
from osgeo import gdal

from aws.osml.gdal.gdal_dem_tile_factory import GDALDigitalElevationModelTileFactory
from aws.osml.gdal.sicd_sensor_model_builder import SICDSensorModelBuilder
from aws.osml.gdal.sidd_sensor_model_builder import SIDDSensorModelBuilder
from aws.osml.photogrammetry import (
    ChippedImageSensorModel, CompositeSensorModel, ConstantElevationModel, DigitalElevationModel, ElevationModel, ElevationRegionSummary,
    GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel, SRTMTileSet,
)
from props.p09 import Tile
from vlib import rpc, rsm, sar
from vlib.core import DATA
from vlib.sm import PlaneElevation, i2w, wrap

SHARDS = {"quick": 64, "thorough": 128}
MIN = {"image_to_world": 1200, "terrain:constant": 40, "terrain:slope": 40, "terrain:hills": 15, "terrain:ridges": 15, "terrain:cells": 40, "terrain:none": 40, "terrain:tiles": 10,
       "camera:sar": 60, "camera:polynomial": 40, "several-crossings": 10}
RULE = "distinct (camera, terrain) pairs x pixels"
ASSUME = [
    "terrain whose regional summary brackets its heights; slopes below the point where the search resolution (10 m along the contour) could skip a crossing are not judged",
    "elevation tiles without voids",
]
TEMPLATE = open(os.path.join(DATA, "example.sidd.xml")).read()


class Nothing(ElevationModel):
    """An elevation model without data here."""

    def set_elevation(self, g):
        pass

    def describe_region(self, g):
        return None


class Cells(ElevationModel):
    """Terrain in square cells, each with its own level: the summary is that of the cell asked about, as with tiled elevation data."""

    def __init__(self, r, lon0, lat0, size_m, base):
        self.lon0, self.lat0 = lon0, lat0
        self.size = size_m
        self.base = base
        self.k = r.integers(1, 1000, 2)
        self.amp = float(r.uniform(20, 400))

    def cell(self, lon, lat):
        e = wrap(lon - self.lon0) * 6371000.0 * math.cos(self.lat0) / self.size
        n = (lat - self.lat0) * 6371000.0 / self.size
        return e, n

    def level(self, i, j):
        # smooth west-east ramp of cell levels, so that the surface stays continuous
        return self.base + self.amp * math.sin(0.9 * i + self.k[0])

    def height(self, lon, lat):
        e, n = self.cell(lon, lat)
        i = math.floor(e)
        f = e - i
        return self.level(i, 0) * (1 - f) + self.level(i + 1, 0) * f

    def set_elevation(self, g):
        g.elevation = self.height(g.longitude, g.latitude)

    def describe_region(self, g):
        e, n = self.cell(g.longitude, g.latitude)
        i = math.floor(e)
        v = [self.level(i, 0), self.level(i + 1, 0)]
        return ElevationRegionSummary(min_elevation=min(v) - 0.01, max_elevation=max(v) + 0.01, no_data_value=-32767, post_spacing=30.0)


def crossings(ref, col, row, height, lo, hi):
    """Heights along the contour of a pixel, walked every metre from below the lowest to above the highest terrain: list of
    (point, delta) where the contour meets the surface."""
    r, rd, ap, av = ref.contour(col, row)
    vm = np.linalg.norm(av)
    uv = av / vm
    cd = -rd / vm
    ctr = ap + r * cd * uv
    rad = r * math.sqrt(1 - cd * cd)
    upa = ap / np.linalg.norm(ap)
    left = np.cross(upa, uv)
    left = left / np.linalg.norm(left)
    down = np.cross(left, uv)
    s = 1.0 if ref.p["side"] == "L" else -1.0

    def point(a):
        return ctr + rad * (math.cos(a) * down + s * math.sin(a) * left)

    # bracket by bisection on ellipsoid height along the near-side arc (height grows with the angle)
    def at_height(h):
        a, b = 0.0, math.pi / 2 * 1.2
        for _ in range(60):
            c = (a + b) / 2
            if sar.geodetic(point(c))[2] < h:
                a = c
            else:
                b = c
        return (a + b) / 2

    a0, a1 = at_height(lo - 2), at_height(hi + 2)
    n = int(min(4000, max(8, (a1 - a0) * rad / 3.0)))
    out, prev, ds = [], None, []
    for k in range(n + 1):
        a = a0 + (a1 - a0) * k / n
        lon, lat, h = sar.geodetic(point(a))
        d = h - height(lon, lat)
        ds.append(d)
        if prev is not None and (prev[1] < 0) != (d < 0):
            x, y = prev[0], a
            for _ in range(30):
                c = (x + y) / 2
                q = sar.geodetic(point(c))
                if (q[2] - height(q[0], q[1]) < 0) == (prev[1] < 0):
                    x = c
                else:
                    y = c
            out.append(point((x + y) / 2))
        prev = (a, d)
    # the contour grazes the surface where it comes close and turns back: it may cross twice between two steps of this walk
    grazes = any(abs(y) < 2.5 and abs(y) <= abs(x) and abs(y) <= abs(z) and (x < 0) == (y < 0) == (z < 0) for x, y, z in zip(ds, ds[1:], ds[2:]))
    return out, grazes


def make_terrain(m, kind, lon, lat, h, extent):
    r = m.rng
    if kind == "constant":
        return ConstantElevationModel(h + float(r.uniform(-150, 400))), None, None
    if kind == "slope":
        s = r.uniform(-0.12, 0.12, 2)
        span = extent * 0.3 + 100
        return PlaneElevation(h + r.uniform(-50, 50), lon, lat, s[0], s[1], lo=h - span, hi=h + span, spacing=float(r.choice([10, 30, 90]))), None, None
    if kind in ("hills", "ridges"):
        amp = float(r.uniform(10, 150))
        wave = float(amp * r.uniform(2.2, 5) if kind == "ridges" else r.uniform(7, 40))
        return PlaneElevation(h, lon, lat, 0.01, -0.02, ripple=amp, wave=wave, lo=h - amp - 150, hi=h + amp + 150, spacing=float(r.choice([10, 30]))), None, None
    if kind == "cells":
        return Cells(r, lon, lat, extent * float(r.uniform(0.2, 0.8)) + 50, h), None, None
    raise ValueError(kind)


def height_of(em):
    if isinstance(em, ConstantElevationModel):
        return lambda lon, lat: em.constant_elevation
    return em.height


def judge_sar(m, ref, model, col, row, fcol, frow, em, height, tol, lo, hi):
    g = i2w(m, model, col, row, em)
    pt = sar.ecef(*g.coordinate)
    dr, drd = ref.residual(fcol, frow, pt)
    rr, _, _, av = ref.contour(fcol, frow)
    m.close([dr, drd * rr / np.linalg.norm(av)], [0, 0], 0.01, "contour", pixel=[col, row], answer=g.coordinate)
    m.check(ref.side(fcol, frow, pt) == ref.p["side"], "side-of-track", "answer lies on the wrong side of the flight path", pixel=[col, row])
    m.close(g.elevation, height(g.longitude, g.latitude), tol, "on-terrain", pixel=[col, row], answer=g.coordinate)
    return g, pt


def sar_case(m, i, shard):
    r = m.rng
    chip = None
    if r.random() < 0.7:
        p = sar.random_sicd(r)
        model = SICDSensorModelBuilder(sar.sicd_xml(p)).build()
    else:
        p = sar.random_sidd(r)
        model = SIDDSensorModelBuilder(sar.sidd_xml(p, TEMPLATE)).build()
    ref = sar.SarRef(p)
    m.event("camera:sar")
    lon, lat, h = ref.scp_lle
    extent = max(p["num_rows"] * p["row_ss"], p["num_cols"] * p["col_ss"]) * 2
    kind = ["constant", "slope", "hills", "ridges", "cells", "none", "tiles"][(i + shard) % 7]
    with m.case({"camera": p["kind"], "side": p["side"], "at": [lon, lat, h], "terrain": kind}, p["kind"], p["side"], kind, *np.round(ref.scp)):
        m.require(model is not None, "no-model", "no camera for a complete product")
        m.event("terrain:" + kind)
        pix = [(float(r.uniform(0, 1) * p["num_cols"]), float(r.uniform(0, 1) * p["num_rows"])) for _ in range(m.n(7, 9))]
        if kind == "none":
            for c, w in pix:
                g = i2w(m, model, c, w, Nothing())
                d = i2w(m, model, c, w)
                m.close(sar.ecef(*g.coordinate), sar.ecef(*d.coordinate), 1e-3, "no-terrain-data", pixel=[c, w])
            return
        if kind == "tiles":
            if not math.radians(-54.9) < lat < math.radians(58.9) or abs(lon) > math.radians(178):
                return
            return tiles_case(m, ref, model, p, pix)
        em, _, _ = make_terrain(m, kind, lon, lat, h, extent)
        height = height_of(em)
        for c, w in pix:
            tol = {"constant": 0.01, "slope": 0.02}.get(kind, 0.02)
            if kind in ("hills", "ridges"):
                tol = 0.02 + em.ripple * (2 * math.pi / em.wave) ** 2 * 100 / 4
            if kind == "cells":
                tol = 0.02 + 2 * em.amp * 10.0 / em.size  # a crease may fall between two search points
            g, pt = judge_sar(m, ref, model, c, w, c, w, em, height, tol, None, None)
            if kind == "ridges" or kind == "hills" and m.rng.random() < 0.4:
                xs, grazes = crossings(ref, c, w, height, em.h0 - em.ripple - 150, em.h0 + em.ripple + 150)
                if len(xs) > 1:
                    m.event("several-crossings")
                hs = [sar.geodetic(x)[2] for x in xs]
                # crossings nearer to each other than the search resolution may legitimately be missed
                gaps = [np.linalg.norm(a - b) for a, b in zip(xs, xs[1:])]
                if xs and not grazes and all(gp > 40 for gp in gaps):
                    m.close(np.linalg.norm(pt - xs[0]), 0.0, 15.0, "lowest-crossing", pixel=[c, w], crossings=hs, answer=g.coordinate)
                    m.event("crossings-decided")


def tiles_case(m, ref, model, p, pix):
    """Terrain read from elevation tiles on disk through the cached elevation model."""
    r = m.rng
    lon, lat, h = [math.degrees(ref.scp_lle[0]), math.degrees(ref.scp_lle[1]), ref.scp_lle[2]]
    d = m.scratch()
    tiles = {}
    for la in range(math.floor(lat) - 1, math.floor(lat) + 2):
        for lo in range(math.floor(lon) - 1, math.floor(lon) + 2):
            t = Tile(r, lo, la, True)
            t.z = np.round(h + r.uniform(-200, 200) + r.normal(0, 60, (t.h, t.w)))
            name = f"{'s' if la < 0 else 'n'}{abs(la):02d}_{'w' if lo < 0 else 'e'}{abs(lo):03d}_1arc_v3.tif"
            t.write(os.path.join(d, name), gdal.GDT_Int16)
            tiles[lo, la] = t
    em = DigitalElevationModel(SRTMTileSet(), GDALDigitalElevationModelTileFactory(d), raster_cache_size=int(r.choice([1, 2, 10])))

    def height(lo, la):
        lo, la = math.degrees(lo), math.degrees(la)
        return tiles[math.floor(lo), math.floor(la)].height(lo, la)

    for c, w in pix:
        g = i2w(m, model, c, w, em)
        lo, la = math.degrees(g.longitude), math.degrees(g.latitude)
        if min(abs(lo - round(lo)), abs(la - round(la))) < 0.01:
            continue  # tiles disagree along their seam: no continuous surface to judge by
        judge_sar(m, ref, model, c, w, c, w, em, height, 0.1, None, None)


def poly_case(m, i, shard):
    r = m.rng
    which = ["rpc", "rsm", "composite", "chip"][(i + shard) % 4]
    m.event("camera:polynomial")
    kind = ["constant", "slope", "cells", "none"][(i // 2) % 4]
    if which == "rsm":
        p = rsm.random_rsm(r, form="GHR"[int(r.integers(3))], sections=(1, 1))
        full = rsm.build(p)
        lon, lat, h, dh = p.lon0, p.lat0, p.h0, p.dh
        w, hgt = p.width, p.height
        c0, r0 = p.min_col, p.min_row
        project = lambda lo, la, z: p.project(lo, la, z)
        gsd = p.gsd_min
    else:
        p = rpc.random_rpc(r)
        full = rpc.build(p)
        lon, lat, h, dh = math.radians(p["long_off"]), math.radians(p["lat_off"]), p["height_off"], p["height_scale"]
        w, hgt = 2 * p["samp_scale"], 2 * p["line_scale"]
        c0, r0 = p["samp_off"] - p["samp_scale"], p["line_off"] - p["line_scale"]
        project = lambda lo, la, z: rpc.project(p, math.degrees(lo), math.degrees(la), z)
        gsd = 111320.0 * min(p["lat_scale"] / p["line_scale"], p["long_scale"] * math.cos(lat) / p["samp_scale"])
    with m.case({"camera": which, "terrain": kind, "at": [lon, lat, h]}, which, kind, round(lon, 5)):
        m.event("terrain:" + kind)
        model, off = full, (0.0, 0.0)
        if which == "composite":
            corners = [(c0, r0), (c0 + w, r0), (c0 + w, r0 + hgt), (c0, r0 + hgt)]
            wc = [full.image_to_world(ImageCoordinate(list(q))) for q in corners]
            model = CompositeSensorModel(ProjectiveSensorModel(wc, [ImageCoordinate(list(q)) for q in corners]), full)
        elif which == "chip":
            off = (float(np.floor(c0 + 0.3 * w)), float(np.floor(r0 + 0.3 * hgt)))
            cw, ch = 0.4 * w, 0.4 * hgt
            cs = [(0, 0), (cw, 0), (cw, ch), (0, ch)]
            model = ChippedImageSensorModel([ImageCoordinate([a + off[0], b + off[1]]) for a, b in cs], [ImageCoordinate([a, b]) for a, b in cs], full)
        if kind == "none":
            em = Nothing()
        elif kind == "constant":
            em = ConstantElevationModel(h + float(r.uniform(-0.5, 0.5)) * dh)
        elif kind == "slope":
            em = PlaneElevation(h, lon, lat, *(r.uniform(-0.3, 0.3, 2) * dh / (0.5 * min(w, hgt) * gsd)))
        else:
            em = Cells(r, lon, lat, max(w, hgt) * gsd * 0.5, h)
            em.amp = 0.15 * dh * float(r.uniform(0.2, 1))
        for _ in range(m.n(5, 8)):
            if which == "chip":
                c, q = float(r.uniform(0, 0.4 * w)), float(r.uniform(0, 0.4 * hgt))
            else:
                c, q = float(c0 + r.uniform(0.1, 0.9) * w), float(r0 + r.uniform(0.1, 0.9) * hgt)
            g = i2w(m, model, c, q, em)
            if kind == "none":
                d = i2w(m, model, c, q)
                m.close(sar.ecef(*g.coordinate), sar.ecef(*d.coordinate), max(0.5, 2 * gsd), "no-terrain-data", pixel=[c, q])
                continue
            z = em.constant_elevation if kind == "constant" else em.height(g.longitude, g.latitude)
            m.close(g.elevation, z, 1e-6, "on-terrain", pixel=[c, q])
            b = project(g.longitude, g.latitude, z)
            err = math.hypot(b[0] - c - off[0], b[1] - q - off[1])
            m.stat("px", err)
            m.check(err <= max(0.75, 0.25 / gsd), "line-of-sight", f"location projects {err:.2f} px from the pixel asked for", pixel=[c, q], answer=g.coordinate)


def run(m, tier, shard):
    for i in range(m.n(12, 48)):
        sar_case(m, i, shard)
        if i % 2 == 0:
            poly_case(m, i, shard)
