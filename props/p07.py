"""P07 wrappers: a recording full-image camera observes exactly what the chip and composite wrappers ask of it."""

import copy
import math
from xml.etree import ElementTree as ET

import numpy as np

from aws.osml.gdal.sensor_model_factory import SensorModelFactory
from aws.osml.photogrammetry import (
    ChippedImageSensorModel, CompositeSensorModel, ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModel,
)
from aws.osml.photogrammetry.sensor_model import SensorModelOptions
from vlib import rpc, rsm
from vlib.sm import PlaneElevation, i2w, w2i

SHARDS = {"quick": 64, "thorough": 128}
MIN = {"chip": 300, "composite": 200, "nested": 60, "recorded-chip": 100, "real-camera": 30, "camera-calls": 4000}
RULE = "distinct (wrapper kind, chip position/scale/rotation, camera) configurations"
ASSUME = ["chip corners correspond to the full image through an offset, scale and optional rotation or flip, as chips do"]


class Camera(SensorModel):
    """Smooth invertible camera with a height dependence that records every call it receives."""

    def __init__(self, r):
        super().__init__()
        self.a = np.array([[1e-6, 2e-7], [-1e-7, -1.2e-6]]) * r.uniform(0.5, 2)
        self.o = np.array([r.uniform(-3, 3), r.uniform(-1.3, 1.3)])
        self.k = r.uniform(-1e-8, 1e-8, 2)
        self.log = []

    def lonlat(self, x, y, h):
        return self.o + self.a @ np.array([x, y]) + self.k * h

    def pix(self, lon, lat, h):
        return np.linalg.solve(self.a, np.array([lon, lat]) - self.o - self.k * h)

    def image_to_world(self, image_coordinate, elevation_model=None, options=None):
        self.log.append(("i2w", image_coordinate.coordinate.copy(), elevation_model, copy.deepcopy(options), options))
        g = GeodeticWorldCoordinate([*self.lonlat(image_coordinate.x, image_coordinate.y, 0.0), 12.5])
        if elevation_model is not None:
            elevation_model.set_elevation(g)
            lo, la = self.lonlat(image_coordinate.x, image_coordinate.y, g.elevation)
            g.longitude, g.latitude = lo, la
        return g

    def world_to_image(self, world_coordinate):
        self.log.append(("w2i", world_coordinate.coordinate.copy(), None, None, None))
        return ImageCoordinate(self.pix(*world_coordinate.coordinate))


def random_chip(r):
    """Affine chip map full = b + A chip (A: scale, possibly rotation or flip); returns corner lists in matching order."""
    w, h = int(r.integers(16, 6000)), int(r.integers(16, 6000))
    sc = float(r.choice([1.0, 1.0, 2.0, 0.5, 3.7, r.uniform(0.2, 10)]))
    sy = sc if r.random() < 0.7 else sc * r.uniform(0.5, 2)
    t = float(r.choice([0.0, 0.0, 0.0, math.pi / 2, math.pi, r.uniform(0, 2 * math.pi)]))
    A = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]) @ np.diag([sc, sy if r.random() < 0.9 else -sy])
    b = np.array([r.uniform(0, 30000), r.uniform(0, 30000)])
    if r.random() < 0.5:
        b = np.floor(b)
    off = float(r.choice([0.0, 0.0, 0.5]))
    chip = [(off, off), (w - off, off), (w - off, h - off), (off, h - off)]
    if r.random() < 0.3:
        chip.append((float(r.uniform(0, w)), float(r.uniform(0, h))))
    k = int(r.integers(len(chip)))
    chip = chip[k:] + chip[:k]
    if r.random() < 0.5:
        chip = chip[::-1]
    full = [tuple(b + A @ np.array(c)) for c in chip]
    return A, b, chip, full, w, h, {"size": [w, h], "scale": [sc, sy], "angle": t, "offset": b.tolist()}


def tolerance(A, b, w, h):
    big = max(np.max(np.abs(b)), w, h, 1e3)
    return 1e-6 * (big / 1e3) ** 2 * max(1.0, 1 / abs(np.linalg.det(A)) ** 0.5)


def recorded_chips(m):
    """Chips described by a NITF chipping record (any magnification and orientation) answer as the camera built for the full image."""
    r = m.rng
    for i in range(m.n(6, 40)):
        p = rpc.random_rpc(r)
        kinds = [["rpc"], ["cscrna"], ["rpc", "cscrna"], ["rsm"]][int(r.integers(4))]
        while True:
            A, b, chip, full, w, h, desc = random_chip(r)
            corners = [b + A @ np.array(c) for c in ((0.5, 0.5), (w - 0.5, 0.5), (0.5, h - 0.5), (w - 0.5, h - 0.5))]
            if np.min(corners) > -1e5 and max(np.max(corners), 1) < 2e5:
                break
        fw, fh = int(max(1, *(c[0] for c in corners))) + int(r.integers(1, 9000)), int(max(1, *(c[1] for c in corners))) + int(r.integers(1, 9000))
        with m.case({"recorded chip": desc, "of": kinds}, "record", w, h, tuple(kinds), round(desc["angle"], 2)):
            m.event("recorded-chip")
            q = None
            if "rsm" in kinds:
                q = rsm.random_rsm(r, quad=0.0)

            def metadata(chipped):
                root = ET.Element("tres")
                if "rpc" in kinds:
                    rpc.tre_xml(p, root)
                if q is not None:
                    rsm.tre_xml(q, root=root)
                if "cscrna" in kinds:
                    lo, la = p["long_off"], p["lat_off"]
                    t = ET.SubElement(root, "tre", name="CSCRNA", location="image")
                    for nm, (u, v) in {"UL": (-1, 1), "UR": (1, 1.1), "LR": (0.9, -1), "LL": (-1.05, -0.95)}.items():
                        for f, val in (("LAT", la + v * p["lat_scale"]), ("LONG", lo + u * p["long_scale"]), ("HT", 0.0)):
                            ET.SubElement(t, "field", name=f"{nm}CNR_{f}", value=repr(float(val)))
                if chipped:
                    t = ET.SubElement(root, "tre", name="ICHIPB", location="image")
                    vals = {"XFRM_FLAG": "00", "FI_ROW": f"{fh:08d}", "FI_COL": f"{fw:08d}"}
                    for nm, c, g in zip(("11", "12", "21", "22"), ((0.5, 0.5), (w - 0.5, 0.5), (0.5, h - 0.5), (w - 0.5, h - 0.5)), corners):
                        vals |= {f"OP_COL_{nm}": repr(float(c[0])), f"OP_ROW_{nm}": repr(float(c[1])), f"FI_COL_{nm}": repr(float(g[0])), f"FI_ROW_{nm}": repr(float(g[1]))}
                    names = list(vals)
                    if r.random() < 0.5:
                        r.shuffle(names)
                    for nm in names:
                        ET.SubElement(t, "field", name=nm, value=vals[nm])
                return root

            whole = SensorModelFactory(fw, fh, xml_tres=metadata(False)).build()
            part = SensorModelFactory(w, h, xml_tres=metadata(True)).build()
            m.require(whole is not None and part is not None, "no-camera", f"{whole} {part}")
            tol = tolerance(A, b, w, h) + 2e-5
            for _ in range(5):
                x, y = float(r.uniform(0, w)), float(r.uniform(0, h))
                f = b + A @ np.array([x, y])
                if kinds == ["cscrna"]:
                    if not (-0.2 * fw < f[0] < 1.2 * fw and -0.2 * fh < f[1] < 1.2 * fh):
                        continue
                    g = i2w(m, whole, float(f[0]), float(f[1]))
                    c = i2w(m, part, x, y)
                    m.close(c.coordinate[:2], g.coordinate[:2], 1e-9, "recorded-location", chip_pixel=[x, y])
                    back = w2i(m, part, g.longitude, g.latitude, g.elevation)
                    m.close(back.coordinate, [x, y], 50 * tol + 1e-3, "recorded-pixel")
                    continue
                if q is not None:
                    lon, lat = q.lonlat(*r.uniform(-0.8, 0.8, 2))
                    ht = q.h0
                else:
                    lon, lat = (math.radians(p["long_off"] + r.uniform(-0.8, 0.8) * p["long_scale"]), math.radians(p["lat_off"] + r.uniform(-0.8, 0.8) * p["lat_scale"]))
                    ht = p["height_off"] + r.uniform(-0.8, 0.8) * p["height_scale"]
                f = w2i(m, whole, lon, lat, ht).coordinate
                want = np.linalg.solve(A, f - b)
                c = w2i(m, part, lon, lat, ht).coordinate
                big = max(1.0, np.max(np.abs(f)) / 1e4, np.max(np.abs(want)) / 1e4)
                m.close(c, want, 4 * tol * big ** 2, "recorded-pixel", world=[lon, lat, ht])


def run(m, tier, shard):
    recorded_chips(m)
    r = m.rng
    for i in range(m.n(60, 400)):
        A, b, chip, full, w, h, desc = random_chip(r)
        tol = tolerance(A, b, w, h)
        cam = Camera(r)
        with m.case({"chip": desc}, "chip", w, h, round(desc["angle"], 2), round(desc["scale"][0], 2)):
            m.event("chip")
            fullc, chipc = [ImageCoordinate(list(c)) for c in full], [ImageCoordinate(list(c)) for c in chip]
            keep = [c.coordinate.copy() for c in fullc + chipc]
            model = ChippedImageSensorModel(fullc, chipc, cam)
            m.check(all(np.array_equal(a, c.coordinate) for a, c in zip(keep, fullc + chipc)), "input-mutated", "constructor changed tie points")
            for k in range(12):
                x, y = (float(v) for v in (r.uniform(0, w), r.uniform(0, h)))
                if k < 2:
                    x, y = [(0.0, 0.0), (float(w), float(h))][k]
                f = b + A @ np.array([x, y])
                em = [None, ConstantElevationModel(float(r.uniform(0, 3000))), PlaneElevation(50.0, *cam.o, 0.01, 0.02)][int(r.integers(3))]
                opts = None if r.random() < 0.5 else {"initial_guess": [float(r.random()), 0.2], "tag": object.__name__}
                cam.log.clear()
                g = i2w(m, model, x, y, em, opts)
                calls = [c for c in cam.log if c[0] == "i2w"]
                m.event("camera-calls", len(cam.log))
                m.require(len(calls) >= 1, "camera-not-consulted")
                m.close(calls[-1][1], f, tol, "full-pixel", chip_pixel=[x, y])
                m.check(calls[-1][2] is em, "terrain-dropped", f"full-image camera was given elevation model {calls[-1][2]!r}")
                m.check((calls[-1][3] or {}) == (opts or {}), "options-dropped", f"{calls[-1][3]!r} instead of {opts!r}")
                want = Camera.image_to_world(cam, ImageCoordinate(calls[-1][1]), em, opts)
                m.check(np.array_equal(want.coordinate, g.coordinate), "answer-altered", f"{g!r} instead of {want!r}")
                hh = 0.0 if r.random() < 0.25 else float(r.uniform(-100, 4000))
                lon, lat = cam.lonlat(f[0], f[1], hh)
                cam.log.clear()
                c = w2i(m, model, lon, lat, hh)
                m.event("camera-calls", len(cam.log))
                m.require(len(cam.log) >= 1, "camera-not-consulted")
                m.check(cam.log[-1][1].tolist() == [lon, lat, hh], "world-altered", f"{cam.log[-1][1]} instead of {[lon, lat, hh]}")
                m.close(c.coordinate, [x, y], tol * 4, "chip-pixel", world=[lon, lat, hh])
            if r.random() < 0.4:
                # a chip of a chip of the camera behaves as the composed chip
                m.event("nested")
                w2, h2 = max(4, w // 3), max(4, h // 3)
                o2 = (float(r.uniform(0, w / 2)), float(r.uniform(0, h / 2)))
                c2 = [(0, 0), (w2, 0), (w2, h2), (0, h2)]
                inner = ChippedImageSensorModel([ImageCoordinate([o2[0] + p[0], o2[1] + p[1]]) for p in c2], [ImageCoordinate(list(p)) for p in c2], model)
                for _ in range(4):
                    x, y = float(r.uniform(0, w2)), float(r.uniform(0, h2))
                    f = b + A @ np.array([x + o2[0], y + o2[1]])
                    g = i2w(m, inner, x, y)
                    m.close(cam.pix(g.longitude, g.latitude, 0.0), f, 20 * tol + 1e-5, "nested-chip")
    for i in range(m.n(30, 200)):
        ap, pr = Camera(r), Camera(r)
        ap.o = pr.o + r.uniform(-1e-5, 1e-5, 2)
        with m.case({"composite": [ap.o.tolist(), pr.o.tolist()]}, "composite", round(float(pr.o[0]), 3), round(float(pr.o[1]), 3)):
            m.event("composite")
            model = CompositeSensorModel(approximate_sensor_model=ap, precision_sensor_model=pr)
            for _ in range(6):
                x, y = float(r.uniform(0, 9000)), float(r.uniform(0, 9000))
                em = [None, ConstantElevationModel(float(r.uniform(0, 3000)))][int(r.integers(2))]
                opts = [None, {}, {"tag": 7}, {SensorModelOptions.INITIAL_SEARCH_DISTANCE: 0.2}][int(r.integers(4))]
                ap.log.clear()
                pr.log.clear()
                g = i2w(m, model, x, y, em, opts)
                m.event("camera-calls", len(ap.log) + len(pr.log))
                pc = [c for c in pr.log if c[0] == "i2w"]
                m.require(len(pc) >= 1, "precise-camera-not-consulted")
                m.check(pc[-1][1].tolist() == [x, y] and pc[-1][2] is em, "precise-arguments", f"{pc[-1]}")
                want = Camera.image_to_world(pr, ImageCoordinate([x, y]), em, None)
                m.check(np.array_equal(want.coordinate, g.coordinate), "composite-answer", f"{g!r} instead of the precise camera's {want!r}")
                got = pc[-1][3] or {}
                m.check(opts is None or got.get("tag") == opts.get("tag"), "options-dropped", f"{got}")
                if SensorModelOptions.INITIAL_GUESS in got:
                    guess = np.asarray(got[SensorModelOptions.INITIAL_GUESS], float)
                    aw = Camera.image_to_world(ap, ImageCoordinate([x, y]), em, None)
                    m.close(guess[:2], aw.coordinate[:2], 1e-12, "guess", pixel=[x, y])
                hh = float(r.choice([0.0, 100.0, -30.0]))
                lon, lat = pr.lonlat(x, y, hh)
                pr.log.clear()
                c = w2i(m, model, lon, lat, hh)
                m.close(c.coordinate, [x, y], 1e-4, "composite-pixel")
    # with a real iterative camera the composite's answer is the precise camera's own answer, whatever the guess's error
    for i in range(m.n(3, 20)):
        p = rpc.random_rpc(r)
        cam = rpc.build(p)
        with m.case({"rpc composite": p["lat_off"]}, "rpc", p["lat_off"], p["long_off"]):
            m.event("real-camera")

            class Rough(SensorModel):
                def __init__(self, dx, dy):
                    self.d, self.p = (dx, dy), p

                def image_to_world(self, image_coordinate, elevation_model=None, options=None):
                    p = self.p
                    l = (image_coordinate.x - p["samp_off"]) / p["samp_scale"] * p["long_scale"] * 0.9
                    q = -(image_coordinate.y - p["line_off"]) / p["line_scale"] * p["lat_scale"] * 0.9
                    return GeodeticWorldCoordinate([math.radians(p["long_off"] + l + self.d[0]), math.radians(p["lat_off"] + q + self.d[1]), 0.0])

                def world_to_image(self, world_coordinate):
                    return ImageCoordinate([0.0, 0.0])

            model = CompositeSensorModel(Rough(*(r.uniform(-0.1, 0.1, 2) * min(p["lat_scale"], p["long_scale"]))), cam)
            for _ in range(4):
                x, y = p["samp_off"] + r.uniform(-0.8, 0.8) * p["samp_scale"], p["line_off"] + r.uniform(-0.8, 0.8) * p["line_scale"]
                em = ConstantElevationModel(p["height_off"] + 0.3 * p["height_scale"]) if r.random() < 0.5 else None
                g = i2w(m, model, x, y, em)
                back = rpc.project(p, math.degrees(g.longitude), math.degrees(g.latitude), g.elevation)
                gsd = p["lat_scale"] * 111320.0 / p["line_scale"]
                m.check(math.hypot(back[0] - x, back[1] - y) <= max(0.75, 0.25 / gsd), "composite-inverse", f"{back} for {[x, y]}")
                m.close(g.elevation, em.constant_elevation if em else p["height_off"], 1e-6, "composite-surface")
