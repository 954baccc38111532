"""P15 a camera's answer depends only on the question: each question is first put to a camera of its own, built from pristine metadata; a second
camera is then asked the same questions in random histories (repetitions, other cameras built and used, hopeless questions, callers that overwrite
what they got or handed in) and by several threads at once. Every answer must be the one the fresh camera gave."""

import copy
import math
import sys
import threading
from xml.etree import ElementTree as ET

import numpy as np
from osgeo import osr

from aws.osml.gdal import SensorModelFactory
from aws.osml.photogrammetry import (
    ChippedImageSensorModel, CompositeSensorModel, ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, SensorModelOptions,
)
from vlib import bundle, rpc, rsm, sar
from vlib.bundle import Approx, Chip
from vlib.sm import PlaneElevation

SHARDS = {"quick": 64, "thorough": 128}
KINDS = ["affine", "affine-utm", "gcp", "cscrna", "rpc", "rsm", "rsm-sections", "sicd", "sidd", "sidd-chip", "rpc+cscrna", "rsm+gcp", "sicd+affine", "rpc-chip", "cscrna-chip"]
MIN = {**{"camera:" + k: 15 for k in KINDS}, "asked": 10000, "asked-by-threads": 5000, "distinct-interleavings": 200, "hopeless": 300, "overwritten-answer": 1000,
       "overwritten-metadata": 150, "other-camera": 300, "with-terrain": 1500, "with-options": 300}
RULE = "distinct (camera, question set, history) combinations; an interleaving is the order in which the threads' answers arrived"
ASSUME = ["terrain models that are themselves functions of the location (elevation tiles with a cache are P09)", "threads share the camera, not the coordinates they pass"]


def source(m, r, kind):
    """make() -> (camera, things handed over), each time from its own copy of the metadata; ground (lon, lat, h) and pixel near each other."""
    base, _, extra = kind.partition("+")
    chipped = base.endswith("-chip")
    base = base.replace("-chip", "")
    win = None
    if base in ("rpc", "rsm", "sicd", "sidd"):
        win = bundle.precise(r, base)
        ground, pixel, gsd = win.ground, win.pixel, max(win.gsd, 0.05)
    elif base == "rsm-sections":
        win = bundle.precise(r, "rsm")
        while win.p.nr * win.p.nc < 2:
            win = bundle.precise(r, "rsm")
        ground, pixel, gsd, base = win.ground, win.pixel, max(win.gsd, 0.05), "rsm"
    else:
        ground = (math.radians(r.uniform(-170, 170)), math.radians(r.uniform(-70, 70)), 0.0)
        pixel, gsd = (float(r.uniform(0, 2000)), float(r.uniform(0, 2000))), 10 ** r.uniform(-0.5, 1)
    w, h = int(abs(pixel[0]) * 1.2 + 100), int(abs(pixel[1]) * 1.2 + 100)
    chip = None
    if chipped and base != "sidd":
        s = r.uniform(0.5, 4, 2)
        t = r.uniform(0.2, 0.8, 2) * [w, h]
        chip = Chip(np.asarray(pixel) - s * t, s, w, h, int(w * 5 + 100), int(h * 5 + 100))
    kw, root = {}, ET.Element("tres")
    if base == "rpc":
        rpc.tre_xml(win.p, root, rnd=m.rnd)
    if base == "rsm":
        rsm.tre_xml(win.p, m.rnd, root)
    full_pixel = pixel
    if chip is not None:
        pixel = chip.to_chip(*pixel)
        chip.xml(root)
    for k in (base, extra):
        if k in ("affine", "affine-utm", "gcp", "cscrna"):
            a = Approx(r, "affine" if k == "affine-utm" else k, ground, *(full_pixel if k == "cscrna" else pixel), gsd)
            if k == "cscrna":
                a.cscrna(root, *((chip.fw, chip.fh) if chip else (w, h)))
            elif k == "gcp":
                kw["ground_control_points"] = a.gcps(r, w, h, int(r.integers(4, 9)))
            else:
                sr = osr.SpatialReference()
                gt = a.geotransform()
                if k == "affine-utm":
                    sr.ImportFromEPSG((32600 if ground[1] > 0 else 32700) + int((math.degrees(ground[0]) + 180) // 6) + 1)
                    gt = [float(r.uniform(3e5, 7e5)), gsd, gsd * 0.1, float(r.uniform(1e6, 6e6)), gsd * 0.05, -gsd]
                    ground = None
                else:
                    sr.ImportFromEPSG(4326)
                kw["geo_transform"] = gt
                kw["proj_wkt"] = sr.ExportToWkt()
    if base == "sidd" and chipped:
        p = win.p
        a, b = p["num_rows"] * 0.6, p["num_cols"] * 0.6
        xml = sar.sidd_xml(p, bundle.TEMPLATE, {"size": (150, 230), "ul": (10.3, 20.6), "ur": (14.8, 20.6 + b), "ll": (10.3 + a, 18.1), "lr": (14.8 + a, 18.1 + b)})
        pixel = (float(r.uniform(0, 229)), float(r.uniform(0, 149)))
        kw["xml_dess"] = bundle.des_list([xml])
    elif base in ("sicd", "sidd"):
        kw["xml_dess"] = bundle.des_list([win.xml], str(r.choice(["base64", "inline"])))
    if len(root):
        kw["xml_tres"] = root

    def make():
        own = {k: ET.fromstring(ET.tostring(v)) if k == "xml_tres" else copy.copy(v) for k, v in kw.items()}
        if "ground_control_points" in own:
            own["ground_control_points"] = [type(g)(g.GCPX, g.GCPY, g.GCPZ, g.GCPPixel, g.GCPLine) for g in own["ground_control_points"]]
        return SensorModelFactory(w, h, **own).build(), own

    return make, ground, pixel, gsd


def spoil(own):
    """What a caller may do with its own metadata once the camera is built."""
    if "xml_tres" in own:
        for e in own["xml_tres"].iter():
            if "value" in e.attrib:
                e.set("value", "0")
        own["xml_tres"].clear()
    if "geo_transform" in own:
        own["geo_transform"][:] = [0.0] * 6
    for g in own.get("ground_control_points", []):
        g.GCPX, g.GCPY, g.GCPPixel = 0.0, 0.0, 0.0
    for k in ("ground_control_points", "xml_dess"):
        if k in own:
            own[k].clear()


class Question:
    def __init__(self, kind, at, em=None, options=None):
        self.kind, self.at, self.em, self.options = kind, at, em, options

    def ask(self, model, r=None, m=None):
        if self.kind == "i2w":
            c = ImageCoordinate(list(self.at))
            kw = {}
            if self.em is not None:
                # half of the time a terrain of its own, which is gone afterwards
                kw["elevation_model"] = copy.copy(self.em) if r is not None and r.random() < 0.5 else self.em
            if self.options is not None:
                kw["options"] = copy.deepcopy(self.options)
            try:
                a = model.image_to_world(c, **kw)
            except Exception as e:
                return type(e).__name__
            if m is not None:
                m.check(self.options is None or repr(kw["options"]) == repr(self.options), "options-mutated", "the caller's options were changed")
        else:
            c = GeodeticWorldCoordinate(list(self.at))
            try:
                a = model.world_to_image(c)
            except Exception as e:
                return type(e).__name__
        if m is not None:
            m.check(list(c.coordinate) == list(self.at), "coordinate-mutated", "the coordinate asked about was changed")
        v = np.array(a.coordinate, float)
        if r is not None:
            x = r.random()
            if x < 0.3:  # the caller keeps working with the answer, or with the coordinate it passed
                a.coordinate[:] = 1e9
            elif x < 0.4:
                a.coordinate[0] += 1.0
            if 0.2 < x < 0.5:
                c.coordinate[:] = -1e9
            if m is not None and x < 0.5:
                m.event("overwritten-answer")
        return v


def same(kind, a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str)
    tol = [1e-11, 1e-11, 1e-4] if kind == "i2w" else 1e-5
    return a.shape == b.shape and bool(np.all((np.abs(a - b) <= tol) | (np.isnan(a) & np.isnan(b)) | (a == b)))


def questions(m, r, make, ground, pixel, gsd):
    model = make()[0]
    m.require(model is not None, "no-model", "no camera for complete metadata")
    if ground is None:
        g = model.image_to_world(ImageCoordinate(list(pixel)))
        ground = (g.longitude, g.latitude, 0.0)
    em = [None, ConstantElevationModel(float(ground[2] + r.uniform(-100, 100))), ConstantElevationModel(float(ground[2])),
          PlaneElevation(ground[2] + float(r.uniform(-20, 20)), ground[0], ground[1], float(r.uniform(-0.05, 0.05)), float(r.uniform(-0.05, 0.05)), lo=ground[2] - 150, hi=ground[2] + 150)]
    out = []
    for k in range(8):
        x, y = [float(v + r.uniform(-40, 40)) for v in pixel]
        if k == 0:
            x, y = [float(v) for v in pixel]
        e = em[int(r.integers(0, len(em)))]
        o = None
        if r.random() < 0.3:
            o = {SensorModelOptions.INITIAL_GUESS: [float(ground[0] + r.uniform(-1, 1) * 1e-5), float(ground[1] + r.uniform(-1, 1) * 1e-5)], SensorModelOptions.INITIAL_SEARCH_DISTANCE: 1e-5}
            if r.random() < 0.4:
                o = {"unrelated": [1, 2]}
            m.event("with-options")
        out.append(Question("i2w", (x, y), e, o))
    q = out[0]
    out.append(Question("i2w", q.at, em[1]))  # the same pixel with and without terrain, and on other terrain
    out.append(Question("i2w", q.at, em[3]))
    out.append(Question("i2w", q.at, None))
    for e in (None, em[2]):  # less than a pixel away
        out.append(Question("i2w", tuple(math.floor(v) + float(r.uniform(0.05, 0.95)) for v in q.at), e))
        out.append(Question("i2w", tuple(v + float(r.choice([-1, 1]) * 10 ** r.uniform(-3, -1)) for v in q.at), e))
    for k in range(6):
        d = r.uniform(-30, 30, 2) * max(gsd, 0.1) / 6371000.0
        out.append(Question("w2i", (float(ground[0] + (0 if k == 0 else d[0])), float(ground[1] + (0 if k == 0 else d[1])), float(ground[2] + (0 if k < 2 else r.uniform(-50, 50))))))
    lon, lat, h = out[-1].at
    out.append(Question("w2i", (lon + 0.2 * max(gsd, 0.1) / 6371000.0, lat - 0.1 * max(gsd, 0.1) / 6371000.0, h + 0.3)))
    return out, ground


HOPELESS = [Question("i2w", (float("nan"), 1.0)), Question("i2w", (1e12, -1e12)), Question("w2i", (0.1, 1.5707, 1e7)), Question("w2i", (float("nan"), 0.0, 0.0)), Question("w2i", (-3.0, -1.0, -5e6))]


def histories(m, r, make, qs, want, others):
    model, own = make()
    if r.random() < 0.5:
        spoil(own)
        m.event("overwritten-metadata")
    order = [int(k) for k in r.integers(0, len(qs), m.n(40, 60))]
    order += [order[-1]] * 3  # and the same once more
    for n, k in enumerate(order):
        x = r.random()
        if x < 0.08:
            HOPELESS[int(r.integers(0, len(HOPELESS)))].ask(model)
            m.event("hopeless")
        elif x < 0.2 and others:
            o = others[int(r.integers(0, len(others)))]
            om = o[0]()[0] if r.random() < 0.15 else o[2]
            kk = int(r.integers(0, len(o[1])))
            got = o[1][kk].ask(om, r, m)
            m.event("other-camera")
            m.check(same(o[1][kk].kind, got, o[3][kk]), "other-camera", f"{o[1][kk].kind} {o[1][kk].at}: {got} instead of {o[3][kk]} after {n} questions to another camera")
        got = qs[k].ask(model, r, m)
        m.event("asked")
        if qs[k].em is not None:
            m.event("with-terrain")
        m.check(same(qs[k].kind, got, want[k]), "history", f"{type(model).__name__} {qs[k].kind} {qs[k].at}: {got} instead of {want[k]} as question {n}",
                terrain=type(qs[k].em).__name__, options=qs[k].options, before=order[max(0, n - 3):n])
    return model


def threads(m, r, model, qs, want, case):
    """Four threads share the camera; the interpreter switches between them as often as it can."""
    log, plans = [], [[int(k) for k in r.permutation(len(qs))] + [int(k) for k in r.integers(0, len(qs), m.n(6, 20))] for _ in range(4)]
    gate = threading.Barrier(4)

    def work(t):
        gate.wait()
        for k in plans[t]:
            log.append((t, k, qs[k].ask(model)))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    ts = [threading.Thread(target=work, args=(t,), daemon=True) for t in range(4)]
    try:
        for t in ts:
            t.start()
        for t in ts:
            t.join(120)
    finally:
        sys.setswitchinterval(old)
    m.check(not any(t.is_alive() for t in ts), "thread-stuck", "a thread got no answer")
    order = [t for t, _, _ in log]
    if sum(a != b for a, b in zip(order, order[1:])) > 4:
        m.event("distinct-interleavings")
    m.seen("threads", case, tuple(order))
    m.event("asked-by-threads", len(log))
    m.check(len(log) == sum(map(len, plans)), "thread-died", f"{len(log)} answers to {sum(map(len, plans))} questions")
    for n, (t, k, got) in enumerate(log):
        m.check(same(qs[k].kind, got, want[k]), "threads", f"{type(model).__name__} {qs[k].kind} {qs[k].at}: {got} instead of {want[k]} while other threads use the camera", thread=t, answer=n)


def run(m, tier, shard):
    r = m.rng
    others = []
    n = m.n(6, 18)
    for i in range(n):
        kind = KINDS[(i + shard * n) % len(KINDS)]
        with m.case({"camera": kind, "i": i}, kind, shard, i):
            make, ground, pixel, gsd = source(m, r, kind)
            m.event("camera:" + kind)
            qs, ground = questions(m, r, make, ground, pixel, gsd)
            want = [q.ask(make()[0]) for q in qs]
            m.check(not any(isinstance(w, str) for w in want), "raised", f"{[w for w in want if isinstance(w, str)][:1]} for an ordinary question")
            model = histories(m, r, make, qs, want, others)
            threads(m, r, model if r.random() < 0.5 else make()[0], qs, want, (shard, i))
            if r.random() < 0.5:
                model = histories(m, r, make, qs, want, others)
            others = (others + [(make, qs, model, want)])[-6:]
