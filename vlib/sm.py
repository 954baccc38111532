"""Monitored calls into sensor models: every call is checked for finite output of the right type and untouched inputs."""

import copy
import math

import numpy as np

from aws.osml.photogrammetry import ConstantElevationModel, ElevationModel, ElevationRegionSummary, GeodeticWorldCoordinate, ImageCoordinate

from .sar import ecef


def recall(m):
    """Ask one camera used earlier in the shard a question it has already answered: the answer must be the same, whatever other
    cameras were built and used since."""
    h = m.__dict__.setdefault("_history", {"n": 0, "kept": []})
    h["n"] += 1
    if h["n"] % 11 or not h["kept"]:
        return
    kind, model, arg, em, options, answer = h["kept"][(h["n"] // 11 * 7) % len(h["kept"])]
    if kind == "i2w":
        got = model.image_to_world(ImageCoordinate(arg), elevation_model=em, options=copy.deepcopy(options))
    else:
        got = model.world_to_image(GeodeticWorldCoordinate(arg))
    m.event("asked-again-later")
    m.check(np.array_equal(got.coordinate, answer, equal_nan=True), "answer-changed", f"{type(model).__name__} asked again later: {got!r} instead of {answer}", at=arg)


def remember(m, *rec):
    h = m.__dict__.setdefault("_history", {"n": 0, "kept": []})
    if len(h["kept"]) < 40:
        h["kept"].append(rec)
    elif h["n"] % 5 == 0:
        h["kept"][(h["n"] * 13) % 40] = rec


def i2w(m, model, x, y, em=None, options=None, finite=True):
    recall(m)
    c = ImageCoordinate([x, y])
    before = c.coordinate.copy()
    opt_before = copy.deepcopy(options)
    w = model.image_to_world(c, elevation_model=em, options=options) if (em is not None or options is not None) else (
        model.image_to_world(c)
    )
    m.event("image_to_world")
    m.check(np.array_equal(c.coordinate, before), "input-coordinate-mutated", "image_to_world changed its input coordinate")
    m.check(repr(options) == repr(opt_before), "input-options-mutated", "image_to_world changed the caller's options")
    m.check(isinstance(w, GeodeticWorldCoordinate), "result-type", f"image_to_world returned {type(w)}")
    if em is None or isinstance(em, (ConstantElevationModel, PlaneElevation)):
        remember(m, "i2w", model, [x, y], em, opt_before, np.array(w.coordinate))
    if finite:
        m.require(bool(np.all(np.isfinite(np.asarray(w.coordinate, float)))), "non-finite", f"image_to_world gave {w!r}")
    return w


def w2i(m, model, lon, lat, h=0.0, finite=True):
    recall(m)
    g = GeodeticWorldCoordinate([lon, lat, h])
    before = g.coordinate.copy()
    c = model.world_to_image(g)
    m.event("world_to_image")
    m.check(np.array_equal(g.coordinate, before), "input-coordinate-mutated", "world_to_image changed its input coordinate")
    m.check(isinstance(c, ImageCoordinate), "result-type", f"world_to_image returned {type(c)}")
    remember(m, "w2i", model, [lon, lat, h], None, None, np.array(c.coordinate))
    if finite:
        m.require(bool(np.all(np.isfinite(np.asarray(c.coordinate, float)))), "non-finite", f"world_to_image gave {c!r}")
    return c


def ground_distance(a, b):
    """Metres between two geodetic coordinates."""
    return float(np.linalg.norm(ecef(*a.coordinate) - ecef(*b.coordinate)))


def wrap(a):
    return (a + math.pi) % (2 * math.pi) - math.pi


class PlaneElevation(ElevationModel):
    """Analytic terrain: h = h0 + slopes * local offsets + a ripple. Counts how often it was asked."""

    def __init__(self, h0, lon0=0.0, lat0=0.0, se=0.0, sn=0.0, ripple=0.0, wave=2000.0, lo=None, hi=None, spacing=30.0):
        self.h0, self.lon0, self.lat0, self.se, self.sn = h0, lon0, lat0, se, sn
        self.ripple, self.wave, self.lo, self.hi, self.spacing = ripple, wave, lo, hi, spacing
        self.calls = 0

    def height(self, lon, lat):
        e = wrap(lon - self.lon0) * 6371000.0 * math.cos(self.lat0)
        n = (lat - self.lat0) * 6371000.0
        h = self.h0 + self.se * e + self.sn * n
        if self.ripple:
            h += self.ripple * math.sin(2 * math.pi * e / self.wave) * math.cos(2 * math.pi * n / self.wave)
        if self.lo is not None:
            h = max(self.lo, h)
        if self.hi is not None:
            h = min(self.hi, h)
        return h

    def set_elevation(self, g):
        self.calls += 1
        g.elevation = self.height(g.longitude, g.latitude)

    def describe_region(self, g):
        lo = self.lo if self.lo is not None else self.h0 - 1000.0
        hi = self.hi if self.hi is not None else self.h0 + 1000.0
        return ElevationRegionSummary(min_elevation=lo, max_elevation=hi, no_data_value=-32767, post_spacing=self.spacing)
