"""P10 elevation tile addressing: an integer-cell reference decides which file a location belongs to."""

import math
import re

from aws.osml.photogrammetry import GeodeticWorldCoordinate, SRTMTileSet
from aws.osml.photogrammetry.generic_dem_tile_set import GenericDEMTileSet

SHARDS = {"quick": 32, "thorough": 128}
MIN = {"generic": 10000, "srtm": 10000, "outside": 2000, "cells": 1000}
RULE = "distinct one-degree cells and tile set configurations addressed"
ASSUME = [
    "coverage limits are whole degrees; the last partial cell on the upper limit may be reported or not",
    "a location closer than 1e-9 degrees to a cell boundary may be assigned to either neighbour, unless it is exactly on the boundary",
]


def cells(v):
    """Acceptable integer cells for a coordinate in degrees: a location on a cell's south or west edge belongs to that cell."""
    rad = math.radians(v)
    if v == round(v) and rad * (180.0 / math.pi) == v == rad * 180.0 / math.pi == math.degrees(rad):
        return {int(v)}
    return {math.floor(v + 1e-9), math.floor(v - 1e-9)}


def run(m, tier, shard):
    r = m.rng
    # exhaustive over cells (each shard takes a slice), hostile offsets inside the cell
    all_cells = [(lo, la) for lo in range(-180, 180) for la in range(-90, 90)]
    step = m.n(32, 1)
    mine = all_cells[shard :: SHARDS[tier]][:: step if m.quick else 1]
    offs = [0.0, 0.5, 1e-7, 1 - 1e-7, 0.25, 1 / 3]
    default = GenericDEMTileSet()
    for i, (lo, la) in enumerate(mine):
        with m.case({"cell": [lo, la]}, lo, la):
            m.event("cells")
            for _k in range(3):
                fo, fa = r.choice(offs), r.choice(offs)
                if _k == 2:
                    fo, fa = r.random(), r.random()
                one(m, r, lo + float(fo), la + float(fa), default)
    for lat in (90.0, -90.0, 0.0, 60.0, -56.0):
        for lon in (180.0, -180.0, 0.0, 12.0):
            with m.case({"at": [lon, lat]}, "special", lat, lon):
                for _k in range(4):
                    one(m, r, lon, lat, default)
    for _ in range(m.n(1500, 15000)):
        lat, lon = r.uniform(-90, 89.999), r.uniform(-180, 179.999)
        with m.case({"at": [lon, lat]}, "any", int(lat), int(lon)):
            one(m, r, lon, lat, default)


def one(m, r, lon, lat, default):
    g = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), float(r.uniform(-100, 100))])
    before = g.coordinate.tolist()
    ok_lo, ok_la = cells(lon), cells(lat)
    # SRTM naming
    prefix, ver, ext = str(r.choice(["", "srtm/", "a/b_"])), str(r.choice(["1arc_v3", "3arc_v2"])), str(r.choice([".tif", ".bil"]))
    tid = SRTMTileSet(prefix=prefix, version=ver, format_extension=ext).find_tile_id(g)
    m.event("srtm")
    want = {f"{prefix}{'n' if a >= 0 else 's'}{abs(a):02d}_{'e' if o >= 0 else 'w'}{abs(o):03d}_{ver}{ext}"
            for a in ok_la for o in ok_lo if -56 <= a <= 59}
    if any(not -56 <= a <= 59 for a in ok_la):
        want.add(None)
        m.event("outside")
    m.check(tid in want, "srtm-tile", f"{tid!r} instead of {sorted(map(str, want))}", lon=lon, lat=lat)
    # generic naming, default and configured
    if r.random() < 0.5:
        spec, ts, lim = "%od%oh/%ld%lh.dt2", default, (-90, 90, -180, 180)
    else:
        spec = str(r.choice(["%od%oh/%ld%lh.dt2", "%lh%ld_%oh%od.tif", "dem/%lH%ld%oH%od/dem.tif", "%oH%od%lH%ld%%x", "%ld%lm%ls%lH%od%om%os%oH.dt1"]))
        a0, a1 = sorted(int(v) for v in r.integers(-90, 91, 2))
        o0, o1 = sorted(int(v) for v in r.integers(-180, 181, 2))
        if r.random() < 0.4:  # a limit at the location's own cell
            c_lo, c_la = round(lon), round(lat)
            a0, a1 = (min(a0, c_la), c_la) if r.random() < 0.5 else (c_la, max(a1, c_la))
            o0, o1 = (min(o0, c_lo), c_lo) if r.random() < 0.5 else (c_lo, max(o1, c_lo))
        lim = (a0, a1, o0, o1)
        ts = GenericDEMTileSet(format_spec=spec, min_latitude_degrees=a0, max_latitude_degrees=a1,
                               min_longitude_degrees=o0, max_longitude_degrees=o1)
    tid = ts.find_tile_id(g)
    m.event("generic")
    want = set()
    for a in ok_la:
        for o in ok_lo:
            inside = lim[0] <= a < lim[1] and lim[2] <= o < lim[3]
            edge = lim[0] <= a <= lim[1] and lim[2] <= o <= lim[3]
            if edge:
                want.add(render(spec, a, o))
            # the limits themselves belong to the coverage
            exact = lim[0] <= math.degrees(g.latitude) <= lim[1] and lim[2] <= math.degrees(g.longitude) <= lim[3]
            if not inside and exact:
                m.event("on-limit")
            if not inside and not exact:
                want.add(None)
                m.event("outside")
    m.check(tid in want, "generic-tile", f"{tid!r} instead of {sorted(map(str, want))}", lon=lon, lat=lat, spec=spec, limits=lim)
    m.check(g.coordinate.tolist() == before, "input-mutated", "find_tile_id changed the coordinate")


def render(spec, a, o):
    t = {"%od": f"{abs(o):03d}", "%ld": f"{abs(a):02d}", "%oh": "e" if o >= 0 else "w", "%oH": "E" if o >= 0 else "W",
         "%lh": "n" if a >= 0 else "s", "%lH": "N" if a >= 0 else "S", "%lm": "00", "%ls": "00", "%om": "00", "%os": "00", "%%": "%"}
    return re.sub(r"%(?:[lo][dmshH]|%)", lambda mt: t[mt.group(0)], spec)
