"""P12 text form of a location: every rendering is parsed back by an independent reader and compared with the location."""

import math
import re

import numpy as np

from aws.osml.photogrammetry import GeodeticWorldCoordinate

SHARDS = {"quick": 32, "thorough": 128}
MIN = {"dms": 10000, "templates": 4000, "whole-seconds": 2000, "carry": 400}
RULE = "distinct (quadrant, carry class, template shape) combinations rendered and re-read"
ASSUME = ["degrees/minutes/seconds carry whole seconds, so a rendering may denote any position within one arc second"]
DMS = re.compile(r"^(\d{2})(\d{2})(\d{2})([NS])(\d{3})(\d{2})(\d{2})([EW])$")


def draw(m):
    r = m.rng
    lat, lon = r.uniform(-90, 90), r.uniform(-180, 180)
    kind = int(r.integers(6))
    if kind == 1:  # whole seconds
        lat, lon = int(r.integers(-324000, 324001)) / 3600.0, int(r.integers(-648000, 648001)) / 3600.0
    elif kind == 2:  # whole minutes / degrees
        lat, lon = int(r.integers(-5400, 5401)) / 60.0, int(r.integers(-180, 181)) * 1.0
    elif kind == 3:  # just short of / just past a carry
        lat = int(r.integers(-90, 90)) + float(r.choice([-1, 1])) * 10.0 ** -r.uniform(3, 13)
        lon = int(r.integers(-179, 179)) + int(r.integers(0, 60)) / 60 + float(r.choice([-1, 1])) * 10.0 ** -r.uniform(3, 13)
    elif kind == 4:
        lat, lon = float(r.choice([0.0, -0.0, 90.0, -90.0, 1e-9, -1e-9])), float(r.choice([0.0, 180.0, -180.0, 1e-9, -1e-9]))
    elif kind == 5:  # single digit degrees
        lat, lon = r.uniform(-10, 10), r.uniform(-100, 100)
    return max(-90.0, min(90.0, lat)), lon, kind


def judge(m, sign_char, pos, neg, d, mi, s, deg, what):
    total = abs(deg) * 3600.0
    got = d * 3600 + mi * 60 + s
    m.check(0 <= mi < 60 and 0 <= s < 60, "dms-range", f"{what}: {d} {mi} {s}", deg=deg)
    m.check(abs(total - got) < 1.0 + 1e-3, "dms-value", f"{what}: {d}d{mi}m{s}s for {deg!r}", deg=deg)
    n = round(total)
    if abs(total - n) < 1e-4:
        m.event("whole-seconds")
        m.check(got == n, "dms-exact", f"{what}: {d}d{mi}m{s}s for exactly {n} arc seconds", deg=deg)
    if total > 1e-9:
        m.check(sign_char == (neg if deg < 0 else pos), "hemisphere", f"{what}: {sign_char} for {deg!r}")
    else:
        m.check(sign_char in (pos, neg), "hemisphere", f"{what}: {sign_char}")


def run(m, tier, shard):
    r = m.rng
    for _ in range(m.n(2200, 20000)):
        lat, lon, kind = draw(m)
        el = float(np.round(r.uniform(-500, 9000), int(r.integers(0, 5))))
        g = GeodeticWorldCoordinate([math.radians(lon), math.radians(lat), el])
        with m.case({"lat": lat, "lon": lon, "kind": kind}, lat < 0, lon < 0, kind, int(abs(lat) // 10), int(abs(lon) // 20)):
            if kind == 3:
                m.event("carry")
            before = g.coordinate.copy()
            t = g.to_dms_string()
            mt = DMS.match(t)
            m.require(mt is not None, "dms-shape", f"{t!r} is not ddmmssXdddmmssY", lat=lat, lon=lon)
            d, mi, s, hc, od, om, os_, oc = mt.groups()
            lat_d, lon_d = math.degrees(g.latitude), math.degrees(g.longitude)
            judge(m, hc, "N", "S", int(d), int(mi), int(s), lat_d, "latitude")
            judge(m, oc, "E", "W", int(od), int(om), int(os_), lon_d, "longitude")
            m.event("dms")
            m.check(np.array_equal(before, g.coordinate), "input-mutated", "formatting changed the coordinate")
            m.check(f"{g}" == f"{g:%ld%lm%ls%lH %od%om%os%oH %E}", "default-spec", f"{g}")
            # arbitrary templates: rendering is the concatenation of what each directive stands for
            known = {
                "%ld": d, "%lm": mi, "%ls": s, "%lH": hc, "%lh": hc.lower(), "%od": od, "%om": om, "%os": os_, "%oH": oc,
                "%oh": oc.lower(), "%%": "%", "%L": ("num", g.latitude), "%O": ("num", g.longitude),
                "%l": ("deg", lat_d), "%o": ("deg", lon_d), "%E": ("num", el), "%X": "", "%q": "",
            }
            if r.random() < 0.6:
                toks, shape = [], []
                for _k in range(int(r.integers(1, 9))):
                    if r.random() < 0.55:
                        k = str(r.choice(list(known)))
                        toks.append((k, known[k]))
                        shape.append(k)
                        if k in ("%l", "%o"):  # a following literal must not turn it into another directive
                            toks.append(("/", "/"))
                    else:
                        lit = str(r.choice(["_", "tile-", "/", ".dt2", " ", "n", "E", "dmsH", "é"]))
                        toks.append((lit, lit))
                        shape.append("lit")
                if toks[-1][0] == "/" and toks[-1][1] == "/" and shape[-1] in ("%l", "%o") and r.random() < 0.7:
                    toks.pop()  # the pattern ends with the directive
                    m.event("ends-with-directive")
                elif r.random() < 0.1:
                    toks.append(("%", "%"))  # nothing follows: a literal
                spec = "".join(a for a, _b in toks)
                rx, num = "", []
                for _a, b in toks:
                    if isinstance(b, tuple):
                        rx += r"(-?(?:\d+\.?\d*(?:e[+-]?\d+)?|\d*\.\d+))"
                        num.append(b)
                    else:
                        rx += re.escape(b)
                out = format(g, spec)
                # adjacent numeric directives cannot be told apart: judge them only when separated
                adj = any(isinstance(toks[i][1], tuple) and (isinstance(toks[i + 1][1], tuple) or toks[i + 1][1] == "" or toks[i + 1][1][:1].isdigit() or toks[i + 1][1][:1] in ".eE-")
                          for i in range(len(toks) - 1)) or any(
                    isinstance(toks[i + 1][1], tuple) and not isinstance(toks[i][1], tuple) and (toks[i][1] == "" or toks[i][1][-1:].isdigit() or toks[i][1][-1:] in ".eE-")
                    for i in range(len(toks) - 1))
                m.event("templates")
                if not adj:
                    mm = re.fullmatch(rx, out)
                    m.seen("tmpl", tuple(shape))
                    if m.check(mm is not None, "template", f"{spec!r} rendered {out!r}", spec=spec):
                        for (kind_, want), txt in zip(num, mm.groups()):
                            got = float(txt)
                            if kind_ == "deg":
                                m.close(abs(got), abs(want), 1e-9, "decimal-degrees", spec=spec, out=out)
                                if abs(want) > 1e-9:
                                    m.check((got < 0) == (want < 0), "decimal-degree-sign", f"{out!r} for {want!r} degrees")
                            else:
                                m.close(got, want, 1e-9, "number", spec=spec, out=out)
