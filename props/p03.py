"""P03 rational polynomial camera: an independent evaluation of the RPC00B equations decides projections; inverse answers
are judged by projecting them back through that evaluation on the surface they claim to lie on."""

import math

import numpy as np

from aws.osml.photogrammetry import ConstantElevationModel
from aws.osml.photogrammetry.sensor_model import SensorModelOptions
from vlib import rpc
from vlib.sm import PlaneElevation, i2w, w2i

DEFAULT_CONFIG = True
SHARDS = {"quick": 64, "thorough": 128}
MIN = {"world_to_image": 4000, "image_to_world": 400, "with-terrain": 100, "with-guess": 100, "from-metadata": 40}
RULE = "distinct random cameras (footprint, image size, term magnitudes, location) x query kinds"
ASSUME = [
    "cameras with a dominant linear part and denominators bounded away from zero over the footprint, as in real products; image aspect ratio up to 3",
    "the inverse is only required to land within 0.75 pixels (or 0.25 m on the ground) of the pixel asked for: it is a simplex search with that resolution",
]


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(10, 90)):
        p = rpc.random_rpc(r)
        with m.case({"rpc": {k: p[k] for k in ("line_off", "samp_off", "lat_off", "long_off", "height_off", "line_scale", "lat_scale")}},
                    round(p["long_off"], 2), round(p["lat_off"], 2), int(p["line_scale"])):
            if i % 2:
                model = rpc.build(p)
            else:
                model = rpc.build_from_xml(p, m.rnd)
                m.require(model is not None, "no-model", "a complete RPC00B record produced no model")
                m.event("from-metadata")
            for _ in range(m.n(40, 60)):
                l, q, h = r.uniform(-1.2, 1.2), r.uniform(-1.2, 1.2), r.uniform(-1.2, 1.2)
                lon, lat, z = p["long_off"] + l * p["long_scale"], p["lat_off"] + q * p["lat_scale"], p["height_off"] + h * p["height_scale"]
                want = rpc.project(p, lon, lat, z)
                if abs(lon) > 180:
                    m.event("across-antimeridian")
                    if r.random() < 0.7:
                        lon -= math.copysign(360, lon)
                c = w2i(m, model, math.radians(lon), math.radians(lat), z)
                scale = max(p["line_scale"], p["samp_scale"])
                m.close(c.coordinate, want, 1e-6 * scale / 1000 + 1e-12 * scale / min(p["lat_scale"], p["long_scale"]), "projection", at=[lon, lat, z])
            for k in range(m.n(5, 8)):
                x = p["samp_off"] + r.uniform(-0.9, 0.9) * p["samp_scale"]
                y = p["line_off"] + r.uniform(-0.9, 0.9) * p["line_scale"]
                em = None
                if k % 2:
                    m.event("with-terrain")
                    hh = p["height_off"] + r.uniform(-0.6, 0.6) * p["height_scale"]
                    em = (ConstantElevationModel(hh) if r.random() < 0.4 else
                          PlaneElevation(hh, math.radians(p["long_off"]), math.radians(p["lat_off"]), *(r.uniform(-0.3, 0.3, 2) * p["height_scale"] / (111320.0 * min(p["lat_scale"], p["long_scale"])))))
                opts = None
                if k >= 2 and r.random() < 0.7:
                    m.event("with-guess")
                    gl = math.radians(p["long_off"] + r.uniform(-0.5, 0.5) * p["long_scale"])
                    ga = math.radians(p["lat_off"] + r.uniform(-0.5, 0.5) * p["lat_scale"])
                    opts = {SensorModelOptions.INITIAL_GUESS: [gl, ga] if r.random() < 0.7 else np.array([gl, ga])}
                    if r.random() < 0.6:
                        opts[SensorModelOptions.INITIAL_SEARCH_DISTANCE] = math.radians(0.005)
                g = i2w(m, model, x, y, em, opts)
                m.check(abs(g.longitude) <= math.pi + 1e-12, "longitude-range", f"longitude {g.longitude} rad")
                surface = p["height_off"] if em is None else (em.constant_elevation if isinstance(em, ConstantElevationModel) else em.height(g.longitude, g.latitude))
                m.close(g.elevation, surface, 1e-6, "on-surface", terrain=em is not None)
                back = rpc.project(p, math.degrees(g.longitude), math.degrees(g.latitude), g.elevation)
                gsd = p["lat_scale"] * 111320.0 / p["line_scale"]
                err = math.hypot(back[0] - x, back[1] - y)
                m.stat("inverse-px", err)
                m.check(err <= max(0.75, 0.25 / gsd), "inverse", f"answer projects {err:.3f} px from the pixel asked for", pixel=[x, y], terrain=em is not None, guess=opts is not None)
