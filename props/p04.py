"""P04 replacement sensor model: an independent polynomial evaluation decides projections and section choice."""

import math

import numpy as np

from aws.osml.gdal.rsm_sensor_model_builder import RSMSensorModelBuilder
from aws.osml.photogrammetry import ConstantElevationModel, GeodeticWorldCoordinate, ImageCoordinate, WorldCoordinate
from aws.osml.photogrammetry.sensor_model import SensorModelOptions
from vlib import rsm
from vlib.sar import geodetic
from vlib.sm import PlaneElevation, i2w, w2i

SHARDS = {"quick": 64, "thorough": 128}
MIN = {"world_to_image": 3000, "image_to_world": 400, "form:G": 20, "form:H": 20, "form:R": 20, "sectioned": 20, "with-terrain": 100,
       "with-guess": 60, "antimeridian": 10, "from-metadata": 40, "outside-sections": 20, "normalized": 500}
RULE = "distinct random cameras (ground domain form, section grid, footprint, location) x query kinds"
ASSUME = [
    "cameras with a dominant linear part over their ground domain; rectangular domains stay clear of the antimeridian",
    "the inverse is only required to land within 0.75 pixels (or 0.25 m) of the pixel asked for",
    "longitudes are compared modulo one turn",
]


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(12, 90)):
        p = rsm.random_rsm(r, form="GHR"[i % 3])
        with m.case({"form": p.form, "sections": [p.nr, p.nc], "size": [p.width, p.height], "first": [p.min_col, p.min_row],
                     "at": [math.degrees(p.lon0), math.degrees(p.lat0)]}, p.form, p.nr, p.nc, round(p.lon0, 3), p.width):
            m.event("form:" + p.form)
            if i % 2:
                model = rsm.build(p)
            else:
                model = RSMSensorModelBuilder(rsm.tre_xml(p, m.rnd)).build()
                m.require(model is not None, "no-model", "complete RSM records produced no model")
                m.event("from-metadata")
            multi = p.nr * p.nc > 1
            if multi:
                m.event("sectioned")
            tol = 1e-5 + 1e-9 * max(p.width, p.height)
            for k in range(m.n(36, 60)):
                u, v = r.uniform(-1.2, 1.2, 2)
                lon, lat = p.lonlat(u, v)
                h = p.h0 + r.uniform(-1, 1) * p.dh
                if abs(abs(lon) - math.pi) < 0.02:
                    m.event("antimeridian")
                if multi:
                    lc, lr = p.low(lon, lat, h)
                    if p.near_boundary(lc, lr, 1e-3):
                        continue
                    if not (p.min_row <= lr < p.min_row + p.height and p.min_col <= lc < p.min_col + p.width):
                        m.event("outside-sections")
                want = p.project(lon, lat, h)
                if p.form == "H" and r.random() < 0.5:
                    lon = lon % (2 * math.pi)
                c = w2i(m, model, lon, lat, h)
                m.close(c.coordinate, want, tol, "projection", at=[lon, lat, h], form=p.form)
            gd = model.context.ground_domain
            for _ in range(3):
                lon, lat = p.lonlat(*r.uniform(-1.2, 1.2, 2))
                h = p.h0 + r.uniform(-1, 1) * p.dh
                x = gd.geodetic_to_ground_domain_coordinate(GeodeticWorldCoordinate([lon, lat, h]))
                m.event("ground-domain")
                m.close(x.coordinate, p.to_domain(lon, lat, h), 1e-6 if p.form == "R" else 1e-12, "ground-domain", form=p.form)
                g = gd.ground_domain_coordinate_to_geodetic(x)
                turn = (g.longitude - lon + math.pi) % (2 * math.pi) - math.pi
                m.close([turn, g.latitude - lat, g.elevation - h], [0, 0, 0], [1e-12, 1e-12, 1e-4], "ground-domain-inverse", form=p.form)
            one = p.sections[0][0]
            piece = rsm.build(p, one) if multi else model
            for _ in range(2):
                g3, px = one.off + r.uniform(-1.5, 1.5, 3) * one.scale, [one.coff + r.uniform(-1.5, 1.5) * one.cscale, one.roff + r.uniform(-1.5, 1.5) * one.rscale]
                m.event("normalized")
                n3 = piece.normalize_world_coordinate(WorldCoordinate(list(map(float, g3))))
                m.close(n3.coordinate, (g3 - one.off) / one.scale, 1e-9, "normalized-ground")
                m.close(piece.denormalize_world_coordinate(n3).coordinate, g3, 1e-9 * (1 + np.max(np.abs(g3))), "normalized-ground-inverse")
                n2 = piece.normalize_image_coordinate(ImageCoordinate([float(c) for c in px]))
                m.close(n2.coordinate, [(px[0] - one.coff) / one.cscale, (px[1] - one.roff) / one.rscale], 1e-9, "normalized-pixel")
                m.close(piece.denormalize_image_coordinate(n2).coordinate, px, 1e-6, "normalized-pixel-inverse")
            vh = [geodetic(np.linalg.solve(p.rot, v) + p.origin)[2] if p.form == "R" else v[2] for v in p.verts]
            dflt = p.grp_h if p.has_grp else float(np.mean(vh))
            for k in range(m.n(5, 8)):
                # a pixel that the ground domain really covers: project a ground point first
                em = None
                if k % 2:
                    m.event("with-terrain")
                    hh = p.h0 + r.uniform(-0.6, 0.6) * p.dh
                    em = (ConstantElevationModel(hh) if r.random() < 0.4 else
                          PlaneElevation(hh, p.lon0, p.lat0, *(r.uniform(-0.3, 0.3, 2) * p.dh / (6371000.0 * min(p.dlat, p.dlon * math.cos(p.lat0))))))
                col = p.min_col + r.uniform(0.06, 0.94) * p.width
                row = p.min_row + r.uniform(0.06, 0.94) * p.height
                if multi and p.near_boundary(col, row, 1e-3):
                    continue
                sec = p.section_for(col, row) if multi else p.sections[0][0]
                opts = None
                if k >= 2 and r.random() < 0.7:
                    m.event("with-guess")
                    gl, ga = p.lonlat(*r.uniform(-0.4, 0.4, 2))
                    opts = {SensorModelOptions.INITIAL_GUESS: [gl, ga] if r.random() < 0.7 else np.array([gl, ga])}
                    if r.random() < 0.6:
                        opts[SensorModelOptions.INITIAL_SEARCH_DISTANCE] = math.radians(0.005)
                g = i2w(m, model, col, row, em, opts)
                m.check(abs(g.longitude) <= math.pi + 1e-12, "longitude-range", f"longitude {g.longitude} rad")
                surface = dflt if em is None else (em.constant_elevation if isinstance(em, ConstantElevationModel) else em.height(g.longitude, g.latitude))
                m.close(g.elevation, surface, 1e-3 if em is None else 1e-6, "on-surface", terrain=em is not None)
                back = p.project_section(sec, g.longitude, g.latitude, g.elevation)
                err = math.hypot(back[0] - col, back[1] - row)
                m.stat("inverse-px", err)
                m.check(err <= max(0.75, 0.25 / p.gsd_min), "inverse", f"answer projects {err:.3f} px from the pixel asked for",
                        pixel=[col, row], terrain=em is not None, guess=opts and list(opts.values()), answer=g.coordinate)
