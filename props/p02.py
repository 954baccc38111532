"""P02 tie-point georeferencing: the exact projective map behind generated tie points decides every conversion."""

import math

import numpy as np
import pyproj
from osgeo import gdal, osr

from aws.osml.gdal import load_gdal_dataset
from aws.osml.gdal.gdal_sensor_model_builder import GDALGCPSensorModelBuilder
from aws.osml.gdal.projective_sensor_model_builder import ProjectiveSensorModelBuilder
from aws.osml.photogrammetry import GeodeticWorldCoordinate, ImageCoordinate, ProjectiveSensorModel
from vlib.sm import PlaneElevation, i2w, w2i, wrap
from xml.etree import ElementTree as ET

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
DEFAULT_CONFIG = True
SHARDS = {"quick": 32, "thorough": 64}
MIN = {"image_to_world": 4000, "world_to_image": 4000, "direct": 40, "gcps": 40, "corner-tre": 40, "file": 20, "tie-points": 300, "too-few": 10}
RULE = "distinct (source of tie points, footprint size, image size, number of points, location) configurations"
ASSUME = [
    "footprints 5 m to 200 km, images up to 60,000 pixels a side, ground sample distance at least 4 cm",
    "tie points that follow an exact projective map, or exactly four points in general position",
]


class Homography:
    """Exact map pixel <-> (lon, lat) radians, local to a centre so that roundoff stays small."""

    def __init__(self, r, npx, npy, size_m, persp=0.15):
        self.lon0, self.lat0 = r.uniform(-179, 179) if r.random() < 0.85 else r.choice([-180.0, 180.0]) + r.normal(0, 0.6 * math.degrees(size_m / 6371000.0)), math.degrees(math.asin(r.uniform(-0.985, 0.985)))
        self.lon0, self.lat0 = math.radians(self.lon0), math.radians(self.lat0)
        t = r.uniform(0, 2 * math.pi)
        rot = np.array([[math.cos(t), -math.sin(t)], [math.sin(t), math.cos(t)]]) @ np.diag([1.0, -1.0 if r.random() < 0.8 else 1.0])
        if r.random() < 0.3:
            rot = np.diag([1.0, -1.0])
        shear = np.array([[1.0, r.uniform(-0.3, 0.3)], [0.0, r.uniform(0.6, 1.5)]])
        s = size_m / 6371000.0
        self.a = np.diag([s / math.cos(self.lat0), s]) @ rot @ shear @ np.diag([1.0 / npx, 1.0 / npy])
        self.c = np.array([npx / 2.0, npy / 2.0])
        self.p = r.uniform(-persp, persp, 2) / np.array([npx, npy])

    def world(self, x, y):
        v = np.array([x, y]) - self.c
        d = self.a @ (v / (1 + self.p @ v))
        return wrap(self.lon0 + d[0]), self.lat0 + d[1]


def probe(m, model, hom, npx, npy, gsd, npts, floor=0.0):
    r = m.rng
    tol_px = 0.01 + 2e-4 / gsd * max(npx, npy) / 10000 + floor / gsd
    tol_rad = (2e-3 * max(npx, npy) / 10000 + floor) / 6.37e6
    for k in range(npts):
        x, y = r.uniform(-0.1, 1.1) * npx, r.uniform(-0.1, 1.1) * npy
        if k < 4:
            x, y = [(0, 0), (npx, 0), (npx, npy), (0, npy)][k]
        lon, lat = hom.world(x, y)
        em = PlaneElevation(r.uniform(-50, 4000), lon, lat, 0.02, 0.01) if r.random() < 0.3 else None
        g = i2w(m, model, float(x), float(y), em)
        m.check(abs(g.longitude) <= math.pi + 1e-12, "longitude-range", f"longitude {g.longitude} rad", pixel=[x, y])
        m.close([wrap(g.longitude - lon), g.latitude - lat], [0, 0], [tol_rad / math.cos(hom.lat0), tol_rad], "pixel-to-lonlat", pixel=[x, y])
        m.close(g.elevation, em.height(g.longitude, g.latitude) if em else 0.0, 1e-6, "elevation")
        c = w2i(m, model, lon, lat, float(r.choice([0.0, r.uniform(-400, 8000)])))
        m.close(c.coordinate, [x, y], tol_px, "lonlat-to-pixel", pixel=[x, y])


def run(m, tier, shard):
    r = m.rng
    d = m.scratch()
    for i in range(m.n(24, 220)):
        npx, npy = int(10 ** r.uniform(1.5, 4.7)), int(10 ** r.uniform(1.5, 4.7))
        gsd = 10 ** r.uniform(-1.3, 2)
        size = max(gsd * max(npx, npy), 5.0)
        size = min(size, 200000.0)
        gsd = size / max(npx, npy)
        src = ["direct", "gcps", "corner-tre", "file", "general"][i % 5]
        hom = Homography(r, npx, npy, size, persp=0.15 if size < 1e5 else 0.05)
        gsd_eff = gsd * 0.3
        npt = int(r.integers(4, 13))
        px = [(0, 0), (npx, 0), (npx, npy), (0, npy)]
        if src in ("direct", "gcps", "file"):
            if r.random() < 0.4:
                px = [(0.5, 0.5), (npx - 0.5, 0.5), (npx - 0.5, npy - 0.5), (0.5, npy - 0.5)]
            px = px + [(float(r.uniform(0, npx)), float(r.uniform(0, npy))) for _ in range(npt - 4)]
            order = r.permutation(len(px))
            px = [px[k] for k in order]
            if r.random() < 0.3:  # a regular grid of points, line by line
                nx, ny = int(r.integers(2, 14)), int(r.integers(2, 9))
                px = [(npx * a / (nx - 1), npy * b / (ny - 1)) for b in range(ny) for a in range(nx)]
                m.event("grid")
        with m.case({"source": src, "size": [npx, npy], "gsd": gsd, "points": len(px), "at": [math.degrees(hom.lon0), math.degrees(hom.lat0)]},
                    src, round(math.log10(size), 1), round(math.log10(npx * npy), 1), len(px), round(hom.lon0, 2)):
            m.event(src)
            if np.ptp([hom.world(*p)[0] for p in px]) > 6:
                m.event("crosses-antimeridian")
            if src == "direct":
                model = ProjectiveSensorModel([GeodeticWorldCoordinate([*hom.world(*p), float(r.uniform(0, 100))]) for p in px],
                                              [ImageCoordinate(list(p)) for p in px])
                probe(m, model, hom, npx, npy, gsd_eff, m.n(14, 20))
            elif src == "gcps":
                gcps = []
                for p in px:
                    lo, la = hom.world(*p)
                    gcps.append(gdal.GCP(math.degrees(lo), math.degrees(la), float(r.uniform(0, 500)), float(p[0]), float(p[1])))
                model = GDALGCPSensorModelBuilder(gcps).build()
                m.require(model is not None, "no-model", "ground control points produced no model")
                probe(m, model, hom, npx, npy, gsd_eff, m.n(14, 20))
                k = int(r.integers(0, 4))
                few = GDALGCPSensorModelBuilder(gcps[:k]).build()
                m.event("too-few")
                m.check(few is None, "too-few-points", f"a model was built from {k} tie points")
            elif src == "corner-tre":
                root = ET.Element("tres")
                tre = ET.SubElement(root, "tre", name="CSCRNA", location="image")
                ET.SubElement(tre, "field", name="PREDICT_CORNERS", value="Y")
                for nm, p in zip(["UL", "UR", "LR", "LL"], px):
                    lo, la = hom.world(*p)
                    for f, v in (("LAT", math.degrees(la)), ("LONG", math.degrees(lo)), ("HT", float(r.uniform(0, 1500)))):
                        ET.SubElement(tre, "field", name=f"{nm}CNR_{f}", value=repr(float(v)))
                model = ProjectiveSensorModelBuilder(root, npx, npy).build()
                m.require(model is not None, "no-model", "corner coordinates produced no model")
                probe(m, model, hom, npx, npy, gsd_eff, m.n(14, 20))
            elif src == "file":
                w, h = min(npx, 200), min(npy, 200)
                hom2 = Homography(r, w, h, max(5.0, gsd * max(w, h)))
                pxs = [(x * w / npx, y * h / npy) for x, y in px]
                lon0, lat0 = math.degrees(hom2.lon0), math.degrees(hom2.lat0)
                utm = int((lon0 + 180) // 6) % 60 + 1
                crs = ["EPSG:4326", None, "OGC:CRS84", f"EPSG:{(32600 if lat0 >= 0 else 32700) + utm}", "EPSG:3857", f"+proj=laea +lat_0={lat0:.2f} +lon_0={lon0:.2f} +datum=WGS84 +units=m",
                       "+proj=longlat +datum=WGS84 +pm=paris", "+proj=longlat +ellps=intl +towgs84=-87,-98,-121"][int(r.integers(8))]
                if abs(lat0) > 80 and crs and (crs.startswith("EPSG:32") or crs == "EPSG:3857"):
                    crs = "EPSG:4326"
                m.event("crs:" + ("other-datum-or-meridian" if "longlat" in crs else {"EP": "projected", "+p": "projected"}.get(crs[:2], "geographic")) if crs and crs != "EPSG:4326" else "crs:lonlat")
                to_crs = pyproj.Transformer.from_crs("EPSG:4326", crs or "EPSG:4326", always_xy=True)
                gcps = [gdal.GCP(*to_crs.transform(math.degrees(hom2.world(*p)[0]), math.degrees(hom2.world(*p)[1])), 0.0, p[0], p[1]) for p in pxs]
                path = f"{d}/g{i}.tif"
                ds = gdal.GetDriverByName("GTiff").Create(path, w, h, 1, gdal.GDT_Byte)
                sr = osr.SpatialReference()
                if crs:
                    sr.SetFromUserInput(crs)
                ds.SetGCPs(gcps, sr.ExportToWkt() if crs else "")
                ds = None
                ds, model = load_gdal_dataset(path)
                m.require(model is not None, "no-model", "a GeoTIFF with ground control points produced no sensor model")
                probe(m, model, hom2, w, h, max(5.0, gsd * max(w, h)) / max(w, h) * 0.3, 12, floor=0.05 if crs and "towgs84" in crs else 0.0)
                ds = None
            else:
                # four points in general position pin the map completely: each must be reproduced both ways
                quad = [(float(x), float(y)) for x, y in px]
                ws = []
                for x, y in quad:
                    lo, la = hom.world(x + r.uniform(-0.2, 0.2) * npx, y + r.uniform(-0.2, 0.2) * npy)
                    ws.append((lo, la))
                model = ProjectiveSensorModel([GeodeticWorldCoordinate([*w, 0.0]) for w in ws], [ImageCoordinate(list(p)) for p in quad])
                probe_quad(m, model, quad, ws, npx, npy, gsd_eff)


def probe_quad(m, model, quad, ws, npx, npy, gsd):
    big = max(npx, npy) / 10000
    for p, w in zip(quad, ws):
        m.event("tie-points")
        g = i2w(m, model, *p)
        m.close([wrap(g.longitude - w[0]), g.latitude - w[1]], [0, 0], max(1e-6, 3e-3 * big) / 6.37e6 / max(0.05, math.cos(w[1])), "tie-point-world")
        c = w2i(m, model, *w)
        m.close(c.coordinate, p, 0.02 + 3e-3 / gsd * big, "tie-point-pixel")
    # and it is one projective map: straight lines stay straight, and the two directions invert each other
    r = m.rng
    for _ in range(6):
        a, b = r.uniform(0, 1, 2), r.uniform(0, 1, 2)
        x, y = a * npx, b * npy
        g = i2w(m, model, float(x[0]), float(y[0]))
        c = w2i(m, model, g.longitude, g.latitude)
        m.close(c.coordinate, [x[0], y[0]], 0.02 + 3e-3 / gsd * big, "mutual-inverse")
    m.event("tie-points", 4)
