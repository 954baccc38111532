"""P01 affine georeferencing: an independent evaluation of geotransform + CRS decides every pixel <-> world conversion."""

import math

import numpy as np
import pyproj
from osgeo import gdal, osr

from aws.osml.gdal import SensorModelFactory, load_gdal_dataset
from aws.osml.gdal.gdal_sensor_model_builder import GDALAffineSensorModelBuilder
from aws.osml.photogrammetry import GDALAffineSensorModel
from vlib.sm import PlaneElevation, i2w, w2i

gdal.DontUseExceptions()
GDAL_EXCEPTIONS = True  # half of the shards
DEFAULT_CONFIG = True
SHARDS = {"quick": 32, "thorough": 64}
MIN = {"image_to_world": 3000, "world_to_image": 3000, "crs-transforms": 100, "file-datasets": 15, "other-datum-or-meridian": 30, "oracle:singular": 5}
RULE = "distinct (CRS, rotation class, scale, location) configurations of randomly georeferenced rasters"
ASSUME = [
    "pyproj/PROJ itself is trusted for the CRS mathematics; the oracle uses a separately built 2-D transformer",
    "points are taken inside and up to one image width around the raster, where the CRS is valid, and within +-180 degrees of longitude for geographic CRSs",
]

# CRS name, lon range, lat range, unit scale for pixels
PARIS, BESSEL, INTL = "+proj=longlat +datum=WGS84 +pm=paris", "+proj=longlat +ellps=bessel +towgs84=598.1,73.7,418.2,0.202,0.045,-2.455,6.7", "+proj=longlat +ellps=intl +towgs84=-87,-98,-121"
SHIFTED = [PARIS, BESSEL, INTL, "EPSG:4807"]  # longitudes and latitudes, but not those of WGS 84: another meridian, datum or (4807) grads
GEO = [None, "EPSG:4326", "EPSG:4269", "OGC:CRS84", "EPSG:4979"] + SHIFTED
PROJ = ["UTM", "EPSG:3857", "EPSG:3031", "EPSG:3413", "EPSG:2263", "EPSG:3395", "EPSG:2154", "EPSG:3035", "EPSG:6933", "EPSG:2263+6360"]
DATUM_SHIFT = {"EPSG:3035", "EPSG:2154", "EPSG:2263", "EPSG:2263+6360"}  # PROJ's own inverse is only good to a millimetre here
AREA = {
    PARIS: ((-170, 170), (-80, 80)), BESSEL: ((5, 15), (47, 55)), INTL: ((-10, 30), (36, 60)), "EPSG:4807": ((-4.5, 9.5), (42, 51)),
    "EPSG:3031": ((-180, 180), (-85, -62)), "EPSG:3413": ((-180, 180), (62, 85)), "EPSG:2263": ((-74.5, -72), (40.5, 41.2)),
    "EPSG:2154": ((-2, 7), (43, 50)), "EPSG:3035": ((-5, 20), (40, 60)), "EPSG:2263+6360": ((-74.5, -72), (40.5, 41.2)),
}


def config(m):
    r = m.rng
    geo = r.random() < 0.4
    name = GEO[r.integers(len(GEO))] if geo else PROJ[r.integers(len(PROJ))]
    (lo0, lo1), (la0, la1) = AREA.get(name, ((-179, 179), (-80, 80)))
    lon, lat = r.uniform(lo0, lo1), r.uniform(la0, la1)
    if geo and name not in SHIFTED and r.random() < 0.15:
        lon = float(r.choice([179.9995, -179.9995, 0.0]))
    if name == "UTM":
        zone = int((lon + 180) // 6) + 1
        name = f"EPSG:{(32600 if lat >= 0 else 32700) + zone}"
    gsd = 10 ** r.uniform(-1, 2.5)
    unit = gsd / 111320.0 if geo else gsd
    kind = r.choice(["northup", "southup", "rotated", "sheared", "swapped", "aniso"])
    if kind == "northup":
        a = np.array([[unit, 0], [0, -unit]])
    elif kind == "southup":
        a = np.array([[unit, 0], [0, unit]])
    elif kind == "swapped":
        a = np.array([[0, unit], [unit * r.uniform(0.5, 2), 0]])
    elif kind == "aniso":
        a = np.array([[unit * r.uniform(0.2, 5), 0], [0, -unit * r.uniform(0.2, 5)]])
    else:
        t = r.uniform(0, 2 * math.pi)
        a = unit * np.array([[math.cos(t), math.sin(t)], [math.sin(t), -math.cos(t)]])
        if kind == "sheared":
            a = a @ np.array([[1, r.uniform(-0.5, 0.5)], [r.uniform(-0.3, 0.3), r.uniform(0.5, 2)]])
    if name is None:
        crs, ref, x, y = None, None, lon, lat
    else:
        crs = pyproj.CRS.from_user_input(name)
        ref = pyproj.Transformer.from_crs(crs.to_2d() if name == "EPSG:4979" else crs, "OGC:CRS84", always_xy=True)
        x, y = ref.transform(lon, lat, direction="INVERSE")
    # the drawn location is the middle of a w x h raster
    w, h = int(r.integers(2, 4000)), int(r.integers(2, 4000))
    x0, y0 = np.array([x, y]) - a @ np.array([w / 2, h / 2])
    gt = [float(x0), float(a[0, 0]), float(a[0, 1]), float(y0), float(a[1, 0]), float(a[1, 1])]
    return name, crs, ref, gt, a, kind, gsd, w, h


def expect(ref, gt, x, y):
    cx = gt[0] + gt[1] * x + gt[2] * y
    cy = gt[3] + gt[4] * x + gt[5] * y
    return (cx, cy) if ref is None else ref.transform(cx, cy)


def probe(m, model, name, ref, gt, a, gsd, w, h, npts):
    r = m.rng
    # roundoff of a position in the CRS, in pixels, drives the pixel tolerance of the inverse
    mag = max(abs(gt[0]), abs(gt[3]), abs(gt[1]) * w, abs(gt[5]) * h, 1.0)
    smin = np.linalg.svd(a, compute_uv=False)[-1]
    tol_px = 1e-3 + 64 * mag * 2.3e-16 / smin + ((2e-3 if name in DATUM_SHIFT else 2e-5) / smin if ref is not None and mag > 1000 else 0.0)
    if ref is not None and mag <= 1000:
        tol_px += (5e-8 if name in SHIFTED else 2e-10) / smin
    for k in range(npts):
        x, y = r.uniform(-0.2, 1.2) * w, r.uniform(-0.2, 1.2) * h
        if k == 0:
            x, y = 0.0, 0.0
        elif k == 1:
            x, y = float(w), float(h)
        elif k == 2:
            x, y = 0.5, h - 0.5
        wlon, wlat = expect(ref, gt, x, y)
        if not (math.isfinite(wlon) and math.isfinite(wlat)) or abs(wlat) > 89:
            continue
        cx = gt[0] + gt[1] * x + gt[2] * y
        if ref is not None and mag <= 1000 and abs(cx) > 179.9999:
            continue  # longitude written past 180 in a geographic CRS: which turn is meant is not defined
        if mag > 1000 and ref is not None and abs(ref.transform(wlon, wlat, direction="INVERSE")[0] - cx) > 10.0:
            continue  # past the edge of a world-wide projection, where the same ground has another coordinate
        em = None
        if r.random() < 0.3:
            em = PlaneElevation(r.uniform(-100, 3000), math.radians(wlon), math.radians(wlat), 0.01, -0.02)
        g = i2w(m, model, x, y, em)
        m.close([math.degrees(g.longitude), math.degrees(g.latitude)], [wlon, wlat], 2e-9, "pixel-to-lonlat",
                pixel=[x, y], crs=name, gt=gt)
        want_h = em.height(g.longitude, g.latitude) if em else 0.0
        m.close(g.elevation, want_h, 1e-6, "elevation", with_model=em is not None)
        # any height: the affine model has none
        hh = float(r.choice([0.0, g.elevation, r.uniform(-400, 9000)]))
        c = w2i(m, model, math.radians(wlon), math.radians(wlat), hh)
        m.close(c.coordinate, [x, y], tol_px, "lonlat-to-pixel", crs=name, gt=gt, height=hh)
        m.event("round-trips")


def run(m, tier, shard):
    r = m.rng
    for _ in range(m.n(14, 120)):
        name, crs, ref, gt, a, kind, gsd, w, h = config(m)
        with m.case({"crs": name, "gt": gt, "kind": kind, "size": [w, h]}, name, kind, round(math.log10(gsd)), round(gt[0], 3)):
            wkt = None
            if crs is not None:
                wkt = crs.to_wkt() if r.random() < 0.5 else crs.to_wkt("WKT1_GDAL") if name not in ("OGC:CRS84", "EPSG:4979") else crs.to_wkt()
                m.event("crs-transforms")
            if name in SHIFTED:
                m.event("other-datum-or-meridian")
            before = list(gt)
            if r.random() < 0.5:
                model = GDALAffineSensorModel(gt, wkt) if wkt else GDALAffineSensorModel(gt)
            else:
                model = GDALAffineSensorModelBuilder(gt, wkt).build()
            m.check(gt == before, "input-mutated", "geotransform list changed")
            probe(m, model, name, ref, gt, a, gsd, w, h, m.n(18, 30))
    # the same guarantee for a file opened through the loader
    d = m.scratch()
    for i in range(m.n(4, 20)):
        name, crs, ref, gt, a, kind, gsd, w, h = config(m)
        if name in (None, "EPSG:4979", "OGC:CRS84", "EPSG:2263+6360"):
            continue
        w, h = min(w, 300), min(h, 300)
        with m.case({"file crs": name, "gt": gt, "kind": kind, "size": [w, h]}, "file", name, kind, round(gt[0], 3)):
            path = f"{d}/f{i}.tif"
            ds = gdal.GetDriverByName("GTiff").Create(path, w, h, 1, gdal.GDT_Byte)
            sr = osr.SpatialReference()
            sr.SetFromUserInput(name)
            ds.SetProjection(sr.ExportToWkt())
            ds.SetGeoTransform(gt)
            ds.GetRasterBand(1).Fill(7)
            ds = None
            ds, model = load_gdal_dataset(path)
            m.require(model is not None, "no-model", "a georeferenced GeoTIFF produced no sensor model")
            probe(m, model, name, ref, gt, a, gsd, w, h, 12)
            m.event("file-datasets")
            ds = None
    # a transform that cannot be inverted is refused rather than answered with nonsense
    for _ in range(2):
        u = float(10 ** r.uniform(-5, 2))
        gt = [float(r.uniform(-100, 100)), 0.0, 0.0, float(r.uniform(-50, 50)), 0.0, 0.0]
        if r.random() < 0.5:
            gt[1 if r.random() < 0.5 else 5] = u
        with m.case({"singular": gt}, "singular", gt[0]):
            m.raises(lambda: GDALAffineSensorModel(gt), ValueError, "singular", gt=gt)
