"""P16 image formats: files of many formats are written under names that lie about them; the driver that wrote the file, and that GDAL identifies
it by, decides what must be reported."""

import hashlib
import os

import numpy as np
from osgeo import gdal, osr

from aws.osml.gdal import get_image_extension

gdal.DontUseExceptions()
SHARDS = {"quick": 16, "thorough": 64}
COMMON = {"NITF": "NITF", "GTiff": "TIFF", "JPEG": "JPEG"}
# extensions each format registers, first one first
FORMATS = {"NITF": ["ntf"], "GTiff": ["tif", "tiff"], "JPEG": ["jpg", "jpeg"], "PNG": ["png"], "JP2OpenJPEG": ["jp2", "j2k"], "DTED": ["dt0", "dt1", "dt2"], "GIF": ["gif"],
           "BMP": ["bmp"], "HFA": ["img"], "PCIDSK": ["pix"], "AAIGrid": ["asc"], "WEBP": ["webp"], "PNM": ["pgm", "ppm", "pnm"], "VRT": ["vrt"], "GTX": ["gtx"],
           "BT": ["bt"], "ENVI": [], "FITS": ["fits"], "SGI": ["rgb"], "ILWIS": ["mpr", "mpl"], "CALS": ["cal", "ct1"], "PAux": []}
MIN = {"replaced": 200, "reported": 600, "own-extension": 200, "other-extension": 100, "no-extension": 100, "lying-folder": 200, "upper-case": 100, "format:NITF": 30, "format:GTiff": 30, "format:JPEG": 30,
       "format:DTED": 10, "format:JP2OpenJPEG": 10, "second-extension": 60, "no-registered-extension": 10}
RULE = "distinct (format, extension in the file name, extensions in the folder names, letter case) combinations"
ASSUME = ["file names that carry at most one of the extensions of their format", "drivers that this GDAL can write and reads back under any name"]


def written(r, fmt, path):
    """Write a small image of a format; False when this GDAL can not, or does not recognise its own product under this name."""
    drv = gdal.GetDriverByName(fmt)
    if drv is None:
        return False
    n = 121 if fmt == "DTED" else int(r.integers(16, 40))
    t = gdal.GDT_Int16 if fmt in ("DTED", "BT") else gdal.GDT_Float32 if fmt in ("GTX", "AAIGrid") else gdal.GDT_Byte
    bands = 3 if fmt in ("WEBP",) or fmt in COMMON and r.random() < 0.4 else 1
    mem = gdal.GetDriverByName("MEM").Create("", n, n, bands, t, ["NBITS=1"] if fmt == "CALS" else [])
    for b in range(bands):
        mem.GetRasterBand(b + 1).WriteArray(r.integers(0, 2 if fmt == "CALS" else 100, (n, n)).astype(np.uint8))
    if fmt == "CALS":
        mem.GetRasterBand(1).SetMetadataItem("NBITS", "1", "IMAGE_STRUCTURE")
    if fmt in ("DTED", "GTX", "BT"):
        s = osr.SpatialReference()
        s.ImportFromEPSG(4326)
        mem.SetProjection(s.ExportToWkt())
        mem.SetGeoTransform([10 - 0.5 / 120, 1 / 120, 0, 46 + 0.5 / 120, 0, -1 / 120])
    gdal.PushErrorHandler("CPLQuietErrorHandler")
    try:
        if drv.GetMetadataItem("DCAP_CREATECOPY"):
            ds = drv.CreateCopy(path, mem, strict=0)
        else:
            ds = drv.Create(path, n, n, bands, t)
            if ds is not None:
                ds.GetRasterBand(1).WriteArray(mem.GetRasterBand(1).ReadAsArray())
        if ds is None:
            return False
        ds = None
        ds = gdal.Open(path)
        return ds is not None and ds.GetDriver().ShortName == fmt
    except RuntimeError:
        return False
    finally:
        gdal.PopErrorHandler()


def mixed(r, s):
    return "".join(c.upper() if r.random() < 0.5 else c.lower() for c in s)


def snapshot(d):
    out = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            q = os.path.join(p, f)
            out[q] = hashlib.blake2b(open(q, "rb").read()).hexdigest()
    return out


def run(m, tier, shard):
    r = m.rng
    top = m.scratch()
    every = [e for v in FORMATS.values() for e in v]
    for i in range(m.n(80, 400)):
        fmt = ["NITF", "GTiff", "JPEG"][int(r.integers(0, 3))] if r.random() < 0.3 else list(FORMATS)[int(r.integers(0, len(FORMATS)))]
        own = FORMATS[fmt]
        style = str(r.choice(["own", "other", "none"], p=[0.6, 0.2, 0.2])) if own else str(r.choice(["other", "none"]))
        ext = {"own": lambda: own[int(r.integers(0, len(own)))], "other": lambda: str(r.choice([e for e in every if not any(e.startswith(o) or o.startswith(e) for o in own)])),
               "none": lambda: ""}[style]()
        case = int(r.integers(0, 3))
        shown = ext.upper() if case == 1 else mixed(r, ext) if case == 2 else ext
        folders = [str(r.choice(["data", "Images 2024", "süd", "a"])) + str(r.integers(0, 1000)) for _ in range(int(r.integers(0, 3)))]
        lying = r.random() < 0.5
        if lying:  # folders named like an image, of this format or another
            folders.insert(0, "set%d." % i + mixed(r, str(r.choice(own + every if own else every))))
            m.event("lying-folder")
        name = str(r.choice(["image", "tif", "ntf_dt1", "jp2 j2k", "n45", "IMG", "v1_0", "ppm-jpg"])) + str(i) + ("." + shown if shown else "")
        with m.case({"format": fmt, "folders": folders, "name": name}, fmt, ext, case, tuple(f.rpartition(".")[2] for f in folders if "." in f)):
            d = os.path.join(top, str(i))
            where = os.path.join(d, *folders)
            os.makedirs(where)
            path = os.path.join(where, name)
            if not written(r, fmt, path):
                m.event("not-writable")
                continue
            before = snapshot(d)
            old = os.getcwd()
            asked = path
            if r.random() < 0.3:
                os.chdir(d)
                asked = os.path.relpath(path, d)
            elif fmt == "NITF" and r.random() < 0.4:
                asked = "NITF_IM:0:" + path
            try:
                got = get_image_extension(asked)
                again = get_image_extension(asked)
            finally:
                os.chdir(old)
            want = COMMON.get(fmt) or (ext.upper() if style == "own" else own[0].upper() if own else "UNKNOWN")
            m.event("reported")
            m.event("format:" + fmt)
            m.event({"own": "own-extension", "other": "other-extension", "none": "no-extension"}[style])
            m.event("upper-case", int(case > 0 and bool(ext)))
            m.event("second-extension", int(style == "own" and ext != own[0]))
            m.event("no-registered-extension", int(not own))
            m.check(got == want, "format", f"{got!r} instead of {want!r}", driver=fmt)
            m.check(again == got, "repeated", f"{again!r} when asked again")
            m.check(snapshot(d) == before, "folder-changed", "asking for the format changed the folder")
            # another image in its place
            fmt2 = str(r.choice([f for f in FORMATS if f != fmt]))
            own2 = FORMATS[fmt2]
            if ext.lower() not in own2 and any(ext.startswith(o) or o.startswith(ext) for o in own2 if ext):
                continue
            for f in os.listdir(where):
                if os.path.isfile(os.path.join(where, f)):
                    os.unlink(os.path.join(where, f))
            if written(r, fmt2, path):
                m.event("replaced")
                got = get_image_extension(path)
                want = COMMON.get(fmt2) or (ext.upper() if ext.lower() in own2 else own2[0].upper() if own2 else "UNKNOWN")
                m.check(got == want, "replaced", f"{got!r} instead of {want!r} for the image that took the place of another", driver=fmt2)
