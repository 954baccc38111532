"""Rasters with known content, and reading of encoded tiles."""

import os

import numpy as np
from osgeo import gdal

NP = {gdal.GDT_Byte: np.uint8, gdal.GDT_UInt16: np.uint16, gdal.GDT_Int16: np.int16, gdal.GDT_UInt32: np.uint32, gdal.GDT_Int32: np.int32,
      gdal.GDT_Float32: np.float32, gdal.GDT_Float64: np.float64, gdal.GDT_UInt64: np.uint64, gdal.GDT_Int64: np.int64, gdal.GDT_CFloat32: np.complex64,
      gdal.GDT_CFloat64: np.complex128}
NAME = {k: gdal.GetDataTypeName(k) for k in NP}
RANGE = {gdal.GDT_Byte: (0, 255), gdal.GDT_UInt16: (0, 65535), gdal.GDT_Int16: (-32768, 32767), gdal.GDT_UInt32: (0, 2 ** 32 - 1), gdal.GDT_Int32: (-2 ** 31, 2 ** 31 - 1)}
ROUNDED = set(RANGE)
_n = [0]


def pixels(r, t, w, h, bands=1, smooth=False):
    """bands x h x w array covering the type's range (or a smooth picture)."""
    dt = NP[t]
    if smooth:
        y, x = np.mgrid[0:h, 0:w]
        out = []
        for b in range(bands):
            f, g = r.uniform(0.5, 3, 2)
            a = 0.5 + 0.35 * np.sin(f * x / max(w, 1) * 3 + b) * np.cos(g * y / max(h, 1) * 3)
            out.append(a)
        a = np.array(out)
        hi = 255 if t == gdal.GDT_Byte else 4000
        return (a * hi).astype(dt)
    if t in RANGE:
        lo, hi = RANGE[t]
        style = r.random()
        if style < 0.3:
            a = r.integers(lo, hi + 1, (bands, h, w), dtype=np.int64)
        else:
            c = int(r.integers(0, hi))
            s = int(min(hi - c, 10 ** r.uniform(0, 4)))
            a = r.integers(max(lo, c - s), min(hi, c + s) + 1, (bands, h, w), dtype=np.int64)
        return a.astype(dt)
    if t in (gdal.GDT_UInt64, gdal.GDT_Int64):
        return r.integers(0, 2 ** 62, (bands, h, w), dtype=np.int64).astype(dt)
    if t in (gdal.GDT_CFloat32, gdal.GDT_CFloat64):
        return (r.normal(0, 10, (bands, h, w)) + 1j * r.normal(0, 10, (bands, h, w))).astype(dt)
    return (r.normal(0, 10 ** r.uniform(-3, 6), (bands, h, w)) + r.uniform(-100, 100)).astype(dt)


def write(path, arr, t, driver="GTiff", options=(), geo=None, wkt=None, gcps=None):
    b, h, w = arr.shape
    if driver == "MEM":
        ds = gdal.GetDriverByName("MEM").Create("", w, h, b, t)
    else:
        ds = gdal.GetDriverByName(driver).Create(path, w, h, b, t, options=list(options))
    for i in range(b):
        ds.GetRasterBand(i + 1).WriteArray(arr[i])
    if geo is not None:
        ds.SetGeoTransform(geo)
    if wkt:
        ds.SetProjection(wkt)
    if gcps:
        ds.SetGCPs(*gcps)
    if driver == "MEM":
        return ds
    ds.FlushCache()
    ds = None
    return gdal.Open(path)


class Tile:
    """An encoded tile opened from its bytes alone."""

    def __init__(self, data, scratch, keep=False):
        _n[0] += 1
        self.path = os.path.join(scratch, f"tile{os.getpid()}_{_n[0]}.bin")
        with open(self.path, "wb") as fh:
            fh.write(bytes(data))
        self.ds = gdal.Open(self.path)

    def array(self):
        a = self.ds.ReadAsArray()
        return a[None] if a.ndim == 2 else a

    def close(self):
        self.ds = None
        for ext in ("", ".aux.xml"):
            if os.path.exists(self.path + ext):
                os.remove(self.path + ext)


def vsimem():
    """files (not empty directories) in GDAL's memory file system"""
    out = []
    for n in gdal.ReadDirRecursive("/vsimem/") or []:
        if os.path.basename(n) not in ("", ".", ".."):
            out.append("/vsimem/" + n)
    return sorted(out)
