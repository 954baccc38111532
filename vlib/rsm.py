"""Independent evaluation of polynomial RSM cameras (STDI-0002 Vol 1 App U) and generators of consistent ones."""

import math
from xml.etree import ElementTree as ET

import numpy as np

from .sar import ecef


def poly(pw, c, x, y, z):
    px, py, pz = pw
    a = np.asarray(c, float).reshape(pz + 1, py + 1, px + 1)
    return float(np.einsum("kji,i,j,k->", a, x ** np.arange(px + 1), y ** np.arange(py + 1), z ** np.arange(pz + 1)))


class Section:
    pass


class Rsm:
    def to_domain(self, lon, lat, h):
        if self.form == "R":
            return self.rot @ (ecef(lon, lat, h) - self.origin)
        if self.form == "H":
            return np.array([lon % (2 * math.pi), lat, h])
        return np.array([lon, lat, h])

    def low(self, lon, lat, h):
        x, y, z = self.to_domain(lon, lat, h)
        b = np.array([1, x, y, z, x * x, x * y, x * z, y * y, y * z, z * z])
        return float(self.low_c @ b), float(self.low_r @ b)  # col, row

    def section_float(self, col, row):
        return (row - self.min_row) / self.rsize, (col - self.min_col) / self.csize

    def section_for(self, col, row):
        fr, fc = self.section_float(col, row)
        i = min(max(math.floor(fr), 0), self.nr - 1)
        j = min(max(math.floor(fc), 0), self.nc - 1)
        return self.sections[i][j]

    def near_boundary(self, col, row, eps):
        fr, fc = self.section_float(col, row)
        return (abs(fr - round(fr)) * self.rsize < eps and 0 < round(fr) < self.nr) or (abs(fc - round(fc)) * self.csize < eps and 0 < round(fc) < self.nc)

    def project_section(self, s, lon, lat, h):
        d = (self.to_domain(lon, lat, h) - s.off) / s.scale
        r = poly(s.rn_p, s.rn, *d) / poly(s.rd_p, s.rd, *d)
        c = poly(s.cn_p, s.cn, *d) / poly(s.cd_p, s.cd, *d)
        return c * s.cscale + s.coff, r * s.rscale + s.roff

    def project(self, lon, lat, h):
        if self.nr * self.nc == 1:
            return self.project_section(self.sections[0][0], lon, lat, h)
        return self.project_section(self.section_for(*self.low(lon, lat, h)), lon, lat, h)

    def lonlat(self, u, v):
        """Fractional footprint position -> lon, lat (lon in (-pi, pi])."""
        lon = self.lon0 + u * self.dlon
        return (lon + math.pi) % (2 * math.pi) - math.pi, self.lat0 + v * self.dlat


def random_rsm(r, form=None, sections=None, straddle=None, quad=0.004):
    p = Rsm()
    p.form = form or str(r.choice(["G", "H", "R"]))
    p.width, p.height = int(10 ** r.uniform(3, 4.5)), 0
    p.height = int(p.width * 2 ** r.uniform(-1.4, 1.4))
    p.min_row, p.min_col = (0, 0) if r.random() < 0.5 else (int(r.integers(0, 5000)), int(r.integers(0, 5000)))
    gsd = 10 ** r.uniform(-0.4, 1.0)
    lat = math.radians(r.uniform(-75, 75))
    half_n = max(250.0, gsd * p.height / 2)
    half_e = max(250.0, gsd * p.width / 2)
    k = max(1.0, half_n / 40000.0, half_e / 40000.0)
    half_n, half_e = half_n / k, half_e / k
    p.gsd = max(half_n * 2 / p.height, half_e * 2 / p.width)
    p.gsd_min = min(half_n * 2 / p.height, half_e * 2 / p.width)
    p.dlat = half_n / 6371000.0
    p.dlon = half_e / 6371000.0 / math.cos(lat)
    lim = math.pi - 1.6 * p.dlon
    lon = r.uniform(-lim, lim)
    if p.form == "H":  # specified for images near the antimeridian
        lon = math.pi + r.uniform(-0.9, 0.9) * p.dlon if r.random() < 0.6 else math.pi * r.uniform(0.6, 0.95) * r.choice([-1, 1])
    if straddle or p.form == "R" and r.random() < 0.15:
        lon = math.pi + r.uniform(-0.5, 0.5) * p.dlon
    p.lon0, p.lat0 = lon, lat
    p.h0, p.dh = float(int(r.uniform(-50, 3000))), float(int(r.uniform(50, 600)))
    p.rot, p.origin = None, None
    if p.form == "R":
        slo, clo, sla, cla = math.sin(lon), math.cos(lon), math.sin(lat), math.cos(lat)
        enu = np.array([[-slo, clo, 0], [-sla * clo, -sla * slo, cla], [cla * clo, cla * slo, sla]])
        t = r.uniform(0, 2 * math.pi)
        p.rot = np.array([[math.cos(t), math.sin(t), 0], [-math.sin(t), math.cos(t), 0], [0, 0, 1]]) @ enu
        p.origin = ecef(lon, lat, 0.0)
    # hexahedron around the footprint, generously padded
    pad = 1.3
    verts = []
    for hh in (p.h0 - p.dh, p.h0 + p.dh):
        for v in (-pad, pad):
            for u in (-pad, pad):
                lo, la = lon + u * p.dlon, lat + v * p.dlat
                z, hh = hh, hh + float(r.uniform(-0.2, 0.2)) * p.dh  # no two corners at one height
                if p.form == "G":
                    verts.append(np.array([lo, la, hh]))
                elif p.form == "H":
                    verts.append(np.array([lo % (2 * math.pi), la, hh]))
                else:
                    verts.append(p.rot @ (ecef(lo, la, hh) - p.origin))
                hh = z
    p.verts = verts
    # STDI-0002: V1..V4 lower face, V1-V4 diagonal
    p.has_grp = bool(r.random() < 0.5)
    p.grp_h = p.h0 + float(r.uniform(-0.3, 0.3)) * p.dh
    if p.form == "R":
        p.grp = p.rot @ (ecef(lon, lat, p.grp_h) - p.origin)
    else:
        p.grp = np.array([lon % (2 * math.pi) if p.form == "H" else lon, lat, p.grp_h])
    # normalisation in domain coordinates
    arr = np.array(verts)
    off = (arr.max(axis=0) + arr.min(axis=0)) / 2
    scale = np.maximum((arr.max(axis=0) - arr.min(axis=0)) / 2, 1e-12)
    # base linear camera: col grows with footprint u, row with -v (then a mild rotation)
    du, dv = np.zeros(3), np.zeros(3)
    c0 = p.to_domain(lon, lat, p.h0)
    eps = 0.5
    if p.form == "R":
        du = (p.to_domain(lon + eps * p.dlon, lat, p.h0) - p.to_domain(lon - eps * p.dlon, lat, p.h0)) / (2 * eps)
        dv = (p.to_domain(lon, lat + eps * p.dlat, p.h0) - p.to_domain(lon, lat - eps * p.dlat, p.h0)) / (2 * eps)
        dw = (p.to_domain(lon, lat, p.h0 + 1) - p.to_domain(lon, lat, p.h0 - 1)) / 2 * p.dh
    else:
        du, dv, dw = np.array([p.dlon, 0, 0]), np.array([0, p.dlat, 0]), np.array([0, 0, p.dh])
    J = np.linalg.inv(np.column_stack([du, dv, dw]))  # domain offset -> (u, v, w)
    t = r.uniform(-0.3, 0.3)
    M = np.array([[math.cos(t), math.sin(t), r.uniform(-0.08, 0.08)], [math.sin(t), -math.cos(t), r.uniform(-0.08, 0.08)]]) * 0.75
    lin = M @ J @ np.diag(scale)  # (col_n, row_n) per normalised domain coordinate
    const = M @ J @ (off - c0)
    if sections is None:
        p.nr, p.nc = (1, 1) if r.random() < 0.6 else (int(r.integers(1, 4)), int(r.integers(1, 4)))
        if (p.nr, p.nc) != (1, 1) and p.nr * p.nc < 2:
            p.nr = 2
    else:
        p.nr, p.nc = sections
    p.rsize, p.csize = p.height / p.nr, p.width / p.nc
    small = 10 ** r.uniform(-6, -2.7)
    p.signature = 6.0
    p.sections = []
    for i in range(p.nr):
        row = []
        for j in range(p.nc):
            s = Section()
            s.i, s.j = i, j
            s.off, s.scale = off.copy(), scale.copy()
            s.roff, s.coff = p.min_row + p.height / 2.0, p.min_col + p.width / 2.0
            s.rscale, s.cscale = p.height / 2.0, p.width / 2.0

            def num(axis, shift):
                pw = (int(r.integers(1, 4)), int(r.integers(1, 4)), int(r.integers(1, 3)))
                a = r.uniform(-small, small, (pw[2] + 1, pw[1] + 1, pw[0] + 1))
                a[0, 0, 0] = const[axis] + shift
                a[0, 0, 1], a[0, 1, 0], a[1, 0, 0] = lin[axis]
                return pw, [float(v) for v in a.ravel()]

            def den():
                pw = (int(r.integers(0, 3)), int(r.integers(0, 3)), int(r.integers(0, 2)))
                a = r.uniform(-small, small, (pw[2] + 1, pw[1] + 1, pw[0] + 1))
                a[0, 0, 0] = 1.0
                return pw, [float(v) for v in a.ravel()]

            # adjacent sections differ by a few pixels, so that using the wrong one shows
            s.cn_p, s.cn = num(0, p.signature * ((i * 3 + j * 5) % 7) / s.cscale)
            s.rn_p, s.rn = num(1, p.signature * ((i * 5 + j * 2) % 7) / s.rscale)
            s.cd_p, s.cd = den()
            s.rd_p, s.rd = den()
            row.append(s)
        p.sections.append(row)
    # low order polynomial in raw domain coordinates
    g = lin / scale
    z = (const - g @ off)
    p.low_c, p.low_r = np.zeros(10), np.zeros(10)
    p.low_c[0] = z[0] * p.width / 2 + p.min_col + p.width / 2
    p.low_r[0] = z[1] * p.height / 2 + p.min_row + p.height / 2
    p.low_c[1:4], p.low_r[1:4] = g[0] * p.width / 2, g[1] * p.height / 2
    # plus a small quadratic form in the normalised domain coordinates, expanded into raw ones
    for low, size in ((p.low_c, p.width), (p.low_r, p.height)):
        a = r.uniform(-1, 1, (3, 3)) * quad * size / np.outer(scale, scale)
        q = a + a.T
        low[0] += off @ q @ off / 2
        low[1:4] -= q @ off
        low[4:] += [q[0, 0] / 2, q[0, 1], q[0, 2], q[1, 1] / 2, q[1, 2], q[2, 2] / 2]
    return p


def default_height(p):
    if p.has_grp:
        return p.grp_h
    return None  # average of the vertices; see vertex_height


def build(p, only=None):
    from aws.osml.photogrammetry import (
        RSMContext, RSMGroundDomain, RSMGroundDomainForm, RSMImageDomain, RSMLowOrderPolynomial, RSMPolynomial,
        RSMPolynomialSensorModel, RSMSectionedPolynomialSensorModel, WorldCoordinate,
    )

    gd = RSMGroundDomain(
        RSMGroundDomainForm(p.form), [WorldCoordinate(v) for v in p.verts],
        rectangular_coordinate_origin=WorldCoordinate(p.origin) if p.form == "R" else None,
        rectangular_coordinate_unit_vectors=p.rot.tolist() if p.form == "R" else None,
        ground_reference_point=WorldCoordinate(p.grp) if p.has_grp else None,
    )
    ctx = RSMContext(gd, RSMImageDomain(p.min_row, p.min_row + p.height - 1, p.min_col, p.min_col + p.width - 1))

    def one(s):
        return RSMPolynomialSensorModel(
            ctx, s.i + 1, s.j + 1, s.roff, s.coff, *[float(v) for v in s.off], s.rscale, s.cscale, *[float(v) for v in s.scale],
            RSMPolynomial(*s.rn_p, list(s.rn)), RSMPolynomial(*s.rd_p, list(s.rd)), RSMPolynomial(*s.cn_p, list(s.cn)), RSMPolynomial(*s.cd_p, list(s.cd)),
        )

    if only is not None:
        return one(only)
    grid = [[one(s) for s in row] for row in p.sections]
    if p.nr * p.nc == 1:
        return grid[0][0]
    return RSMSectionedPolynomialSensorModel(
        ctx, p.nr, p.nc, p.rsize, p.csize, RSMLowOrderPolynomial(p.low_r.tolist()), RSMLowOrderPolynomial(p.low_c.tolist()), grid)


def tre_xml(p, rnd=None, root=None):
    root = root if root is not None else ET.Element("tres")
    idt = ET.SubElement(root, "tre", name="RSMIDA", location="image")

    def f(t, name, v):
        ET.SubElement(t, "field", name=name, value=v if isinstance(v, str) else repr(v if isinstance(v, int) else float(v)))

    f(idt, "IID", "X")
    f(idt, "GRNDD", p.form)
    if p.form == "R":
        for a, v in zip("XYZ", p.origin):
            f(idt, f"{a}UOR", v)
        for b, row in zip("XYZ", p.rot):
            for a, v in zip("XYZ", row):
                f(idt, f"{a}U{b}R", v)
    for k, v in enumerate(p.verts, 1):
        for a, c in zip("XYZ", v):
            f(idt, f"V{k}{a}", c)
    for a, c in zip("XYZ", p.grp):
        f(idt, f"GRP{a}", float(c) if p.has_grp else " " * 21)
    f(idt, "FULLR", str(p.height))
    f(idt, "FULLC", str(p.width))
    f(idt, "MINR", str(p.min_row))
    f(idt, "MAXR", str(p.min_row + p.height - 1))
    f(idt, "MINC", str(p.min_col))
    f(idt, "MAXC", str(p.min_col + p.width - 1))
    tres = []
    for row in p.sections:
        for s in row:
            t = ET.Element("tre", name="RSMPCA", location="image")
            f(t, "RSN", f"{s.i + 1:03d}")
            f(t, "CSN", f"{s.j + 1:03d}")
            for n, v in (("RNRMO", s.roff), ("CNRMO", s.coff), ("XNRMO", s.off[0]), ("YNRMO", s.off[1]), ("ZNRMO", s.off[2]),
                         ("RNRMSF", s.rscale), ("CNRMSF", s.cscale), ("XNRMSF", s.scale[0]), ("YNRMSF", s.scale[1]), ("ZNRMSF", s.scale[2])):
                f(t, n, v)
            for pre, pw, c in (("RN", s.rn_p, s.rn), ("RD", s.rd_p, s.rd), ("CN", s.cn_p, s.cn), ("CD", s.cd_p, s.cd)):
                for a, e in zip("XYZ", pw):
                    f(t, f"{pre}PWR{a}", str(e))
                f(t, f"{pre}TRMS", str(len(c)))
                rep = ET.SubElement(t, "repeated", name=f"{pre}PCF", number=str(len(c)))
                for i, v in enumerate(c):
                    g = ET.SubElement(rep, "group", index=str(i))
                    ET.SubElement(g, "field", name=f"{pre}PCF", value=repr(float(v)))
            tres.append(t)
    if rnd is not None:
        rnd.shuffle(tres)
    if len(tres) > 1:
        t = ET.SubElement(root, "tre", name="RSMPIA", location="image")
        for pre, c in (("R", p.low_r), ("C", p.low_c)):
            for n, v in zip(["0", "X", "Y", "Z", "XX", "XY", "XZ", "YY", "YZ", "ZZ"], c):
                f(t, f"{pre}{n}", v)
        f(t, "RNIS", f"{p.nr:03d}")
        f(t, "CNIS", f"{p.nc:03d}")
        f(t, "TNIS", f"{p.nr * p.nc:03d}")
        f(t, "RSSIZ", p.rsize)
        f(t, "CSSIZ", p.csize)
    for t in tres:
        root.append(t)
    return root
