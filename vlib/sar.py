"""Independent model of SICD Volume 3 projections, and generators of physically consistent SICD / SIDD metadata.

Nothing here imports the toolkit. XML is written and read with ElementTree only.
"""

import math
import re
import xml.etree.ElementTree as ET

import numpy as np
from numpy.polynomial import polynomial as npoly

A = 6378137.0
F = 1 / 298.257223563
E2 = F * (2 - F)


def ecef(lon, lat, h):
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    return np.array(
        [
            (n + h) * math.cos(lat) * math.cos(lon),
            (n + h) * math.cos(lat) * math.sin(lon),
            (n * (1 - E2) + h) * math.sin(lat),
        ]
    )


def geodetic(p):
    """Fixed point iteration on the meridian ellipse (Bowring start), independent of PROJ."""
    x, y, z = p
    lon = math.atan2(y, x)
    r = math.hypot(x, y)
    if r < 1e-9:
        return lon, math.copysign(math.pi / 2, z), abs(z) - A * (1 - F)
    lat = math.atan2(z, r * (1 - E2))
    for _ in range(30):
        n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
        new = math.atan2(z + E2 * n * math.sin(lat), r)
        if abs(new - lat) < 1e-15:
            lat = new
            break
        lat = new
    n = A / math.sqrt(1 - E2 * math.sin(lat) ** 2)
    if abs(lat) < math.pi / 4:
        h = r / math.cos(lat) - n
    else:
        h = z / math.sin(lat) - n * (1 - E2)
    return lon, lat, h


def up_vec(lon, lat):
    return np.array([math.cos(lat) * math.cos(lon), math.cos(lat) * math.sin(lon), math.sin(lat)])


def unit(v):
    return v / np.linalg.norm(v)


class SarRef:
    """Pixel -> (R, Rdot, ARP, VARP) straight from the standard's equations, plus exact plane geometry."""

    def __init__(self, p):
        self.p = p
        self.arp = [np.asarray(c, float) for c in p["arp"]]
        self.varp = [npoly.polyder(c) if len(c) > 1 else np.zeros(1) for c in self.arp]
        self.scp = np.asarray(p["scp"], float)
        self.urow, self.ucol = np.asarray(p["urow"], float), np.asarray(p["ucol"], float)
        lon, lat, h = geodetic(self.scp)
        self.scp_lle = (lon, lat, h)
        if p.get("gpn") is not None:
            self.n = unit(np.asarray(p["gpn"], float))
        else:
            self.n = up_vec(lon, lat)

    def pos(self, t):
        return np.array([npoly.polyval(t, c) for c in self.arp]), np.array([npoly.polyval(t, c) for c in self.varp])

    def xy(self, col, row):
        """image coordinate of the (possibly chipped) array -> scp centred metres"""
        p = self.p
        return (
            (row + p["first_row"] - p["scp_row"]) * p["row_ss"],
            (col + p["first_col"] - p["scp_col"]) * p["col_ss"],
        )

    def contour_xy(self, x, y):
        p = self.p
        t = float(npoly.polyval2d(x, y, np.asarray(p["tcoa"], float)))
        ap, av = self.pos(t)
        g = p["grid"]
        if g in ("PLANE", "XRGYCR", "XCTYAT"):
            ip = self.scp + x * self.urow + y * self.ucol
            d = ap - ip
            r = np.linalg.norm(d)
            return r, float(av @ d) / r, ap, av
        d = ap - self.scp
        rs = np.linalg.norm(d)
        rds = float(av @ d) / rs
        if g == "RGAZIM" and p["algo"] == "PFA":
            th = npoly.polyval(t, p["polar"])
            dth = npoly.polyval(t, npoly.polyder(p["polar"]))
            ks = npoly.polyval(th, p["ksf"])
            dks = npoly.polyval(th, npoly.polyder(p["ksf"]) if len(p["ksf"]) > 1 else [0.0])
            a = x * math.cos(th) + y * math.sin(th)
            c = -x * math.sin(th) + y * math.cos(th)
            return rs + ks * a, rds + (dks * a + ks * c) * dth, ap, av
        if g == "RGAZIM" and p["algo"] == "RGAZCOMP":
            return rs + x, rds - np.linalg.norm(av) * p["az_sf"] * y, ap, av
        if g == "RGZERO":
            rca = p["r_ca_scp"] + x
            tca = npoly.polyval(y, p["tca"])
            v2 = float(np.sum(self.pos(tca)[1] ** 2))
            dr = float(npoly.polyval2d(x, y, np.asarray(p["drsf"], float)))
            dt = t - tca
            r = math.sqrt(rca**2 + dr * v2 * dt**2)
            return r, dr * v2 * dt / r, ap, av
        raise ValueError(g)

    def contour(self, col, row):
        return self.contour_xy(*self.xy(col, row))

    def residual(self, col, row, point):
        """(range error m, range-rate error m/s) of an ECEF point with respect to the contour of a pixel"""
        r, rd, ap, av = self.contour(col, row)
        d = ap - point
        rp = np.linalg.norm(d)
        return rp - r, float(av @ d) / rp - rd

    def side(self, col, row, point):
        """'L' / 'R': which side of the velocity vector the point lies on, seen from above"""
        _, _, ap, av = self.contour(col, row)
        left = np.cross(unit(ap), av)
        return "L" if float(left @ (point - ap)) > 0 else "R"

    def to_pixel(self, point):
        """Reference scene-to-image: Newton on the two contour equations from a linear start."""
        d = point - self.scp
        g = np.array([[1, self.urow @ self.ucol], [self.urow @ self.ucol, 1]])
        xy = np.linalg.solve(g, np.array([d @ self.urow, d @ self.ucol]))

        def f(v):
            r, rd, ap, av = self.contour_xy(v[0], v[1])
            dd = ap - point
            rp = np.linalg.norm(dd)
            return np.array([rp - r, (float(av @ dd) / rp - rd) * 100.0])

        for _ in range(60):
            f0 = f(xy)
            h = 1.0
            j = np.column_stack([(f(xy + [h, 0]) - f(xy - [h, 0])) / (2 * h), (f(xy + [0, h]) - f(xy - [0, h])) / (2 * h)])
            step = np.linalg.solve(j, -f0)
            nrm = np.linalg.norm(step)
            if nrm > 20000:
                step *= 20000 / nrm
            xy = xy + step
            if nrm < 1e-6:
                break
        p = self.p
        return (
            xy[1] / p["col_ss"] + p["scp_col"] - p["first_col"],
            xy[0] / p["row_ss"] + p["scp_row"] - p["first_row"],
        )


# ---------------------------------------------------------------------------------------------------------------------
def random_geometry(rng, airborne=False, lat_limit=75.0, max_squint=12.0):
    """Platform and scene geometry: SCP, ARP polynomials, slant plane vectors and side of track."""
    lat = math.radians(rng.uniform(-lat_limit, lat_limit))
    lon = math.radians(rng.uniform(-180, 180))
    if rng.random() < 0.1:
        lon = math.radians(rng.choice([-180, 180]) + rng.uniform(-0.01, 0.01))
        lon = (lon + math.pi) % (2 * math.pi) - math.pi
    h = float(rng.uniform(-50, 3000))
    scp = ecef(lon, lat, h)
    up = up_vec(lon, lat)
    east = np.array([-math.sin(lon), math.cos(lon), 0])
    north = np.cross(up, east)
    side = "L" if rng.random() < 0.5 else "R"
    az = rng.uniform(0, 2 * math.pi)  # direction from scene to the platform's ground point
    graz = math.radians(rng.uniform(20, 65))
    slant = float(rng.uniform(8e3, 60e3) if airborne else rng.uniform(550e3, 1200e3))
    if not airborne:
        graz = math.radians(rng.uniform(28, 65))
    horiz = math.cos(az) * north + math.sin(az) * east
    arp0 = scp + slant * (math.cos(graz) * horiz + math.sin(graz) * up)
    # velocity: roughly perpendicular to the look direction with some squint; side decides its sense
    look = unit(scp - arp0)
    upa = unit(arp0)
    # left of track means cross(up, v) . look > 0
    vdir = unit(np.cross(look, upa))  # cross(up, v).look > 0 for v = cross(look, up)
    if side == "R":
        vdir = -vdir
    squint = math.radians(rng.uniform(-max_squint, max_squint))
    vdir = unit(math.cos(squint) * vdir + math.sin(squint) * unit(look - (look @ vdir) * vdir))
    speed = float(rng.uniform(80, 250) if airborne else rng.uniform(7000, 7700))
    v0 = speed * vdir
    acc = -upa * (speed**2 / np.linalg.norm(arp0)) if not airborne else rng.normal(0, 0.05, 3)
    t0 = float(rng.uniform(0.5, 5.0))
    # ARP(t) = arp0 + v0 (t-t0) + acc/2 (t-t0)^2 + small cubic, expanded in t
    jerk = rng.normal(0, 1e-4, 3)
    arp = []
    for k in range(3):
        c = npoly.polyadd(
            [arp0[k]],
            npoly.polymul([-t0, 1], [v0[k]]),
        )
        c = npoly.polyadd(c, npoly.polymul(npoly.polypow([-t0, 1], 2), [acc[k] / 2]))
        c = npoly.polyadd(c, npoly.polymul(npoly.polypow([-t0, 1], 3), [jerk[k] / 6]))
        arp.append([float(x) for x in c])
    # slant plane vectors
    urow = look.copy()
    spn = np.cross(v0, scp - arp0)
    if side == "R":
        spn = -spn
    spn = unit(spn)
    ucol = unit(np.cross(spn, urow))
    return dict(scp=scp, lon=lon, lat=lat, h=h, up=up, north=north, east=east, side=side, arp0=arp0, v0=v0, t0=t0,
                arp=arp, urow=urow, ucol=ucol, spn=spn, slant=slant, speed=speed, graz=graz)


def _unequal_orders(rng, tcoa, slope, half):
    n1, n2 = [(2, 3), (3, 2), (1, 4), (3, 1), (2, 4), (2, 6), (6, 2), (1, 7)][int(rng.integers(8))]
    c = np.zeros((n1, n2))
    for i in range(n1):
        for j in range(n2):
            k = i + j
            if k:
                c[i, j] = float(rng.uniform(-0.05, 0.05)) * slope * half / half**k
    c[0, 0] = tcoa[0][0]
    if n2 > 1:
        c[0, 1] = tcoa[0][1]
    return c.tolist()


def random_sicd(rng, kind=None, airborne=None, version="1.2.1", chip=None):
    """Parameters of a consistent SICD product; `kind` in PLANE XRGYCR XCTYAT PFA RGAZCOMP RGZERO."""
    kind = kind or str(rng.choice(["PLANE", "XRGYCR", "XCTYAT", "PFA", "RGAZCOMP", "RGZERO"]))
    airborne = bool(rng.random() < 0.3) if airborne is None else airborne
    # zero-Doppler grids are formed near broadside; far from it a linear closest-approach polynomial is not a consistent product
    g = random_geometry(rng, airborne, max_squint=0.5 if kind == "RGZERO" else 12.0)
    rows, cols = int(rng.integers(400, 6000)), int(rng.integers(400, 6000))
    ss = (0.1, 0.4) if airborne else (0.2, 1.5)
    cap = 0.08 * g["slant"] / max(rows, cols)  # scene small with respect to the stand-off range
    ss = (min(ss[0], cap), min(ss[1], cap))
    p = dict(
        version=version,
        scp=g["scp"], urow=g["urow"], ucol=g["ucol"], arp=g["arp"], side=g["side"],
        full_rows=rows, full_cols=cols, num_rows=rows, num_cols=cols, first_row=0, first_col=0,
        scp_row=rows // 2 + int(rng.integers(-50, 50)), scp_col=cols // 2 + int(rng.integers(-50, 50)),
        row_ss=float(rng.uniform(*ss)), col_ss=float(rng.uniform(*ss)),
        arppos=g["arp0"], arpvel=g["v0"], gpn=None, algo="OTHER",
    )
    t0 = g["t0"]
    slope = 1.0 / g["speed"]
    p["tcoa"] = [[t0]] if rng.random() < 0.4 else [
        [t0, float(rng.uniform(-0.5, 0.5) * slope)],
        [float(rng.uniform(-0.05, 0.05) * slope), 0.0],
    ]
    if len(p["tcoa"]) > 1 and rng.random() < 0.4:
        # higher, unequal orders in range and azimuth; every term moves the time by a small part of the linear one
        half = (rows * p["row_ss"] + cols * p["col_ss"]) / 2
        p["tcoa"] = _unequal_orders(rng, p["tcoa"], slope, half)
    if kind in ("PLANE", "XRGYCR", "XCTYAT"):
        p["grid"] = kind
        p["algo"] = str(rng.choice(["RMA", "OTHER"]))
        if kind == "PLANE" and rng.random() < 0.5:
            # ground-ish plane, rotated axes
            rot = rng.uniform(0, 2 * math.pi)
            tilt = unit(g["up"] + rng.normal(0, 0.05, 3))
            e = unit(np.cross(tilt, rng.normal(0, 1, 3)))
            n = np.cross(tilt, e)
            p["urow"] = math.cos(rot) * e + math.sin(rot) * n
            p["ucol"] = np.cross(tilt, p["urow"])
            if rng.random() < 0.4:  # oblique grid
                ang = math.radians(rng.uniform(60, 120))
                p["ucol"] = math.cos(ang) * p["urow"] + math.sin(ang) * p["ucol"]
    elif kind == "PFA":
        p["grid"], p["algo"] = "RGAZIM", "PFA"
        # polar angle of the line of sight in the slant plane, ~ v/r per second
        rate = g["speed"] * math.sqrt(1 - float(unit(g["v0"]) @ g["urow"]) ** 2) / g["slant"]
        sgn = 1.0 if float(g["v0"] @ g["ucol"]) < 0 else -1.0
        rate *= sgn
        # polar(t) = rate (t - t0) + small quadratic
        q = float(rng.uniform(-1, 1)) * abs(rate) * 1e-3
        p["polar"] = [-rate * t0 + q * t0 * t0, rate - 2 * q * t0, q]
        p["ksf"] = [1.0, float(rng.uniform(-2e-3, 2e-3)), float(rng.uniform(0.2, 0.6))]
        if rng.random() < 0.4:  # shorter and longer polynomials than the usual quadratic
            p["ksf"] = p["ksf"][: int(rng.integers(1, 3))] if rng.random() < 0.6 else p["ksf"] + rng.uniform(-0.1, 0.1, int(rng.integers(1, 3))).tolist()
        lon, lat, _ = geodetic(g["scp"])
        p["gpn"] = unit(up_vec(lon, lat) + (rng.normal(0, 0.02, 3) if rng.random() < 0.5 else 0))
    elif kind == "RGAZCOMP":
        p["grid"], p["algo"] = "RGAZIM", "RGAZCOMP"
        # d(cos DCA) per metre of azimuth: -(uCol . uV) / R style scale factor
        vdir = unit(g["v0"])
        c = float(vdir @ g["urow"])
        sgn = 1.0 if float(vdir @ g["ucol"]) > 0 else -1.0
        p["az_sf"] = sgn * math.sqrt(1 - c * c) / g["slant"]
        p["tcoa"] = [[t0]]
    elif kind == "RGZERO":
        p["grid"] = "RGZERO"
        p["algo"] = "RMA"
        # closest approach geometry: for the local trajectory find tca of the SCP
        arp = [np.asarray(c) for c in g["arp"]]

        def pv(t):
            return np.array([npoly.polyval(t, c) for c in arp]), np.array([npoly.polyval(t, npoly.polyder(c)) for c in arp])

        t = t0
        for _ in range(50):
            a, v = pv(t)
            t = t - float((a - g["scp"]) @ v) / float(v @ v)
        a, v = pv(t)
        p["r_ca_scp"] = float(np.linalg.norm(a - g["scp"]))
        look = unit(g["scp"] - a)
        spn = unit(np.cross(v, g["scp"] - a)) * (1 if g["side"] == "L" else -1)
        p["urow"] = look
        p["ucol"] = unit(np.cross(spn, look))
        sgn = 1.0 if float(p["ucol"] @ v) > 0 else -1.0
        acc = np.array([npoly.polyval(t, npoly.polyder(c, 2)) for c in arp])
        k = 1.0 + float(acc @ (a - g["scp"])) / float(v @ v)  # curvature of range squared, as the Doppler-rate scale factor
        p["tca"] = [t, sgn / (np.linalg.norm(v) * k)]
        p["drsf"] = [[k * float(rng.uniform(0.99, 1.01))]] if rng.random() < 0.5 else [[k, float(rng.uniform(-2e-8, 2e-8))], [float(rng.uniform(-2e-8, 2e-8)), float(rng.uniform(-1e-12, 1e-12))]]
        dt = float(rng.uniform(-0.3, 0.3)) if rng.random() < 0.5 else 0.0
        p["tcoa"] = [[t + dt, p["tca"][1]]]
        a, v = pv(t + dt)
        p["arppos"], p["arpvel"] = a, v
    if chip if chip is not None else rng.random() < 0.4:
        p["first_row"], p["first_col"] = int(rng.integers(0, rows // 2)), int(rng.integers(0, cols // 2))
        p["num_rows"] = int(rng.integers(100, rows - p["first_row"]))
        p["num_cols"] = int(rng.integers(100, cols - p["first_col"]))
    p["kind"] = kind
    return p


def _sub(parent, tag, text=None, **attr):
    e = ET.SubElement(parent, tag, {k: str(v) for k, v in attr.items()})
    if text is not None:
        e.text = text if isinstance(text, str) else repr(float(text)) if isinstance(text, float) else str(text)
    return e


def _f(x):
    return repr(float(x))


def _xyz(parent, tag, v, ns=""):
    e = _sub(parent, tag)
    for n, c in zip("XYZ", v):
        _sub(e, ns + n, _f(c))
    return e


def _poly1(parent, tag, c, ns="", sparse_order=0):
    e = _sub(parent, tag, order1=len(c) - 1 + sparse_order)
    for i, x in enumerate(c):
        if x != 0.0 or i == 0:
            _sub(e, ns + "Coef", _f(x), exponent1=i)
    return e


def _poly2(parent, tag, c, ns=""):
    c = np.atleast_2d(np.asarray(c, float))
    e = _sub(parent, tag, order1=c.shape[0] - 1, order2=c.shape[1] - 1)
    for i in range(c.shape[0]):
        for j in range(c.shape[1]):
            if c[i, j] != 0.0 or (i == 0 and j == 0):
                _sub(e, ns + "Coef", _f(c[i, j]), exponent1=i, exponent2=j)
    return e


def sparse(rng, p):
    """Give the position polynomials a gap: a term that is absent below a small one (centimetres at the time of the scene)."""
    c, u, v = np.atleast_2d(np.asarray(p["tcoa"], float)), p["row_ss"] * p["full_rows"], p["col_ss"] * p["full_cols"]
    t = max(1.0, float(sum(abs(c[i, j]) * u**i * v**j for i in range(c.shape[0]) for j in range(c.shape[1]))))  # no pixel's time is later
    p["arp"] = [list(c) + [0.0, float(rng.uniform(0.01, 0.05) * rng.choice([-1, 1])) / t ** (len(c) + 1)] for c in p["arp"]]
    return p


def respell(rng, xml):
    """The same polynomials: coefficients in another order, and orders larger than the coefficients need."""
    def shuffled(mt):
        parts = re.findall(r"<(?:\w+:)?Coef [^>]*>[^<]*</(?:\w+:)?Coef>", mt.group(0))
        rng.shuffle(parts)
        return "".join(parts)
    xml = re.sub(r"(?:<(?:\w+:)?Coef [^>]*>[^<]*</(?:\w+:)?Coef>\s*){2,}", shuffled, xml)
    return re.sub(r'(order[12])="(\d+)"', lambda mt: f'{mt.group(1)}="{int(mt.group(2)) + (int(rng.integers(1, 3)) if rng.random() < 0.2 else 0)}"', xml)


def sicd_xml(p, pixel_type="RE32F_IM32F"):
    r = ET.Element("SICD", {"xmlns": f"urn:SICD:{p['version']}"})
    ci = _sub(r, "CollectionInfo")
    _sub(ci, "CollectorName", "SYNTH")
    _sub(ci, "CoreName", p.get("core_name", "core"))
    rm = _sub(ci, "RadarMode")
    _sub(rm, "ModeType", "SPOTLIGHT")
    _sub(ci, "Classification", "UNCLASSIFIED")
    idt = _sub(r, "ImageData")
    _sub(idt, "PixelType", pixel_type)
    if p.get("amp_table") is not None:
        at = _sub(idt, "AmpTable", size=256)
        for i, a in enumerate(p["amp_table"]):
            _sub(at, "Amplitude", _f(a), index=i)
    _sub(idt, "NumRows", p["num_rows"])
    _sub(idt, "NumCols", p["num_cols"])
    _sub(idt, "FirstRow", p["first_row"])
    _sub(idt, "FirstCol", p["first_col"])
    fi = _sub(idt, "FullImage")
    _sub(fi, "NumRows", p["full_rows"])
    _sub(fi, "NumCols", p["full_cols"])
    sp = _sub(idt, "SCPPixel")
    _sub(sp, "Row", p["scp_row"])
    _sub(sp, "Col", p["scp_col"])
    gd = _sub(r, "GeoData")
    _sub(gd, "EarthModel", "WGS_84")
    scp = _sub(gd, "SCP")
    _xyz(scp, "ECF", p["scp"])
    lon, lat, h = geodetic(p["scp"])
    llh = _sub(scp, "LLH")
    _sub(llh, "Lat", _f(math.degrees(lat)))
    _sub(llh, "Lon", _f(math.degrees(lon)))
    _sub(llh, "HAE", _f(h))
    ic = _sub(gd, "ImageCorners")
    for i, n in enumerate(["1:FRFC", "2:FRLC", "3:LRLC", "4:LRFC"]):
        e = _sub(ic, "ICP", index=n)
        _sub(e, "Lat", _f(math.degrees(lat)))
        _sub(e, "Lon", _f(math.degrees(lon)))
    g = _sub(r, "Grid")
    _sub(g, "ImagePlane", "SLANT")
    _sub(g, "Type", p["grid"])
    _poly2(g, "TimeCOAPoly", p["tcoa"])
    for tag, u, ss in (("Row", p["urow"], p["row_ss"]), ("Col", p["ucol"], p["col_ss"])):
        e = _sub(g, tag)
        _xyz(e, "UVectECF", u)
        _sub(e, "SS", _f(ss))
        _sub(e, "ImpRespWid", _f(ss))
        _sub(e, "Sgn", "-1")
        _sub(e, "ImpRespBW", "0.8")
        _sub(e, "KCtr", "60.0")
        _sub(e, "DeltaK1", "-0.4")
        _sub(e, "DeltaK2", "0.4")
    po = _sub(r, "Position")
    ap = _sub(po, "ARPPoly")
    for n, c in zip("XYZ", p["arp"]):
        _poly1(ap, n, c)
    im = _sub(r, "ImageFormation")
    _sub(im, "TxRcvPolarizationProc", "V:V")
    _sub(im, "ImageFormAlgo", p["algo"])
    sc = _sub(r, "SCPCOA")
    _sub(sc, "SCPTime", _f(np.atleast_2d(p["tcoa"])[0, 0]))
    _xyz(sc, "ARPPos", p["arppos"])
    _xyz(sc, "ARPVel", p["arpvel"])
    _sub(sc, "SideOfTrack", p["side"])
    if p["algo"] == "PFA":
        e = _sub(r, "PFA")
        _xyz(e, "FPN", p["gpn"])
        _xyz(e, "IPN", np.cross(p["urow"], p["ucol"]))
        _sub(e, "PolarAngRefTime", "0.0")
        _poly1(e, "PolarAngPoly", p["polar"])
        _poly1(e, "SpatialFreqSFPoly", p["ksf"])
    if p["algo"] == "RGAZCOMP":
        e = _sub(r, "RgAzComp")
        _sub(e, "AzSF", _f(p["az_sf"]))
    if p["grid"] == "RGZERO":
        e = _sub(r, "RMA")
        _sub(e, "RMAlgoType", "OMEGA_K")
        _sub(e, "ImageType", "INCA")
        e = _sub(e, "INCA")
        _poly1(e, "TimeCAPoly", p["tca"])
        _sub(e, "R_CA_SCP", _f(p["r_ca_scp"]))
        _sub(e, "FreqZero", "9.6e9")
        _poly2(e, "DRateSFPoly", p["drsf"])
    return ET.tostring(r, encoding="unicode")


# ---------------------------------------------------------------------------------------------------------------------
SIDD_NS = {
    "1.0.0": ("urn:SIDD:1.0.0", "urn:SICommon:0.1", "urn:us:gov:ic:ism"),
    "2.0.0": ("urn:SIDD:2.0.0", "urn:SICommon:1.0", "urn:us:gov:ic:ism:13"),
    "3.0.0": ("urn:SIDD:3.0.0", "urn:SICommon:1.0", "urn:us:gov:ic:ism:201609"),
}


def random_sidd(rng, version="2.0.0", airborne=None):
    airborne = bool(rng.random() < 0.3) if airborne is None else airborne
    g = random_geometry(rng, airborne)
    rows, cols = int(rng.integers(300, 6000)), int(rng.integers(300, 6000))
    rot = rng.uniform(0, 2 * math.pi)
    e, n, up = g["east"], g["north"], unit(g["up"] + (rng.normal(0, 0.01, 3) if rng.random() < 0.5 else 0))
    e = unit(np.cross(n, up))
    n = np.cross(up, e)
    urow = math.cos(rot) * e + math.sin(rot) * n
    # image normal (urow x ucol) may point up or down depending on the display convention
    ucol = np.cross(up, urow) * (1 if rng.random() < 0.5 else -1)
    ss = (0.1, 0.4) if airborne else (0.2, 1.5)
    cap = 0.08 * g["slant"] / max(rows, cols)
    ss = (min(ss[0], cap), min(ss[1], cap))
    slope = 1.0 / g["speed"]
    p = dict(
        version=version, grid="PLANE", algo="OTHER", kind="SIDD",
        scp=g["scp"], urow=urow, ucol=ucol, arp=g["arp"], side=g["side"], gpn=up,
        num_rows=rows, num_cols=cols, first_row=0, first_col=0,
        scp_row=float(rows // 2 + rng.integers(-60, 60)), scp_col=float(cols // 2 + rng.integers(-60, 60)),
        row_ss=float(rng.uniform(*ss)), col_ss=float(rng.uniform(*ss)),
        tcoa=[[g["t0"]]] if rng.random() < 0.4 else [[g["t0"], float(rng.uniform(-0.5, 0.5) * slope)], [float(rng.uniform(-0.5, 0.5) * slope), 0.0]],
    )
    return p


def sidd_xml(p, template_text, chip=None):
    """Rewrite the measurement block of a template SIDD product. chip = dict(size=(r,c), ul, ur, ll, lr as (row, col))."""
    ns, si, _ = SIDD_NS["2.0.0"]
    for pre, uri in (("", ns), ("si", si), ("ism", "urn:us:gov:ic:ism:13"), ("sfa", "urn:SFA:1.2.0")):
        ET.register_namespace(pre, uri)
    root = ET.fromstring(template_text)
    q = lambda t: "{%s}%s" % (ns, t)
    qs = lambda t: "{%s}%s" % (si, t)
    m = root.find(q("Measurement"))
    pp = m.find(q("PlaneProjection"))
    rp = pp.find(q("ReferencePoint"))
    for n, v in zip("XYZ", p["scp"]):
        rp.find(qs("ECEF")).find(qs(n)).text = _f(v)
    rp.find(qs("Point")).find(qs("Row")).text = _f(p["scp_row"])
    rp.find(qs("Point")).find(qs("Col")).text = _f(p["scp_col"])
    s = pp.find(q("SampleSpacing"))
    s.find(qs("Row")).text = _f(p["row_ss"])
    s.find(qs("Col")).text = _f(p["col_ss"])
    t = pp.find(q("TimeCOAPoly"))
    for c in list(t):
        t.remove(c)
    tc = np.atleast_2d(np.asarray(p["tcoa"], float))
    t.set("order1", str(tc.shape[0] - 1))
    t.set("order2", str(tc.shape[1] - 1))
    for i in range(tc.shape[0]):
        for j in range(tc.shape[1]):
            c = ET.SubElement(t, qs("Coef"), {"exponent1": str(i), "exponent2": str(j)})
            c.text = _f(tc[i, j])
    pl = pp.find(q("ProductPlane"))
    for tag, u in (("RowUnitVector", p["urow"]), ("ColUnitVector", p["ucol"])):
        for n, v in zip("XYZ", u):
            pl.find(q(tag)).find(qs(n)).text = _f(v)
    fp = m.find(q("PixelFootprint"))
    fp.find(qs("Row")).text = str(p["num_rows"])
    fp.find(qs("Col")).text = str(p["num_cols"])
    ap = m.find(q("ARPPoly"))
    for n, cs in zip("XYZ", p["arp"]):
        e = ap.find(qs(n))
        for c in list(e):
            e.remove(c)
        e.set("order1", str(len(cs) - 1))
        for i, v in enumerate(cs):
            c = ET.SubElement(e, qs("Coef"), {"exponent1": str(i)})
            c.text = _f(v)
    old = root.find(q("DownstreamReprocessing"))
    if old is not None:
        root.remove(old)
    if chip is not None:
        dr = ET.Element(q("DownstreamReprocessing"))
        gc = ET.SubElement(dr, q("GeometricChip"))
        for tag, rc in (
            ("ChipSize", chip["size"]),
            ("OriginalUpperLeftCoordinate", chip["ul"]),
            ("OriginalUpperRightCoordinate", chip["ur"]),
            ("OriginalLowerLeftCoordinate", chip["ll"]),
            ("OriginalLowerRightCoordinate", chip["lr"]),
        ):
            e = ET.SubElement(gc, q(tag))
            ET.SubElement(e, qs("Row")).text = str(rc[0])
            ET.SubElement(e, qs("Col")).text = str(rc[1])
        idx = list(root).index(m) + 1
        root.insert(idx, dr)
    xml = ET.tostring(root, encoding="unicode")
    if p["version"] == "3.0.0":
        xml = xml.replace("urn:SIDD:2.0.0", "urn:SIDD:3.0.0")
    return xml


def read_sicd(xml):
    """Parameters of a SICD product, read with ElementTree only (inverse of sicd_xml for the fields that matter)."""
    root = ET.fromstring(xml)
    for e in root.iter():
        e.tag = e.tag.split("}")[-1]

    def xyz(path):
        e = root.find(path)
        return np.array([float(e.find(k).text) for k in "XYZ"])

    def p1(e):
        c = [0.0] * (int(e.get("order1")) + 1)
        for k in e.findall("Coef"):
            c[int(k.get("exponent1"))] = float(k.text)
        return c

    def p2(path):
        e = root.find(path)
        c = np.zeros((int(e.get("order1")) + 1, int(e.get("order2")) + 1))
        for k in e.findall("Coef"):
            c[int(k.get("exponent1")), int(k.get("exponent2"))] = float(k.text)
        return c.tolist()

    num = lambda path: float(root.find(path).text)
    p = dict(
        scp=xyz("GeoData/SCP/ECF"), urow=xyz("Grid/Row/UVectECF"), ucol=xyz("Grid/Col/UVectECF"),
        arp=[p1(root.find(f"Position/ARPPoly/{k}")) for k in "XYZ"], side=root.find("SCPCOA/SideOfTrack").text,
        num_rows=int(num("ImageData/NumRows")), num_cols=int(num("ImageData/NumCols")),
        first_row=int(num("ImageData/FirstRow")), first_col=int(num("ImageData/FirstCol")),
        scp_row=int(num("ImageData/SCPPixel/Row")), scp_col=int(num("ImageData/SCPPixel/Col")),
        row_ss=num("Grid/Row/SS"), col_ss=num("Grid/Col/SS"), tcoa=p2("Grid/TimeCOAPoly"), gpn=None,
        grid=root.find("Grid/Type").text, algo=root.find("ImageFormation/ImageFormAlgo").text,
        arppos=xyz("SCPCOA/ARPPos"), arpvel=xyz("SCPCOA/ARPVel"),
    )
    if p["algo"] == "PFA" and p["grid"] == "RGAZIM":
        p["gpn"] = xyz("PFA/FPN")
        p["polar"], p["ksf"] = p1(root.find("PFA/PolarAngPoly")), p1(root.find("PFA/SpatialFreqSFPoly"))
    if p["algo"] == "RGAZCOMP":
        p["az_sf"] = num("RgAzComp/AzSF")
    if p["grid"] == "RGZERO":
        p["tca"], p["r_ca_scp"], p["drsf"] = p1(root.find("RMA/INCA/TimeCAPoly")), num("RMA/INCA/R_CA_SCP"), p2("RMA/INCA/DRateSFPoly")
    p["kind"] = p["grid"] + "/" + p["algo"]
    return p
