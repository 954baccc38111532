"""P24 SAR pixel conversion and display: the published equations evaluated in double precision decide every pixel."""

import math

import numpy as np

from aws.osml.image_processing import histogram_stretch, quarter_power_image
from aws.osml.image_processing.sar_complex_imageop import (complex_to_power_value, get_value_bounds, histogram_stretch_mag_values, image_pixels_to_complex, linear_mapping,
                                                           power_value_in_decibels, quarter_power_mag_values)

SHARDS = {"quick": 32, "thorough": 64}
MIN = {"image": 1500, "RE32F_IM32F": 300, "RE16I_IM16I": 300, "AMP8I_PHS8I": 300, "lookup-table": 100, "all-zero": 50, "not-finite": 50, "full-scale": 40, "linear": 500, "scaled-copy": 300, "integer-power": 500}
RULE = "distinct (pixel type, image content, scale factor, mean given)"
ASSUME = ["32-bit accuracy is granted for 32-bit pixels", "the magnitudes behind the histogram stretch and quarter power images are the pixel powers, as documented for the functions"]


def image(m, r):
    kind = ["RE32F_IM32F", "RE16I_IM16I", "AMP8I_PHS8I"][int(r.integers(3))]
    m.event(kind)
    h, w = int(r.integers(1, 24)), int(r.integers(1, 24))
    style = str(r.choice(["noise", "noise", "speckle", "bright", "zero", "few", "full"]))
    lut = None
    if kind == "AMP8I_PHS8I":
        amp = r.integers(0, 256, (h, w)) if style in ("noise", "full") else r.integers(0, 9, (h, w)) if style != "zero" else np.zeros((h, w), int)
        if style == "bright":
            amp[h // 2, w // 2] = 255
        a = np.array([amp, r.integers(0, 256, (h, w))]).astype(np.uint8 if r.random() < 0.7 else np.int64)
        if r.random() < 0.5:
            m.event("lookup-table")
            lut = np.sort(r.uniform(0, 10 ** r.uniform(0, 5), 256))
            lut[0] = 0.0 if r.random() < 0.5 else lut[0]
            lut = lut.tolist() if r.random() < 0.6 else lut
    elif kind == "RE16I_IM16I":
        top = {"full": 32767, "zero": 0}.get(style, int(10 ** r.uniform(1, 4.4)))
        a = r.integers(-top, top + 1, (2, h, w))
        if style == "full":
            m.event("full-scale")
            a.flat[:2] = [-32768, 32767][: a.size]
            a[:, -1, -1] = -32768
        if style == "bright":
            a[0, h // 2, w // 2] = 32000
        a = a.astype(np.int16)
    else:
        a = r.normal(0, 10 ** r.uniform(-4, 4), (2, h, w)) * (0 if style == "zero" else 1)
        if style == "speckle":
            a *= r.exponential(1.0, (h, w))
        if style == "bright":
            a[1, h // 2, w // 2] *= 1e3
        a = a.astype(np.float32 if r.random() < 0.8 else np.float64)
    if not a.any() and kind != "AMP8I_PHS8I":
        style = "zero"
    return kind, style, a, lut


def ref_complex(kind, a, lut):
    a = np.asarray(a, float)
    if kind != "AMP8I_PHS8I":
        return a
    amp = np.asarray(lut, float)[a[0].astype(int)] if lut is not None else a[0]
    return np.array([amp * np.cos(2 * math.pi * a[1] / 256), amp * np.sin(2 * math.pi * a[1] / 256)])


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(300, 2500)):
        kind, style, a, lut = image(m, r)
        sf = float(r.choice([3.0, 8.0, r.uniform(1, 12)]))
        with m.case({"type": kind, "content": style, "shape": a.shape, "dtype": str(a.dtype), "table": lut is not None, "scale": sf}, kind, style, a.tobytes(), sf):
            m.event("image")
            keep = a.copy()
            keep_lut = None if lut is None else list(lut)
            z = ref_complex(kind, a, lut)
            p = (z ** 2).sum(axis=0)
            kw = {"pixel_type": kind, "amplitude_table": lut}
            got = np.asarray(image_pixels_to_complex(a, **kw), float)
            m.require(got.shape == z.shape, "complex-shape", str(got.shape))
            top = max(np.abs(z).max(), 1e-30)
            m.close(got / top, z / top, 1e-6, "complex")
            gp = np.asarray(complex_to_power_value(image_pixels_to_complex(a, **kw)), float)
            m.require(gp.shape == p.shape, "power-shape", str(gp.shape))
            ptop = max(p.max(), 1e-300)
            m.close(gp / ptop, p / ptop, 2e-6, "power")
            pos = p > 0
            if pos.any():
                db = np.asarray(power_value_in_decibels(p[pos]), float)
                m.close(db, 10 * np.log10(p[pos]), 1e-9, "decibels")
            hs = np.asarray(histogram_stretch(a, scale_factor=sf, **kw), float)
            qp = np.asarray(quarter_power_image(a, scale_factor=sf, **kw), float)
            pm = None
            if pos.any() and r.random() < 0.3:
                m.event("default-scale")
                m.close(histogram_stretch(a, **kw), np.clip(255 * p / (8.0 * p.mean()), 0, 255), 0.01, "stretch-default-scale")
                m.close(quarter_power_image(a, **kw), np.clip(255 * np.sqrt(p) / (3.0 * np.sqrt(p).mean()), 0, 255), 0.01, "quarter-default-scale")
                m.close(histogram_stretch_mag_values(p), np.clip(255 * p / (8.0 * p.mean()), 0, 255), 0.01, "stretch-default-scale")
                m.close(quarter_power_mag_values(p), np.clip(255 * np.sqrt(p) / (3.0 * np.sqrt(p).mean()), 0, 255), 0.01, "quarter-default-scale")
            if pos.any():
                pm = float(np.sqrt(p).mean() * r.uniform(0.3, 3))
                qm = np.asarray(quarter_power_image(a, scale_factor=sf, precomputed_mean=pm, **kw), float)
            for nm, g in (("stretch", hs), ("quarter", qp)):
                m.require(g.shape == p.shape, nm + "-shape", str(g.shape))
                m.require(bool(np.all(np.isfinite(g)) and np.all(g >= 0) and np.all(g <= 255)), nm + "-range", f"values outside [0, 255] or not a number, e.g. {g.ravel()[:3].tolist()}")
            m.check(np.array_equal(a, keep) and (lut is None or list(lut) == keep_lut), "input-mutated")
            if not pos.any():
                m.event("all-zero")
                m.check(not hs.any() and not qp.any(), "zero-image", "an image without signal is not black")
                continue
            m.close(hs, np.clip(255 * p / (sf * p.mean()), 0, 255), 0.01, "stretch")
            q = np.sqrt(p)
            m.close(qp, np.clip(255 * q / (sf * q.mean()), 0, 255), 0.01, "quarter")
            m.close(qm, np.clip(255 * q / (sf * pm), 0, 255), 0.01, "quarter-mean")
            # the display does not depend on the units of the signal
            if kind == "RE32F_IM32F":
                m.event("scaled-copy")
                k = 2.0 ** int(r.integers(-6, 7))
                m.close(histogram_stretch(a * a.dtype.type(k), scale_factor=sf, pixel_type=kind), hs, 0.01, "stretch-units")
                m.close(quarter_power_image(a * a.dtype.type(k), scale_factor=sf), qp, 0.01, "quarter-units")
                # missing pixels do not influence the others
                if a.shape[1] * a.shape[2] > 3 and r.random() < 0.5:
                    m.event("not-finite")
                    b = a.copy()
                    b[0, 0, 0] = [np.nan, np.inf][int(r.integers(2))]
                    ok = np.ones(p.shape, bool)
                    ok[0, 0] = False
                    if p[ok].any():
                        m.close(np.asarray(histogram_stretch(b, scale_factor=sf))[ok], np.clip(255 * p / (sf * p[ok].mean()), 0, 255)[ok], 0.01, "stretch-missing")
                        m.close(np.asarray(quarter_power_image(b, scale_factor=sf))[ok], np.clip(255 * q / (sf * q[ok].mean()), 0, 255)[ok], 0.01, "quarter-missing")
        # integer pixels of any width: the power is exact
        wt = [np.uint8, np.int8, np.int16, np.uint16, np.int32, np.uint32][int(r.integers(6))]
        info = np.iinfo(wt)
        w = r.integers(info.min, info.max + 1, (2, int(r.integers(1, 9)), int(r.integers(1, 9)))).astype(wt)
        w.flat[0], w.flat[-1] = info.max, info.min
        with m.case({"power of": str(w.dtype), "shape": w.shape, "first": w.flat[:4].tolist()}, "power", w.tobytes()):
            m.event("integer-power")
            keep = w.copy()
            want = np.array([[float(int(w[0, i, j]) ** 2 + int(w[1, i, j]) ** 2) for j in range(w.shape[2])] for i in range(w.shape[1])])
            got = np.asarray(complex_to_power_value(w), float)
            m.require(got.shape == want.shape, "power-shape", str(got.shape))
            m.close(got / want.max(), want / want.max(), 2e-6, "integer-power")
            m.check(np.array_equal(w, keep), "pixels-changed", "complex_to_power_value changed its input")
        # plain magnitudes
        mt = [np.float32, np.float64, np.uint8, np.int16, np.uint16, np.int32][int(r.integers(6))]
        sh = (int(r.integers(1, 12)), int(r.integers(1, 12)))
        if np.issubdtype(mt, np.integer):
            info = np.iinfo(mt)
            lo, hi = sorted(int(v) for v in r.integers(max(info.min, -2 ** 31), info.max, 2))
            if r.random() < 0.2:
                lo, hi = info.min, info.max
            v = r.integers(lo, hi + 1, sh).astype(mt)
        else:
            c = 10 ** r.uniform(-3, 6) * r.choice([-1, 0, 1])
            v = (c + r.normal(0, 10 ** r.uniform(-2, 5), sh)).astype(mt)
        if r.random() < 0.1:
            v[:] = v.flat[0]
        with m.case({"magnitudes": str(v.dtype), "shape": sh, "first": float(v.flat[0])}, "linear", v.tobytes()):
            m.event("linear")
            keep = v.copy()
            x = v.astype(float)
            lo, hi = x.min(), x.max()
            b = get_value_bounds(v)
            m.check((float(b[0]), float(b[1])) == (lo, hi), "bounds", f"{b}")
            g = np.asarray(linear_mapping(v), float)
            m.require(g.shape == v.shape, "linear-shape", str(g.shape))
            want = np.full(v.shape, 0.5) if hi == lo else (x - lo) / (hi - lo)
            m.close(g, want, 1e-5 if hi == lo else 1e-5 + 2.5e-7 * max(abs(lo), abs(hi)) / (hi - lo), "linear")
            m.check(bool(np.all((g >= 0) & (g <= 1))), "linear-range", "values outside [0, 1]")
            mag = np.abs(x)
            if mag.any():
                k = float(r.uniform(2, 9))
                m.close(histogram_stretch_mag_values(mag, scale_factor=k), np.clip(255 * mag / (k * mag.mean()), 0, 255), 0.01, "stretch-magnitude")
                s = np.sqrt(mag)
                m.close(quarter_power_mag_values(mag, scale_factor=k), np.clip(255 * s / (k * s.mean()), 0, 255), 0.01, "quarter-magnitude")
            m.check(np.array_equal(v, keep), "input-mutated")
    for bad in ("AMP16I", "", "re32f_im32f"):
        with m.case({"type": bad}, bad):
            m.raises(lambda: image_pixels_to_complex(np.zeros((2, 2, 2)), pixel_type=bad), ValueError, "unknown-type", "an unknown pixel type was accepted")
