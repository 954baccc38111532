"""P26 dynamic range parameters: the percentile definition evaluated on the histogram decides; metamorphic relations cover the rest."""

import numpy as np

from aws.osml.gdal.dynamic_range_adjustment import DRAParameters

SHARDS = {"quick": 64, "thorough": 128}
MIN = {"histogram": 2000, "dominant-bucket": 100, "single-bucket": 50, "zero-valued-end": 100, "deep-histogram": 40, "metamorphic": 500}
RULE = "distinct (histogram shape, number of buckets, bucket values, percentages) combinations"
ASSUME = ["histograms with at least one non-empty bucket, 0 <= min_percentage < max_percentage <= 1, non-negative weights"]


def reference(c, first, last, lo, hi, a, b):
    c = np.asarray(c, float)
    n = len(c)
    nz = np.nonzero(c)[0]
    cum = np.cumsum(c)
    e_min = int(np.argmax(cum >= lo * cum[-1])) if np.any(cum >= lo * cum[-1]) else n - 1
    below = np.nonzero(cum <= hi * cum[-1])[0]
    e_max = int(below[-1]) if len(below) else 0
    v = lambda i: first + i * (last - first) / n
    exact = e_max > e_min
    s = max(nz[0], e_min - a * (e_max - e_min)), min(nz[-1], e_max + b * (e_max - e_min))
    # near-ties of the thresholds may go either way by rounding: tell the caller how far each end may move
    slack = bool(np.any(np.abs(cum - lo * cum[-1]) < 1e-9 * cum[-1]) or np.any(np.abs(cum[:-1] - hi * cum[-1]) < 1e-9 * cum[-1]))
    return v(nz[0]), v(nz[-1]), v(s[0]), v(s[1]), exact, slack


def histogram(m, r):
    n = int(r.choice([1, 2, 3, 5, 17, 255, 256, 1000]))
    if r.random() < 0.012:
        n = int(r.choice([4097, 16384, 65535, 65536]))  # every value of a 12 to 16-bit image
        m.event("deep-histogram")
    kind = str(r.choice(["uniform", "gauss", "sparse", "dominant", "spike-ends", "single", "gap", "heavy-tail"]))
    c = np.zeros(n)
    if kind == "uniform":
        c[:] = r.integers(0, 50, n)
    elif kind == "gauss":
        x = np.arange(n)
        c = np.floor(1000 * np.exp(-0.5 * ((x - r.uniform(0, n)) / (n * r.uniform(0.02, 0.3) + 0.1)) ** 2))
    elif kind == "sparse":
        for k in r.integers(0, n, max(1, n // 20)):
            c[k] += int(r.integers(1, 100))
    elif kind == "dominant":
        c[:] = r.integers(0, 3, n)
        c[int(r.integers(0, n))] = c.sum() * r.uniform(60, 400) + 100
        m.event("dominant-bucket")
    elif kind == "spike-ends":
        c[:] = r.integers(5, 20, n)
        c[0] += int(c.sum() * r.uniform(0, 2))
        c[-1] += int(c.sum() * r.uniform(0, 2))
    elif kind == "single":
        c[int(r.integers(0, n))] = 1000
        m.event("single-bucket")
    elif kind == "gap":
        c[: n // 3] = 5
        c[n - n // 3 - 1:] = 9
    else:
        c = np.floor(1e5 / (1 + np.arange(n)) ** r.uniform(1, 3))
    if c.sum() == 0:
        c[int(r.integers(0, n))] = 1
    return kind, [float(v) if r.random() < 0.5 else int(v) for v in c]


def run(m, tier, shard):
    r = m.rng
    for i in range(m.n(400, 3000)):
        kind, c = histogram(m, r)
        n = len(c)
        first = last = None
        f, l = 0.0, float(n)
        bv = str(r.choice(["default", "int", "negative", "float", "zero-last", "zero-first"]))
        if bv == "int":
            f = float(r.integers(0, 1000)); l = f + n
        elif bv == "negative":
            l = -float(r.integers(1, 100)); f = l - float(r.uniform(0.5, 5)) * n
        elif bv == "float":
            f = float(r.normal(0, 10)); l = f + float(10 ** r.uniform(-4, 4))
        elif bv == "zero-last":
            f, l = -float(r.uniform(1, 100)), float(r.choice([0.0, -0.0]))
            m.event("zero-valued-end")
        elif bv == "zero-first":
            f, l = 0.0, float(r.uniform(1, 100))
        if bv != "default":
            first, last = f, l
        kw = {}
        lo, hi, a, b = 0.02, 0.98, 0.2, 0.4
        if r.random() < 0.4:
            lo, hi, a, b = float(r.uniform(0, 0.2)), float(r.uniform(0.7, 1.0)), float(r.uniform(0, 1)), float(r.uniform(0, 1))
            kw = dict(min_percentage=lo, max_percentage=hi, a=a, b=b)
        with m.case({"shape": kind, "buckets": n, "values": [first, last], "percentages": kw, "counts": c[:20]}, kind, n, bv, repr(c[:40]), repr(kw)):
            m.event("histogram")
            keep = list(c)
            p = DRAParameters.from_counts(c, first_bucket_value=first, last_bucket_value=last, **kw)
            m.check(c == keep, "histogram-mutated", "the caller's histogram was changed")
            amin, amax, smin, smax, exact, slack = reference(c, f, l, lo, hi, a, b)
            tol = 1e-9 * (abs(f) + abs(l)) + 1e-12
            m.close([p.actual_min_value, p.actual_max_value], [amin, amax], tol, "actual-range")
            m.check(p.suggested_min_value <= p.suggested_max_value + tol, "inverted-range", f"suggested minimum {p.suggested_min_value} above maximum {p.suggested_max_value}")
            m.check(amin - tol <= p.suggested_min_value and p.suggested_max_value <= amax + tol, "outside-actual-range", repr(p))
            if amax > amin:
                m.check(p.suggested_max_value > p.suggested_min_value, "empty-range", f"several values are present but the suggested range is empty: {p!r}")
            if exact and not slack:
                m.close([p.suggested_min_value, p.suggested_max_value], [smin, smax], tol + 1e-9 * abs(l - f), "suggested-range")
            if i % 3 == 0:
                m.event("metamorphic")
                k = float(r.choice([2.0, 4.0, 8.0]))
                q = DRAParameters.from_counts([v * k for v in c], first_bucket_value=first, last_bucket_value=last, **kw)
                m.close([q.suggested_min_value, q.suggested_max_value], [p.suggested_min_value, p.suggested_max_value], tol + 1e-9 * abs(l - f), "count-scaling")
                d = 1000.0
                q = DRAParameters.from_counts(c, first_bucket_value=f + d, last_bucket_value=l + d, **kw)
                m.close([q.suggested_min_value, q.suggested_max_value, q.actual_min_value, q.actual_max_value],
                        [p.suggested_min_value + d, p.suggested_max_value + d, p.actual_min_value + d, p.actual_max_value + d], tol + 1e-9 * d, "value-shift")
