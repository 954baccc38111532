"""Monitor kernel shared by every check.

A check is a module in props/ with
    SHARDS = {"quick": n, "thorough": N}       independent workloads, each with its own PRNG stream
    MIN    = {"event": k}                      observations without which the run is inconclusive
    RULE, ASSUME                               text for the evidence file
    run(m, tier, shard)                        drives the real toolkit and feeds observations to monitor m

Verdicts are three-valued: exit 1 + VIOLATION line (an oracle refuted an observation), exit 0 (held on everything
observed), exit 3 (inconclusive: too few observations, a worker died).
"""

import contextlib
import hashlib
import json
import os
import random
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib
from collections import Counter
from contextlib import contextmanager

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
DATA = os.path.join(VERIF, "data")
CASE_CPU_LIMIT_S = 90.0


class CaseAbort(Exception):
    """Ends the current case after a violation that makes the rest of it meaningless."""


class NoProgress(BaseException):
    """A single toolkit call burned CASE_CPU_LIMIT_S of CPU time (CPU, not wall clock: machine load does not matter)."""


class KnownSkip(Exception):
    pass


def jsonable(v, depth=0):
    if depth > 6:
        return repr(v)[:200]
    if isinstance(v, dict):
        return {str(k): jsonable(x, depth + 1) for k, x in list(v.items())[:60]}
    if isinstance(v, (list, tuple, set)):
        return [jsonable(x, depth + 1) for x in list(v)[:60]]
    if isinstance(v, np.ndarray):
        if v.size > 60:
            return f"array{v.shape} {v.dtype} head={v.ravel()[:8].tolist()}"
        return jsonable(v.tolist(), depth + 1)
    if isinstance(v, np.generic):
        v = v.item()
    if isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))):
        return repr(v)
    if isinstance(v, (str, int, float, bool)) or v is None:
        return v if not isinstance(v, str) else v[:600]
    return repr(v)[:300]


class Mon:
    """Collects what one shard observed and what its oracles refuted."""

    MAX_VIOLATIONS = 200

    def __init__(self, pid, seed, tier, shard, only_case=None):
        self.pid, self.seed, self.tier, self.shard = pid, seed, tier, shard
        entropy = [seed, zlib.crc32(pid.encode()), shard]
        self.rng = np.random.default_rng(entropy)
        self.rnd = random.Random(repr(entropy))
        self.events = Counter()
        self.distinct = set()
        self.samples = []
        self.violations = []
        self.evaluations = 0
        self.case_desc = None
        self.case_no = -1
        self.max_stat = {}
        self.quick = tier == "quick"

    # -- workload helpers -------------------------------------------------------------------------------------------
    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def scratch(self):
        d = tempfile.mkdtemp(prefix=f"vf-{self.pid}-")
        self._scratch.append(d)
        return d

    # -- observation ------------------------------------------------------------------------------------------------
    def event(self, name, k=1):
        self.events[name] += k

    def seen(self, *key):
        """Register a distinct non-trivial case, by content."""
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def stat(self, name, value):
        """Track the worst margin actually observed for a tolerance."""
        try:
            value = float(value)
        except Exception:
            return
        if value == value and value > self.max_stat.get(name, float("-inf")):
            self.max_stat[name] = value

    @contextmanager
    def case(self, desc, *key):
        """One workload case. Anything the toolkit raises out of a case, or any output so malformed that the oracle
        cannot even read it, refutes the property for that case."""
        self.case_no += 1
        self.case_desc = desc
        self.evaluations += 1
        nviol = len(self.violations)
        if key:
            self.seen(*key)

        def on_alarm(signum, frame):
            raise NoProgress()

        signal.signal(signal.SIGVTALRM, on_alarm)
        signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_LIMIT_S)
        try:
            yield
        except CaseAbort:
            pass
        except (KeyboardInterrupt, SystemExit, MemoryError):
            raise
        except NoProgress:
            self._violate("no-progress", f"no result after {CASE_CPU_LIMIT_S} s of CPU time in one case", {})
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            in_sut = [f for f in tb if "/src/aws/" in f.filename]
            key_ = "raised:" + type(e).__name__ + (":" + in_sut[-1].name if in_sut else ":unreadable-output")
            self._violate(key_, f"{type(e).__name__}: {e}", {"trace": traceback.format_exc()[-1800:]})
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
            if len(self.violations) == nviol and len(self.samples) < 2:
                self.samples.append(jsonable(desc))

    def check(self, ok, key, msg="", **detail):
        self.events["oracle:" + key.split("/")[0]] += 1
        if not ok:
            self._violate(key, msg, detail)
        return bool(ok)

    def require(self, ok, key, msg="", **detail):
        if not self.check(ok, key, msg, **detail):
            raise CaseAbort()

    def close(self, got, want, tol, key, **detail):
        """|got - want| <= tol elementwise (absolute); NaN/inf always refutes. Records the worst observed margin."""
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            return self.check(False, key, f"shape {g.shape} instead of {w.shape}", **detail)
        with np.errstate(all="ignore"):
            err = np.abs(g - w)
        worst = float(np.max(err)) if err.size else 0.0
        ok = bool(np.all(np.isfinite(g)) and np.all(err <= tol))
        if ok and np.all(np.asarray(tol) > 0):
            self.stat("margin:" + key.split("/")[0], float(np.max(err / tol)) if err.size else 0.0)
        return self.check(ok, key, f"max abs error {worst:g} > tolerance {np.max(tol):g}", got=g, want=w, **detail)

    def raises(self, fn, exc, key, msg="", **detail):
        try:
            r = fn()
        except exc:
            self.events["oracle:" + key] += 1
            return True
        return self.check(False, key, msg or f"expected {exc}, got {r!r}", **detail)

    def _violate(self, key, msg, detail):
        self.events["refuted:" + key] += 1
        if self.events["refuted:" + key] <= 3 and len(self.violations) < self.MAX_VIOLATIONS:  # few per mechanism: one must not mask another
            self.violations.append(
                {
                    "key": key,
                    "msg": str(msg)[:500],
                    "case": jsonable(self.case_desc),
                    "case_no": self.case_no,
                    "shard": self.shard,
                    "detail": jsonable(detail),
                }
            )

    def result(self):
        return {
            "events": dict(self.events),
            "distinct": list(self.distinct),
            "samples": self.samples,
            "violations": self.violations,
            "evaluations": self.evaluations,
            "max_stat": self.max_stat,
        }


def _quiet():
    import logging
    import warnings

    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def prepare_env():
    os.environ.setdefault("PROJ_NETWORK", "OFF")
    os.environ.setdefault("OPENCV_LOG_LEVEL", "SILENT")
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "GDAL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    src = os.path.join(REPO, "src")
    if src in sys.path:
        sys.path.remove(src)
    sys.path.insert(0, src)


def run_shard(modname, pid, seed, tier, shard):
    import importlib

    _quiet()
    mod = importlib.import_module(modname)
    if getattr(mod, "GDAL_EXCEPTIONS", False):  # GDAL reports errors either way; both are in use
        from osgeo import gdal

        gdal.UseExceptions() if (shard // 2) % 2 else gdal.DontUseExceptions()
    before = None
    if getattr(mod, "DEFAULT_CONFIG", False) and shard % 3 == 2:  # and GDAL is used with and without the toolkit's configuration
        from aws.osml.gdal import set_gdal_default_configuration
        from osgeo import gdal

        before = gdal.GetConfigOptions()
        set_gdal_default_configuration()
    m = Mon(pid, seed, tier, shard)
    m._scratch = []
    cwd = os.getcwd()
    try:
        with open(os.devnull, "w") as sink, contextlib.redirect_stdout(sink):  # the toolkit prints progress in places
            mod.run(m, tier, shard)
    except Exception as e:
        # Outside a case, only something the toolkit itself raised is a refutation; a harness error stays inconclusive.
        if not any("/src/aws/" in f.filename for f in traceback.extract_tb(e.__traceback__)):
            raise
        m._violate("raised:" + type(e).__name__, f"{type(e).__name__}: {e}", {"trace": traceback.format_exc()[-1800:]})
    finally:
        if before is not None:
            for key in gdal.GetConfigOptions():
                gdal.SetConfigOption(key, before.get(key))
        os.chdir(cwd)
        for d in m._scratch:
            shutil.rmtree(d, ignore_errors=True)
    return m.result()


def load_known(pid):
    """known-findings.txt lines: 'known: property=<id> key=<regex over mechanism key> <text>' (fixed: lines suppress nothing)."""
    out = []
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            mt = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", line.strip())
            if mt and mt.group(1) == pid:
                out.append((mt.group(2), mt.group(3)))
    return out


def main(pid, tier, seed, modname, only_shard=None, replay=None):
    import concurrent.futures as cf
    import importlib
    import multiprocessing as mp

    t0 = time.time()
    prepare_env()
    _quiet()
    # Everything heavy is imported in the parent so that workers share it; the toolkit is imported from the current tree.
    mod = importlib.import_module(modname)
    import aws.osml  # noqa: F401

    origin = list(aws.osml.__path__) if hasattr(aws.osml, "__path__") else [aws.osml.__file__]
    if not any(os.path.realpath(p).startswith(os.path.realpath(REPO)) for p in origin):
        print(f"INCONCLUSIVE property={pid}: toolkit imported from {origin}, not {REPO}")
        return 3
    nsh = mod.SHARDS[tier]
    shards = list(range(nsh)) if only_shard is None else [only_shard]
    results, died = [], []
    workers = min(int(os.environ.get("VERIF_JOBS", "8")), os.cpu_count() or 1, len(shards))
    if only_shard is not None:
        results.append(run_shard(modname, pid, seed, tier, only_shard))
    else:
        ctx = mp.get_context("fork")
        with cf.ProcessPoolExecutor(max_workers=max(1, workers), mp_context=ctx) as ex:
            futs = {ex.submit(run_shard, modname, pid, seed, tier, s): s for s in shards}
            for f in cf.as_completed(futs):
                try:
                    results.append((futs[f], f.result()))
                except Exception as e:
                    died.append((futs[f], "".join(traceback.format_exception(e))[-3000:]))
        results = [r for _, r in sorted(results, key=lambda t: t[0])]

    events, distinct, samples, violations, max_stat = Counter(), set(), [], [], {}
    evaluations = 0
    for r in results:
        events.update(r["events"])
        distinct.update(r["distinct"])
        if len(samples) < 4:
            samples.extend(r["samples"][: 4 - len(samples)])
        violations.extend(r["violations"])
        evaluations += r["evaluations"]
        for k, v in r["max_stat"].items():
            max_stat[k] = max(v, max_stat.get(k, float("-inf")))

    known = load_known(pid)
    new, known_hit = [], {}
    for v in violations:
        for rx, text in known:
            if re.fullmatch(rx, v["key"]):
                known_hit.setdefault(text, v)
                break
        else:
            new.append(v)

    oracle_checks = sum(v for k, v in events.items() if k.startswith("oracle:"))
    evid = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "exploration"),
        "coverage": {
            "evaluations": evaluations,
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": samples or [jsonable(v["case"]) for v in violations[:2]] or ["none"],
            "oracle_decisions": oracle_checks,
            "observed_events": dict(sorted(events.items())),
            "worst_observed_fraction_of_tolerance": {k: round(v, 6) for k, v in sorted(max_stat.items())},
            "workers_died": len(died),
        },
        "assumptions": list(getattr(mod, "ASSUME", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{pid}.json"), "w") as fh:
        json.dump(jsonable_evid(evid), fh, indent=1)

    for text in sorted(known_hit):
        print(f"KNOWN-FINDING: property={pid} {text}")
    print(
        f"{pid} {tier} seed={seed}: {evaluations} cases, {len(distinct)} distinct, {oracle_checks} oracle decisions, "
        f"{len(new)} violations, {time.time() - t0:.1f} s"
    )
    if new:
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        rpath = os.path.join(rdir, f"{pid}-{tier}-{seed}.json")
        with open(rpath, "w") as fh:
            json.dump(
                {
                    "property": pid,
                    "tier": tier,
                    "seed": seed,
                    "how": f"VERIF_SEED={seed} /verif/check {pid} {tier} --shard <shard>  (case_no counts cases in the shard)",
                    "refuted_counts": {k: v for k, v in events.items() if k.startswith("refuted:")},
                    "violations": new[:40],
                },
                fh,
                indent=1,
            )
        seen = set()
        for v in new:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            print(f"  [{v['key']}] {v['msg']} :: shard {v['shard']} case {v['case_no']} :: {json.dumps(v['case'])[:300]}")
            if len(seen) >= 6:
                break
        print(f"VIOLATION property={pid} replay={rpath}")
        return 1
    if died:
        for s, tb in died[:2]:
            print(f"INCONCLUSIVE property={pid}: shard {s} did not finish:\n{tb}")
        return 3
    short = {k: (events.get(k, 0), need) for k, need in mod.MIN.items() if events.get(k, 0) < need}
    if short and only_shard is None:
        print(f"INCONCLUSIVE property={pid}: too few observations (seen, needed): {short}")
        return 3
    return 0


def jsonable_evid(e):
    def f(v):
        if isinstance(v, dict):
            return {str(k): f(x) for k, x in v.items()}
        if isinstance(v, (list, tuple)):
            return [f(x) for x in v]
        if isinstance(v, np.generic):
            v = v.item()
        if isinstance(v, float) and not (v == v and abs(v) != float("inf")):
            return repr(v)
        return v

    return f(e)
