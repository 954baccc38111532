#!/opt/venv/bin/python
"""Mutation sweep: how much of the code the checks are sensitive to.

usage: mutate.py N SEED OUT.jsonl [file substring]
Random single-point mutants of the toolkit, in copies under /tmp. Mutants the stable tests kill are dropped; the rest meet the
checks mapped to their file, shards 0 to 3 one by one. Survivors (verdict SURVIVED in OUT) are for inspection or a full quick run."""
import ast, json, os, random, shutil, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor, as_completed

S = "src/aws/osml/"
MAP = {
    "photogrammetry/coordinates.py": "P11 P12 P23 P19", "photogrammetry/math_utils.py": "P22 P02 P08 P05", "photogrammetry/generic_dem_tile_set.py": "P10", "photogrammetry/srtm_dem_tile_set.py": "P10",
    "photogrammetry/composite_sensor_model.py": "P07", "photogrammetry/elevation_model.py": "P09 P08", "features/feature_index.py": "P31", "features/imaged_feature_property_accessor.py": "P30",
    "features/geolocation.py": "P29", "image_processing/map_tileset.py": "P23 P22", "image_processing/map_tileset_wmq.py": "P23 P22", "image_processing/map_tileset_factory.py": "P23",
    "photogrammetry/chipped_image_sensor_model.py": "P07", "photogrammetry/projective_sensor_model.py": "P02 P08", "gdal/gdal_config.py": "P28", "gdal/projective_sensor_model_builder.py": "P02 P14 P13",
    "gdal/gdal_sensor_model_builder.py": "P01 P02 P13 P14", "gdal/gdal_dem_tile_factory.py": "P09", "gdal/dynamic_range_adjustment.py": "P26 P18 P22", "gdal/rpc_sensor_model_builder.py": "P03 P13 P14",
    "photogrammetry/gdal_sensor_model.py": "P01 P08", "photogrammetry/transforms.py": "P02 P07 P06", "gdal/nitf_des_accessor.py": "P27 P20", "photogrammetry/digital_elevation_model.py": "P09 P08",
    "image_processing/sar_complex_imageop.py": "P24", "image_processing/sidd_updater.py": "P20 P32", "image_processing/sicd_updater.py": "P20 P32", "gdal/sidd_sensor_model_builder.py": "P06 P14 P13",
    "gdal/sicd_sensor_model_builder.py": "P05 P14 P13", "gdal/sensor_model_factory.py": "P13 P14 P07", "photogrammetry/rpc_sensor_model.py": "P03 P08", "gdal/gdal_utils.py": "P18 P17 P19 P13",
    "gdal/rsm_sensor_model_builder.py": "P04 P14 P13", "photogrammetry/replacement_sensor_model.py": "P04 P08", "image_processing/gdal_tile_factory.py": "P17 P21 P18 P19 P20 P22", "image_processing/map_tile_factory.py": "P22",
    "photogrammetry/sicd_sensor_model.py": "P05 P06 P08", "gdal/xmltre_utils.py": "P14 P04", "gdal/typing.py": "P17", "photogrammetry/sensor_model.py": "P07",
}
CMP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.FloorDiv: "/", ast.Mod: "+"}


def sites(path):
    src = open(path).read()
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    b = src.encode()
    pos = lambda n: (off[n.lineno - 1] + n.col_offset, off[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: b[pos(n)[0]:pos(n)[1]].decode()
    out, skip = [], set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(n.body[0].value)
        if isinstance(n, ast.FunctionDef):
            for a in list(ast.walk(n.args)) + ([*ast.walk(n.returns)] if n.returns else []):
                if not (isinstance(a, ast.Constant) and a in n.args.defaults):
                    skip.add(a)
        if isinstance(n, ast.AnnAssign):
            skip.update(ast.walk(n.annotation))
        if isinstance(n, ast.Raise) or isinstance(n, ast.Call) and "logg" in ast.dump(n.func) or isinstance(n, ast.Assert):
            skip.update(ast.walk(n))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.update(ast.walk(n))
    def add(n, new, kind):
        s, e = pos(n)
        out.append((s, e, new, kind, n.lineno))
    for n in ast.walk(tree):
        if n in skip:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            add(n, f"{seg(n.left)} {CMP[type(n.ops[0])]} {seg(n.comparators[0])}", "cmp")
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
            add(n, f"({seg(n.left)}) {BIN[type(n.op)]} ({seg(n.right)})", "bin")
            if isinstance(n.op, (ast.Sub, ast.Div)):
                add(n, f"({seg(n.right)}) {'-' if isinstance(n.op, ast.Sub) else '/'} ({seg(n.left)})", "swap")
        elif isinstance(n, ast.BoolOp):
            op = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + op.join(seg(v) for v in n.values) + ")", "bool")
            add(n, "(" + seg(n.values[0]) + ")", "drop-cond")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            add(n, f"({seg(n.operand)})", "unary")
        elif isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(n, str(not n.value), "const")
        elif isinstance(n, ast.Constant) and isinstance(n.value, (int, float)):
            for v in ([n.value + 1, n.value - 1] if isinstance(n.value, int) else [n.value * 1.5, -n.value]):
                add(n, f"({v!r})", "const")
        elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
            name = n.func.id if isinstance(n.func, ast.Name) else n.func.attr
            alt = {"min": "max", "max": "min", "floor": "ceil", "ceil": "floor", "sin": "cos", "cos": "sin", "abs": "float", "degrees": "radians", "radians": "degrees", "round": "int", "int": "round", "append": "extend", "any": "all", "all": "any",
                   "minimum": "maximum", "maximum": "minimum", "arctan2": "hypot", "sqrt": "abs"}.get(name)
            if alt:
                add(n.func, alt if isinstance(n.func, ast.Name) else seg(n.func.value) + "." + alt, "call")
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                k = random.randrange(len(n.args) - 1)
                s, _ = pos(n.args[k]); _, e = pos(n.args[k + 1])
                out.append((s, e, f"{seg(n.args[k + 1])}, {seg(n.args[k])}", "args", n.lineno))
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            pass
        elif isinstance(n, (ast.If, ast.While)):
            add(n.test, f"not ({seg(n.test)})", "negate")
            if isinstance(n, ast.If):
                add(n.test, "True", "always"); add(n.test, "False", "never")
        elif isinstance(n, ast.IfExp):
            add(n.test, f"not ({seg(n.test)})", "negate")
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and n not in skip:
            if isinstance(n, ast.AugAssign):
                add(n, "pass", "delete")
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and n.value not in skip:
            add(n, "pass", "delete")
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, "pass", "delete")
        elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
            add(n, "return None", "return")
        elif isinstance(n, ast.ListComp) and n.generators[0].ifs:
            add(n.generators[0].ifs[0], "True", "filter")
    return b, out


def work(args):
    i, wdir, rel, s, e, new, kind, line, stable = args
    w = os.path.join(wdir, f"w{os.getpid()}")
    if not os.path.exists(w):
        subprocess.check_call(["mkdir", "-p", w])
        subprocess.check_call(f"cp -r {wdir}/base {w}/repo; cp -r /verif/check /verif/vlib /verif/props /verif/data /verif/known-findings.txt {w}/ 2>/dev/null", shell=True)
    path = f"{w}/repo/{S}{rel}"
    orig = open(f"{wdir}/base/{S}{rel}", "rb").read()
    res = {"i": i, "file": rel, "line": line, "kind": kind, "old": orig[s:e].decode()[:120], "new": new[:120]}
    try:
        mut = orig[:s] + new.encode() + orig[e:]
        try:
            compile(mut, path, "exec")
        except SyntaxError:
            return {**res, "verdict": "syntax"}
        open(path, "wb").write(mut)
        env = {**os.environ, "PYTHONPATH": f"{w}/repo/src", "PYTHONDONTWRITEBYTECODE": "1", "PROJ_NETWORK": "OFF", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTEST_DISABLE_PLUGIN_AUTOLOAD": "1", "VERIF_REPO": f"{w}/repo", "VERIF_JOBS": "1", "VERIF_SEED": "1"}
        subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x" if False else "-q", "-p", "no:cacheprovider", "-p", "pytest_timeout", "-p", "pytest_asyncio.plugin", "--timeout=60", "--continue-on-collection-errors", "-o", "junit_family=xunit2", f"--junitxml={w}/junit.xml"],
                       cwd=f"{w}/repo", env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        subprocess.run(["/usr/bin/python3", "/opt/vp/results.py", f"{w}/out.json", f"junit:{w}/junit.xml"], stdout=subprocess.DEVNULL, cwd=f"{w}/repo", env=env)
        passed = set(json.load(open(f"{w}/out.json"))["passed"])
        if stable - passed:
            return {**res, "verdict": "tests"}
        pids = MAP.get(rel, "").split()
        for stage in ("--shard 0", "--shard 1", "--shard 2", "--shard 3"):
            for p in pids:
                t = time.time()
                try:
                    q = subprocess.run(f"{w}/check {p} quick {stage}", shell=True, env=env, capture_output=True, text=True, timeout=1500)
                    rc = q.returncode
                except subprocess.TimeoutExpired:
                    rc = 124
                if rc == 1:
                    return {**res, "verdict": "caught", "by": p, "stage": stage or "full", "why": next((l.strip()[:100] for l in q.stdout.splitlines() if l.startswith("  [")), "")}
                if rc not in (0,):
                    res.setdefault("odd", []).append(f"{p}:{rc}" + (q.stdout[-300:] if rc != 124 else ""))
        return {**res, "verdict": "SURVIVED"}
    finally:
        open(path, "wb").write(orig)


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    only = sys.argv[4] if len(sys.argv) > 4 else ""
    random.seed(seed)
    pool = []
    for rel in MAP:
        if only in rel and os.path.exists(f"/repo/{S}{rel}"):
            b, ss = sites(f"/repo/{S}{rel}")
            w = max(1, len(ss)) ** -0.4  # small files get a fair share
            pool += [(w, rel, s) for s in ss]
    chosen = []
    seen = set()
    while len(chosen) < min(n, len(pool)):
        w, rel, s = random.choices(pool, [p[0] for p in pool])[0]
        if (rel, s[:3]) not in seen:
            seen.add((rel, s[:3]))
            chosen.append((rel, *s))
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    wdir = f"/tmp/mut{os.getpid()}"
    os.makedirs(wdir + "/base")
    subprocess.check_call(f"cd /repo && tar cf - --exclude=.git . | tar xf - -C {wdir}/base", shell=True)
    jobs = [(i, wdir, *c, stable) for i, c in enumerate(chosen)]
    try:
        with ProcessPoolExecutor(int(os.environ.get("MUT_JOBS", "7"))) as ex, open(out, "a") as fh:
            for f in as_completed([ex.submit(work, j) for j in jobs]):
                r = f.result()
                fh.write(json.dumps(r) + "\n")
                fh.flush()
    finally:
        shutil.rmtree(wdir)


if __name__ == "__main__":
    main()
