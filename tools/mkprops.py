#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below (only properties whose monitor exists in props/)."""
import json, os, subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/aws/osml/"
P, G, I, F = S + "photogrammetry/", S + "gdal/", S + "image_processing/", S + "features/"
T = []


def prop(id, title, statement, over, quant, why, files, mech, technique, note, observe="return values of the public calls named in the mechanism list"):
    T.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, technique=technique, note=note, observe=observe))


exec(open(os.path.join(V, "tools", "table.py")).read())

have = {f[:-3].upper() for f in os.listdir(os.path.join(V, "props")) if f.startswith("p") and f.endswith(".py")}
T = [t for t in T if t["id"] in have]
missing = have - {t["id"] for t in T}
assert not missing, missing
with open(os.path.join(V, "properties.jsonl"), "w") as fh:
    for t in T:
        assert len(t["title"]) <= 80, t["title"]
        fh.write(json.dumps({
            "id": t["id"], "title": t["title"], "statement": t["statement"],
            "quantifier": {"over": t["over"], "text": t["quant"]}, "why_tests_cant": t["why"],
            "anchors": {"files": t["files"], "mechanism": [{"name": n, "where": w} for n, w in t["mech"]],
                        "observe_at": [t["observe"]], "hook_needed": None},
        }) + "\n")
m = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python -B -c \"import numpy, scipy, shapely, pyproj, cv2, xsdata; from osgeo import gdal\"",
    "checks": [{
        "property": t["id"], "quick_cmd": f"./check {t['id']} quick", "thorough_cmd": f"./check {t['id']} thorough",
        "technique": "runtime monitoring: " + t["technique"], "level": "exploration", "level_note": t["note"],
    } for t in T],
    "not_applicable": [],
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(T), "properties")
