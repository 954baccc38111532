#!/usr/bin/env python3
"""mkseed.py: reads stdin JSON-ish python dict spec and writes seeded/<id>/ (patch made by exact text replacement on a clean /repo)."""
import json, os, subprocess, sys
def make(id, property, needs, what, edits, demo, demo_args=""):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    assert not subprocess.check_output(["git", "-C", "/repo", "status", "--porcelain"])
    try:
        for f, old, new in edits:
            p = "/repo/src/aws/osml/" + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", "/repo", "diff"], text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.py", "w").write(demo)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd is /repo; exit 0 when the behaviour is right\ncd /repo\nPYTHONPATH=/repo/src PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({"property": property, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
    print("made", id)
