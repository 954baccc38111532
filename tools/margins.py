"""Observation minima against what the last quick run observed (run all checks first)."""
import importlib, json, os, sys, glob
sys.path.insert(0, "/verif")
from vlib import core
core.prepare_env(); core._quiet()
for f in sorted(glob.glob("/verif/props/p[0-9]*.py")):
    pid = os.path.basename(f)[:-3].upper()
    mod = importlib.import_module("props." + pid.lower())
    e = json.load(open(f"/verif/evidence/{pid}.json"))
    ev = e["coverage"]["observed_events"]
    low = {k: (ev.get(k, 0), n) for k, n in mod.MIN.items() if ev.get(k, 0) < 1.5 * n}
    print(pid, e["tier"], e["seed"], "low:", low if low else "-")
