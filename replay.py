#!/opt/venv/bin/python
"""replay.py FILE: run a reported counterexample on the real, unpatched code."""
import json
import os
import sys
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.environ.get("GLIMPSE_REPO", "/repo"), "src"))
sys.path.insert(1, HERE)
os.environ.setdefault("MPLBACKEND", "agg")
warnings.simplefilter("ignore")

v = json.load(open(sys.argv[1]))
import importlib

mod = importlib.import_module("props." + v["property"])
from symx import sym

h = {h.name: h for h in mod.HARNESSES}[v["harness"]]
r = sym.run_concrete(h.fn, v["config"], v["values"])
print("inputs:", json.dumps(v["values"]))
print("config:", v["config"])
print(json.dumps(r, indent=1, default=str))
sys.exit(0 if r["outcome"] == "ok" else 1)
