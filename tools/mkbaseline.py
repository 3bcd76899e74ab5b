"""Regenerates vp/baseline_literals.json from the tree at /repo (run when /repo's HEAD changes by a fix commit)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = open(os.path.join(here, "vp", "env.py")).read()
ns = {"ast": __import__("ast"), "os": os, "SRC": "/repo/src"}
exec(src[src.index("def mine"):src.index("def _mined")], ns)
s, i = ns["mine"]("/repo/src")
json.dump({"strings": sorted(s), "ints": sorted(i)}, open(os.path.join(here, "vp", "baseline_literals.json"), "w"), indent=0)
