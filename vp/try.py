"""developer loop: generate a unit and run Verus, printing mapped errors"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import verusrun
name = sys.argv[1]
d = os.environ.get("OUT", "/tmp/vp"); os.makedirs(d, exist_ok=True)
o = verusrun.run_unit(name, os.environ.get("REPO", "/repo"), d, sys.argv[2:])
for n in o.notes:
    if not n.startswith("dropped"): print("note:", n)
if o.missing: print("MISSING", o.missing)
verusrun.show(o)
