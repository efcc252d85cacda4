"""python3-vt replay.py FILE [--root DIR]: evaluates the contract of a replay file's failing input on the real code."""
import json
import os
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vc import build           # noqa
from concrete import manage    # noqa

root = sys.argv[sys.argv.index("--root") + 1] if "--root" in sys.argv else "/repo"
rep = json.load(open(sys.argv[1]))
if "case" not in rep:
    print("no failing input in this file; failed obligations:")
    for f in rep["failed_obligations"]:
        print("  %s [%s]\n%s" % (f["name"], f["status"], f.get("model") or f.get("detail") or ""))
    sys.exit(1)
d = build.scratch(os.path.abspath(root))
with tempfile.TemporaryDirectory() as t:
    v = manage.run_one(rep["property"], d, rep["target"], rep["case"], 120, t, repeat=20)
print(json.dumps(v, indent=1) if v else "holds on this input")
sys.exit(1 if v else 0)
