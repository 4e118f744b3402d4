#!/opt/venv/bin/python
"""tools/replay.py REPLAY.json : re-runs the case of a violation against /repo's current tree"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vlib import build  # noqa: E402

d = json.load(open(sys.argv[1]))
pkg = build.build("plain")
env = dict(os.environ, PYTHONPATH=pkg + ":" + build.VERIF, OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
           VERIF_PKG=pkg, VERIF_SCRATCH="/tmp", HOME="/tmp", VERIF_TIER=d["tier"], VERIF_SEED=str(d["seed"]))
out = "/tmp/replay-%d.json" % os.getpid()
os.spawnve(os.P_WAIT, build.PY, [build.PY, "-m", "vlib.worker", d["module"], "0", "1", d["tier"], str(d["seed"]), out,
                                 json.dumps(d["spec"])], env)
if os.path.exists(out):
    res = json.load(open(out))
    for v in res["violations"]:
        print(v["msg"])
        for k, x in v["detail"].items():
            print("  ", k, "=", x)
        print(v["tb"])
    print("violations:", len(res["violations"]), "errors:", res["errors"])
    os.remove(out)
    if os.path.exists(out + ".progress"):
        os.remove(out + ".progress")
