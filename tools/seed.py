#!/usr/bin/env python3
"""tools/seed.py SEEDS.py [ID...] : writes seeded/<id>/ from definitions and confirms each in scratch copies
(builds, stable tests pass, demo passes without and fails with the change)"""
import concurrent.futures
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv, args = [sys.argv[0]], sys.argv[1:]
PLANT = {"__file__": __file__}
src = open(os.path.join(HERE, "tools", "plant.py")).read().replace("\nmain()\n", "\n")
exec(compile(src, "plant.py", "exec"), PLANT)

SH = """#!/bin/bash
# run with the repository as working directory, after its build
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = """import os
import sys

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
sys.path.insert(0, os.getcwd())
import warnings  # noqa: E402

warnings.simplefilter("ignore")
"""


def run_demo(d, cwd):
    return subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def one(s, root, base):
    m = dict(name=s["id"], edits=s["edits"])
    e = PLANT["prepare"](m, root)
    if e:
        return "EDIT FAILS " + e
    st = PLANT["build_and_test"](m, root, True)
    if st != "tests-ok":
        return st
    d = os.path.join(HERE, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    shutil.copy("/tmp/s/mut/%s.diff" % s["id"], d + "/patch.diff")
    open(d + "/demo.sh", "w").write(SH)
    open(d + "/demo.py", "w").write(HEAD + s["demo"].lstrip("\n"))
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    a = run_demo(d, base)
    b = run_demo(d, os.path.join(root, s["id"], "t"))
    if a.returncode != 0:
        return "DEMO FAILS WITHOUT THE CHANGE rc=%d %s" % (a.returncode, a.stdout[-300:])
    if b.returncode == 0:
        return "DEMO PASSES WITH THE CHANGE"
    return "ok (demo rc %d %s)" % (b.returncode, b.stdout.strip()[-80:])


def main():
    S = runpy.run_path(args[0])["SEEDS"]
    if args[1:]:
        S = [s for s in S if s["id"] in args[1:]]
    root = tempfile.mkdtemp(prefix="seed.", dir="/tmp")
    try:
        env = dict(os.environ, PYTHONPATH=HERE)
        base = subprocess.run([PLANT["PY"], "-m", "vlib.build", "plain"], env=env, stdout=subprocess.PIPE, text=True, check=True).stdout.strip().splitlines()[-1]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for s, r in zip(S, ex.map(lambda s: one(s, root, base), S)):
                print("%-34s %s %s" % (s["id"], s["prop"], r), flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
