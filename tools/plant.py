#!/usr/bin/env python3
"""tools/plant.py DEFS.py [NAME...] [--notest] [--check CNN,..]

DEFS.py defines M = [dict(name=, prop=, edits=[(file, old, new), ...])].  Every mutant is written as a diff to
/tmp/s/mut/NAME.diff, built from a scratch copy, run against the repository's stable tests and then against its
property's check; one line per mutant is printed.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import sys
import runpy
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def prepare(m, root):
    w = os.path.join(root, m["name"])
    os.makedirs(w)
    subprocess.run(["git", "clone", "-q", "--shared", "/repo", w + "/repo"], check=True)
    for f, old, new in m["edits"]:
        p = os.path.join(w, "repo", f)
        s = open(p).read()
        if s.count(old) != 1:
            return "edit of %s matches %d times: %r" % (f, s.count(old), old[:60])
        open(p, "w").write(s.replace(old, new))
    d = subprocess.run(["git", "-C", w + "/repo", "diff"], stdout=subprocess.PIPE, text=True, check=True).stdout
    os.makedirs("/tmp/s/mut", exist_ok=True)
    open("/tmp/s/mut/%s.diff" % m["name"], "w").write(d)
    return None


def build_and_test(m, root, test):
    w = os.path.join(root, m["name"])
    env = dict(os.environ, VERIF_REPO=w + "/repo", PYTHONPATH=HERE)
    r = subprocess.run([PY, "-m", "vlib.build", "plain"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode:
        return "BUILD FAILS " + r.stderr[-300:]
    if not test:
        return "tests-skipped"
    pkg = r.stdout.strip().splitlines()[-1]
    t = w + "/t"
    shutil.copytree(pkg, t)
    shutil.copytree("/repo/tests", t + "/tests")
    env = dict(os.environ, PYTHONHASHSEED="0", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="2", OMP_WAIT_POLICY="passive", IMPLICIT_DISABLE_CUDA="1", PYTHONDONTWRITEBYTECODE="1")
    env.pop("PYTHONPATH", None)
    subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "no:xdist", "--timeout=300", "--continue-on-collection-errors",
                    "-o", "junit_family=xunit2", "--junitxml=" + w + "/j.xml", "tests"], cwd=t, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    subprocess.run([PY, "/opt/vp/results.py", w + "/o.json", "junit:" + w + "/j.xml"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    try:
        o = json.load(open(w + "/o.json"))
    except Exception as e:
        return "NO TEST RESULT %s" % e
    passed = set(o.get("passed", []))
    miss = sorted(STABLE - passed)
    return "tests-ok" if not miss else "TESTS FAIL %d %s" % (len(miss), miss[0])


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    test = "--notest" not in sys.argv
    over = [a.split("=")[1].split(",") for a in sys.argv if a.startswith("--check=")]
    M = runpy.run_path(args[0])["M"]
    if args[1:]:
        M = [m for m in M if m["name"] in args[1:] or m["prop"] in args[1:]]
    root = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    try:
        status = {}
        for m in M:
            e = prepare(m, root)
            if e:
                status[m["name"]] = "EDIT FAILS " + e
        todo = [m for m in M if m["name"] not in status]
        with concurrent.futures.ThreadPoolExecutor(6) as ex:
            for m, s in zip(todo, ex.map(lambda m: build_and_test(m, root, test), todo)):
                status[m["name"]] = s
        for m in M:
            s = status[m["name"]]
            line = "%-28s %-4s %s" % (m["name"], m["prop"], s)
            if s in ("tests-ok", "tests-skipped"):
                for c in (over[0] if over else [m["prop"]] + m.get("also", [])):
                    w = os.path.join(root, m["name"])
                    env = dict(os.environ, VERIF_REPO=w + "/repo", VERIF_EVIDENCE=w + "/ev", VERIF_REPLAY=w + "/rp")
                    r = subprocess.run([HERE + "/check", c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    v = re.search(r"^violation.*$|^INCON.*$", r.stdout, re.M)
                    line += " | %s %s" % (c, "CAUGHT" if r.returncode == 1 else "MISSED" if r.returncode == 0 else "rc=%d" % r.returncode)
                    line += " " + (v.group(0)[:150] if v else "")
            print(line, flush=True)
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
