#!/opt/venv/bin/python
"""Runs checks against a list of source changes, in copies: tools/trybugs.py FILE.py [--workers 3] [--tests]

FILE.py defines TRY = [(name, "ID[,ID]", [(file, old, new), ...])]. Reports which changes no check notices.
"""
import argparse
import concurrent.futures as cf
import os
import re
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plant


def one(args):
    name, ids, edits, tests = args
    d, copy = plant.copy_repo(name)
    try:
        for f, old, new in edits:
            p = os.path.join(copy, f)
            s = open(p).read()
            if s.count(old) != 1:
                return name, "EDIT", "{} occurrences of {!r} in {}".format(s.count(old), old[:60], f)
            open(p, "w").write(s.replace(old, new))
        note = ""
        if tests:
            broken = plant.stable_tests(copy)
            if broken:
                note = " (tests break: {})".format(broken[:2])
        out = []
        for i in ids.split(","):
            e = dict(os.environ, VERIF_REPO=copy, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_REPLAY_DIR=d, VERIF_NOSHRINK="1")
            r = subprocess.run(["/opt/venv/bin/python", "-B", "check.py", i, "--tier", "quick", "--jobs", "3"], cwd=VERIF,
                               capture_output=True, text=True, timeout=1800, env=e)
            txt = r.stdout + r.stderr
            if r.returncode == 1:
                v = re.findall(r"VIOLATION.*", txt)
                why = [l for l in txt.splitlines() if l.strip()]
                return name, "caught", "{}{} {}".format(i, note, " ".join(why[:3])[:200])
            out.append("{}={}".format(i, r.returncode))
        return name, "MISSED", ",".join(out) + note
    except Exception as ex:
        return name, "ERROR", repr(ex)
    finally:
        shutil.rmtree(d)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("file")
    ap.add_argument("--workers", type=int, default=3)
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--only")
    a = ap.parse_args()
    todo = [(n, i, e, a.tests) for n, i, e in runpy.run_path(a.file)["TRY"] if not a.only or re.search(a.only, n)]
    with cf.ThreadPoolExecutor(a.workers) as ex:
        for name, res, what in ex.map(one, todo):
            print("{:8} {:40} {}".format(res, name, what), flush=True)


main()
