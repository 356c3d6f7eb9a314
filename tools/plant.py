#!/opt/venv/bin/python
"""Create and verify planted bugs.

plant.py verify ID...       re-verify existing /verif/seeded/ID (patch applies, tests pass, demo, checks)
plant.py make FILE.py       FILE.py defines BUGS = [dict(id, property, edits=[(file, old, new)], demo, needs, breaks)]
"""
import json, os, shutil, subprocess, sys, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(VERIF, "seeded")
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def env_for(copy):
    e = dict(os.environ, PYTHONPATH=copy, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
    e.pop("VERIF_SEED", None)
    return e


def copy_repo(tag):
    d = tempfile.mkdtemp(prefix="plant-" + tag + "-", dir="/tmp")
    c = os.path.join(d, "repo")
    sh("git clone -q /repo " + c)
    return d, c


def stable_tests(copy):
    out = os.path.join(os.path.dirname(copy), "junit.xml")
    r = sh([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--continue-on-collection-errors", "-o", "python_files=*.py",
            "--ignore=amlib/soc", "--ignore=amlib/debug", "--ignore=amlib/stream/uart.py", "-o", "junit_family=xunit2",
            "--junitxml=" + out, "amlib", "test"], cwd=copy, env=env_for(copy))
    res = os.path.join(os.path.dirname(copy), "res.json")
    sh(["/usr/bin/python3", "/opt/vp/results.py", res, "junit:" + out])
    got = json.load(open(res))
    return sorted(STABLE - set(got["passed"]))


def verify(bid, checks=True):
    src = os.path.join(SEED, bid)
    meta = json.load(open(os.path.join(src, "meta.json")))
    d, copy = copy_repo(bid)
    msgs = []
    ok = True
    try:
        # demo lies elsewhere, without patch and meta
        demo = os.path.join(d, "demo")
        shutil.copytree(src, demo, ignore=shutil.ignore_patterns("*.diff", "*.patch", "meta.json"))
        r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=copy, env=env_for(copy), timeout=300)
        if r.returncode != 0:
            ok = False
            msgs.append("demo fails on the clean tree: " + (r.stdout + r.stderr)[-600:])
        r = sh(["git", "apply", os.path.join(src, "patch.diff")], cwd=copy)
        if r.returncode:
            return bid, False, ["patch does not apply: " + r.stderr]
        r = sh(["bash", os.path.join(demo, "demo.sh")], cwd=copy, env=env_for(copy), timeout=300)
        if r.returncode == 0:
            ok = False
            msgs.append("demo passes with the patch")
        else:
            msgs.append("demo: " + (r.stdout + r.stderr).strip().splitlines()[-1][-160:])
        miss = stable_tests(copy)
        if miss:
            ok = False
            msgs.append("stable tests broken: " + ", ".join(miss))
        if checks:
            e = dict(os.environ, VERIF_REPO=copy, VERIF_REPLAY_DIR=d, VERIF_TIER="quick", VERIF_SEED="1")
            r = sh([PY, "-B", os.path.join(VERIF, "check.py"), meta["property"]], cwd=VERIF, env=e, timeout=900)
            caught = r.returncode == 1 and "VIOLATION property=" + meta["property"] in r.stdout
            msgs.append(("CAUGHT " if caught else "MISSED ") + r.stdout.strip().splitlines()[0][:200] if r.stdout.strip() else "NO OUTPUT " + r.stderr[-300:])
    finally:
        shutil.rmtree(d)
    return bid, ok, msgs


def make(path):
    ns = {}
    exec(open(path).read(), ns)
    ids = []
    for b in ns["BUGS"]:
        d, copy = copy_repo(b["id"])
        try:
            bad = False
            for f, old, new in b["edits"]:
                p = os.path.join(copy, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b["id"], "EDIT MATCHES", s.count(old), "TIMES:", old)
                    bad = True
                    continue
                open(p, "w").write(s.replace(old, new))
            if bad:
                continue
            diff = sh("git diff", cwd=copy).stdout
            out = os.path.join(SEED, b["id"])
            os.makedirs(out, exist_ok=True)
            open(os.path.join(out, "patch.diff"), "w").write(diff)
            open(os.path.join(out, "demo.sh"), "w").write(
                '#!/bin/bash\n# cwd: the repository; exits 0 when the behaviour is right\n'
                'PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n')
            open(os.path.join(out, "demo.py"), "w").write(b["demo"])
            for n, txt in b.get("files", {}).items():
                os.makedirs(os.path.dirname(os.path.join(out, n)), exist_ok=True)
                open(os.path.join(out, n), "w").write(txt)
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(out, "meta.json"), "w"), indent=1)
            ids.append(b["id"])
        finally:
            shutil.rmtree(d)
    return ids


def main():
    if sys.argv[1] == "make":
        ids = [i for f in sys.argv[2:] for i in make(f)]
    else:
        ids = sys.argv[2:] or sorted(os.listdir(SEED))
    with cf.ThreadPoolExecutor(3) as ex:
        for bid, ok, msgs in ex.map(verify, ids):
            print(("ok   " if ok else "BAD  ") + bid)
            for m in msgs:
                print("      " + m)


if __name__ == "__main__":
    main()
