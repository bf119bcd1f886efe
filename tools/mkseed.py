#!/usr/bin/env python3
"""mkseed.py [ID ...]: write /verif/seeded/<id>/ from tools/seeds.py, and confirm each in a
scratch copy of /repo (compiles, stable tests pass, demonstration passes without and fails with it)."""
import json, os, re, shutil, subprocess, sys, tempfile
import xml.etree.ElementTree as ET
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "tools"))
from seeds import SEEDS
DEMO = """#!/bin/bash
# exit 0: behaves as stated; non-zero: broken. Run with the current directory = the repository.
here=$(cd "$(dirname "$0")" && pwd); repo=$(pwd)
work=$(mktemp -d); trap 'rm -rf "$work"' EXIT
cd "$work" || exit 3
export HOME="$work/home" PYTHONPATH="$repo" PYTHONDONTWRITEBYTECODE=1
mkdir -p "$HOME" "$work/w" && cd "$work/w" || exit 3
timeout -k 5 %d /opt/venv/bin/python "$here/demo.py"
"""
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def tests(repo):
    x = tempfile.mktemp(suffix=".xml")
    shutil.rmtree("/tmp/licant", ignore_errors=True)
    env = dict(os.environ, PYTEST_ADDOPTS="-q -p no:cacheprovider --timeout=30 -o junit_family=xunit2 -o testpaths=tests --junitxml=" + x,
               PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONPATH=repo)
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest"], cwd=repo, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=600)
    ok = set()
    for c in ET.parse(x).getroot().iter("testcase"):
        if not list(c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    os.unlink(x)
    return stable - ok


def one(s):
    d = os.path.join(ROOT, "seeded", s["id"])
    os.makedirs(d, exist_ok=True)
    demo = s["demo"]
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write(demo)
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write(DEMO % s.get("timeout", 60))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    work = tempfile.mkdtemp(prefix="seedwt")
    try:
        repo = os.path.join(work, "repo")
        subprocess.run(["cp", "-a", "/repo", repo], check=True)
        run = lambda: subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=repo, capture_output=True, text=True)
        r0 = run()
        for fn, old, new in s["edits"]:
            p = os.path.join(repo, fn)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], fn, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        subprocess.run([sys.executable, "-m", "compileall", "-q", "licant"], cwd=repo, check=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        diff = subprocess.run(["git", "diff", "--", "licant"], cwd=repo, capture_output=True, text=True).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        bad = tests(repo)
        rs = [run() for _ in range(3)]
        okd = r0.returncode == 0 and all(r.returncode != 0 for r in rs)
        print(s["id"], "OK" if okd and not bad else "REJECT", "clean rc", r0.returncode, "patched rc", [r.returncode for r in rs], "tests broken", bad)
        if not okd:
            print("   clean:", r0.stdout[-500:], r0.stderr[-800:], "\n   patched:", rs[0].stdout[-300:], rs[0].stderr[-500:])
        return okd and not bad
    finally:
        shutil.rmtree(work)


if __name__ == "__main__":
    want = sys.argv[1:]
    for s in SEEDS:
        if not want or s["id"] in want:
            if not one(s):
                print("   -> fix or drop", s["id"])
