"""Creates /verif/seeded/<id> from a definition and confirms it in a scratch copy.

    plant.py DEFS.py [ID ...] [--jobs N]

DEFS.py defines SEEDS, a list of dicts: id, property, edits [(file, old, new)],
demo (python source), needs, what.  Kept only if: the edited tree imports, the
stable tests pass with it, and the demonstration passes without and fails with
it.  The checks run on it are then recorded in /tmp/seed/caught.json.
"""
import json
import os
import shutil
import subprocess
import sys
import threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
V1 = "tests/e2e/models/andromede-v1/test_andromede_v1_models.py"
ENV = dict(
    os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", TZ="UTC", OMP_NUM_THREADS="1"
)
lock = threading.Lock()
DEMO_SH = """#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/src"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(args, cwd, env=None, timeout=600):
    try:
        r = subprocess.run(
            args, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout
        )
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable(base, d):
    """True if every stable test passes in d."""
    report = os.path.join(d, "junit.xml")
    sh(
        [PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "-o", "log_cli=false", "-W", "ignore", "--timeout=300",
         "--continue-on-collection-errors", "--ignore=tests/pypsa_converter", "-o", "junit_family=xunit2",
         "--junitxml=" + report],
        d, dict(ENV, PYTHONPATH=d + "/src"), 900,
    )
    out = os.path.join(d, "o.json")
    sh([PY, "/opt/vp/results.py", out, "junit:" + report], d)
    return sorted(set(base["stable"]) - set(json.load(open(out))["passed"]))


def one(s, base):
    d = f"/tmp/seed/{s['id']}"
    if os.path.exists(d):
        shutil.rmtree(d)
    sh(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), d], "/tmp")
    dest = f"{VERIF}/seeded/{s['id']}"
    tmp = f"/tmp/seed/{s['id']}.out"
    os.makedirs(tmp, exist_ok=True)
    open(f"{tmp}/demo.sh", "w").write(DEMO_SH)
    os.chmod(f"{tmp}/demo.sh", 0o755)
    open(f"{tmp}/demo.py", "w").write(s["demo"].lstrip())
    json.dump(
        {"property": s["property"], "needs": s["needs"], "what_it_breaks": s["what"]},
        open(f"{tmp}/meta.json", "w"), indent=1,
    )
    try:
        rc, out = sh(["bash", f"{tmp}/demo.sh"], d)
        if rc != 0:
            return f"demo fails on the unchanged tree:\n{out[-1500:]}"
        for f, old, new in s["edits"]:
            p = os.path.join(d, f)
            src = open(p).read()
            if src.count(old) != 1:
                return f"{src.count(old)} occurrences of {old!r} in {f}"
            open(p, "w").write(src.replace(old, new))
        rc, diff = sh(["git", "diff"], d)
        open(f"{tmp}/patch.diff", "w").write(diff)
        rc, out = sh(["bash", f"{tmp}/demo.sh"], d)
        if rc == 0:
            return "demo passes with the patch"
        missing = stable(base, d)
        if missing:
            return f"tests fail: {missing[:4]}"
        if os.path.exists(dest):
            shutil.rmtree(dest)
        shutil.copytree(tmp, dest)
        caught = {}
        for c in [s["property"]] + s.get("also", []):
            rc, out = sh(
                [PY, "-B", f"{VERIF}/check.py", c, "--tier", "quick", "--seed", "1"], VERIF,
                dict(ENV, VERIF_REPO=d, VERIF_OUT=tmp), 1500,
            )
            open(f"{tmp}/{c}.log", "w").write(out)
            caught[c] = rc
        with lock:
            p = "/tmp/seed/caught.json"
            data = json.load(open(p)) if os.path.exists(p) else {}
            data[s["id"]] = caught
            json.dump(data, open(p, "w"), indent=1)
        return f"kept, demo rc!=0 ({out and ''}), checks {caught}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    jobs = 3
    args = sys.argv[1:]
    if "--jobs" in args:
        i = args.index("--jobs")
        jobs = int(args[i + 1])
        del args[i:i + 2]
    ns = {}
    exec(open(args[0]).read(), ns)
    seeds = [s for s in ns["SEEDS"] if not args[1:] or s["id"] in args[1:]]
    base = json.load(open("/opt/vp/BASELINE.json"))

    def go(s):
        r = one(s, base)
        print(f"== {s['id']} ({s['property']}): {r}", flush=True)

    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(go, seeds))


main()
