#!/usr/bin/env python3
"""Confirm planted bugs and store them under /verif/seeded.

usage: plant.py FILE.py [ID ...]     (FILE defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo)])

For each bug: scratch copy of /repo, the edit, build (compile and import), existing tests, the demo on both trees,
then the quick check of the property against the copy.  Nothing is stored unless the bug is confirmed.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
DEMO_SH = 'export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MT_METADATA_DISABLE_DISK_CACHE=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n'
DEMO_HEAD = "import warnings; warnings.simplefilter('ignore')\nfrom loguru import logger; logger.remove()\n"


def sh(cmd, cwd, timeout=900, **env):
    e = {**os.environ, "MPLBACKEND": "Agg", "PYTHONHASHSEED": "0", "PYTHONDONTWRITEBYTECODE": "1", "TZ": "UTC", "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", **env}
    r = subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, timeout=timeout, env=e)
    return r.returncode, r.stdout + r.stderr


def tests(tree, tmp):
    rep = os.path.join(tmp, "j.xml")
    sh(f"{PY} -m pytest -q -p no:cacheprovider --basetemp={tmp}/t -n 3 --dist loadfile -m 'not internet' --timeout=300 -o junit_family=xunit2 --junitxml={rep}", tree)
    rc, out = sh(f"/usr/bin/python3 /opt/vp/results.py {tmp}/o.json junit:{rep}", tree)
    passed = set(json.load(open(f"{tmp}/o.json"))["passed"])
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed]


def one(bug):
    tmp = tempfile.mkdtemp(prefix="seed.")
    try:
        tree = os.path.join(tmp, "repo")
        shutil.copytree("/repo", tree, symlinks=True)
        demo = os.path.join(tmp, "demo")
        os.mkdir(demo)
        open(f"{demo}/demo.sh", "w").write(DEMO_SH)
        open(f"{demo}/demo.py", "w").write(DEMO_HEAD + bug["demo"].strip() + "\n")
        rc0, out0 = sh(f"bash {demo}/demo.sh", tree, 300)
        if rc0 != 0:
            return bug["id"], "REJECT demo fails on the unchanged tree", out0[-600:]
        for f, old, new in bug["edits"]:
            p = os.path.join(tree, f)
            s = open(p).read()
            if s.count(old) != 1:
                return bug["id"], f"REJECT {s.count(old)} occurrences of the text in {f}", old
            open(p, "w").write(s.replace(old, new))
        rc1, out1 = sh(f"bash {demo}/demo.sh", tree, 300)
        if rc1 == 0:
            return bug["id"], "REJECT demo passes with the change", ""
        failed = tests(tree, tmp)
        if failed:
            return bug["id"], f"REJECT existing tests notice: {len(failed)}", str(failed[:3])
        _, diff = sh("git diff", tree)
        rc, out = sh(f"{PY} vp/run.py {bug['property']} --tier quick --jobs 3", os.path.dirname(SEEDED), VP_REPO=tree, VP_OUT=tmp)
        d = os.path.join(SEEDED, bug["id"])
        os.makedirs(d, exist_ok=True)
        open(f"{d}/patch.diff", "w").write(diff)
        for n in ("demo.sh", "demo.py"):
            shutil.copy(f"{demo}/{n}", d)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, open(f"{d}/meta.json", "w"), indent=1)
        caught = rc == 1 and f"VIOLATION property={bug['property']}" in out
        line = next((x for x in out.splitlines() if x.startswith("---")), "" if caught else out[-300:])
        return bug["id"], "caught" if caught else "MISSED", line[:160]
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    if sys.argv[2:]:
        bugs = [b for b in bugs if b["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(3) as ex:
        for r in ex.map(one, bugs):
            print(*r, sep=" | ", flush=True)
