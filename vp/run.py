#!/opt/venv/bin/python
"""
usage: run.py --selftest | run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SUB[,SUB]]

exit 0: held on everything explored   exit 1: VIOLATION line   exit 2: machinery error
"""
import os
import sys

os.environ.update(
    PYTHONDONTWRITEBYTECODE="1",
    MPLBACKEND="Agg",
    TZ="UTC",
    OPENBLAS_NUM_THREADS="1",
    OMP_NUM_THREADS="1",
    MT_METADATA_DISABLE_DISK_CACHE="1",
)
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, "-B"] + sys.argv)
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
# the code under test: always the working tree
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, REPO)
# hypothesis lives in the tooling venv; appended last so that the repository's own
# environment wins for everything else
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")

import argparse
import importlib
import json
import multiprocessing as mp
import shutil
import tempfile
import time
import traceback
import warnings

warnings.simplefilter("ignore")


def remember_datums():
    """Look up every datum once.  pyproj needs 10 ms for each of them, which is most of
    the time of most cases, and its CRS objects do not change."""
    from pyproj import CRS

    plain = CRS.from_user_input.__func__
    known = {}

    def from_user_input(cls, value, **kwargs):
        if type(value) is not str or kwargs:
            return plain(cls, value, **kwargs)
        if (cls, value) not in known:
            known[cls, value] = plain(cls, value)
        return known[cls, value]

    CRS.from_user_input = classmethod(from_user_input)


def worker(args):
    modname, sub_name, tier, seed = args
    from vp import core

    remember_datums()
    mod = importlib.import_module(modname)
    sub = next(s for s in mod.C.subs if s.name == sub_name)
    try:
        return core.run_sub(mod.C, sub, tier, seed)
    except BaseException:
        return dict(
            name=sub_name, doc="", evals=0, distinct=0, nontrivial=0, tags={}, samples=[],
            skipped_over_budget=0, fail=None, harness=traceback.format_exc()[-4000:], wall=0,
        )


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--selftest", action="store_true", help="import everything, run nothing")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VP_JOBS", "8")))
    a = ap.parse_args()
    tier = "thorough" if a.tier == "thorough" else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.monotonic()
    scratch = tempfile.mkdtemp(prefix="vp_")
    os.environ["VP_SCRATCH"] = scratch
    os.environ["MT_METADATA_CACHE_DIR"] = os.path.join(scratch, "cache")
    tempfile.tempdir = scratch
    cwd = os.path.join(scratch, "cwd")
    os.makedirs(cwd)
    os.chdir(cwd)
    try:
        if a.selftest:
            return selftest()
        return run(a, tier, seed, t0)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        print(f"HARNESS-ERROR property={a.property}")
        return 2
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)


def selftest():
    import hypothesis

    import mt_metadata

    for f in sorted(os.listdir(os.path.join(VERIF, "checks"))):
        if f.endswith(".py"):
            importlib.import_module("checks." + f[:-3])
    print("selftest: hypothesis", hypothesis.__version__, "mt_metadata", mt_metadata.__version__)
    return 0


def run(a, tier, seed, t0):
    pid = a.property
    from vp import core

    import mt_metadata

    if not os.path.abspath(mt_metadata.__file__).startswith(REPO + "/"):
        raise core.HarnessError(f"mt_metadata imported from {mt_metadata.__file__}")
    from loguru import logger

    logger.remove()
    logger.disable("mt_metadata")

    mods = [f[:-3] for f in sorted(os.listdir(os.path.join(VERIF, "checks"))) if f.startswith(pid.lower() + "_")]
    if len(mods) != 1:
        raise core.HarnessError(f"no unique check module for {pid}: {mods}")
    modname = "checks." + mods[0]
    mod = importlib.import_module(modname)
    chk = mod.C
    assert chk.property == pid, (chk.property, pid)
    known = set()
    with open(os.path.join(VERIF, "known_findings.txt")) as f:
        for line in f:
            w = line.split()
            if len(w) >= 3 and w[0] == "finding:" and w[1] == f"property={pid}" and w[2].startswith("id="):
                known.add(w[2][3:])

    if a.replay:
        rp = json.load(open(a.replay))
        sub = next(s for s in chk.subs if s.name == rp["sub"])
        blob = rp.get("blob")
        res = core.run_sub(chk, sub, rp.get("tier", "quick"), rp.get("seed", seed),
                           reproduce=blob.encode() if blob else None)
        if res["fail"]:
            print(res["fail"]["error"])
            print(res["fail"]["traceback"])
            print(f"VIOLATION property={pid} replay={a.replay}")
            return 1
        if res["harness"]:
            print(res["harness"])
            return 2 if "DidNotReproduce" not in res["harness"] else 0
        print("replay: no failure")
        return 0

    violations, harness = [], []
    # ---- known findings -------------------------------------------------
    for fid, probe in chk.known:
        try:
            msg = probe()
        except BaseException as exc:  # the probe itself must not raise
            msg = None
            harness.append(f"known-finding probe {fid} raised: {traceback.format_exc()[-1500:]}")
        if msg:
            if fid in known:
                print(f"KNOWN-FINDING: property={pid} {fid}: {msg}")
            else:
                violations.append(dict(sub=f"known:{fid}", error=msg, case=fid, traceback="", blob=None))

    subs = chk.subs
    if a.only:
        subs = [s for s in subs if s.name in a.only.split(",")]
    jobs = [(modname, s.name, tier, seed) for s in subs]
    if a.jobs <= 1 or len(jobs) == 1:
        results = [worker(j) for j in jobs]
    else:
        from concurrent.futures import ProcessPoolExecutor

        ctx = mp.get_context("fork")
        results = []
        with ProcessPoolExecutor(min(a.jobs, len(jobs)), mp_context=ctx, max_tasks_per_child=None) as ex:
            futs = [ex.submit(worker, j) for j in jobs]
            for j, f in zip(jobs, futs):
                try:
                    results.append(f.result())
                except BaseException as exc:
                    harness.append(f"{j[1]}: worker died: {exc!r}")
    for r in results:
        if r["fail"]:
            violations.append(dict(sub=r["name"], **r["fail"]))
        elif r["harness"]:
            harness.append(f"{r['name']}: {r['harness']}")

    wall = round(time.monotonic() - t0, 2)
    evals = sum(r["evals"] for r in results)
    nontriv = sum(r["nontrivial"] for r in results)
    samples = [dict(sub=r["name"], case=s) for r in results for s in r["samples"][:2]]
    for r in results:
        print(
            f"{pid} {r['name']}: {r['evals']} cases, {r['nontrivial']} distinct non-trivial, "
            f"{r['wall']} s{' (over budget, ' + str(r['skipped_over_budget']) + ' not run)' if r['skipped_over_budget'] else ''}"
        )
    out = os.environ.get("VP_OUT", VERIF)  # elsewhere when a planted bug is tried
    rdir = os.path.join(out, "replays")
    vio_out = []
    for i, v in enumerate(violations):
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"{pid}-{v['sub'].replace(':', '_')}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, sub=v["sub"], tier=tier, seed=seed, error=v["error"],
                           case=v["case"], blob=v.get("blob"), traceback=v["traceback"]), f, indent=1)
        vio_out.append(dict(sub=v["sub"], error=v["error"][:800], replay=path))
        print(f"--- {v['sub']}: {v['error'][:1500]}")
        print(f"    case: {str(v['case'])[:1500]}")
        print(f"VIOLATION property={pid} replay={path}")
    if not a.only:
        ev = dict(
            property=pid,
            tier=tier,
            seed=seed,
            level="exploration",
            coverage=dict(
                evaluations=evals,
                distinct_nontrivial=nontriv,
                rule=chk.rule,
                samples=samples[:40],
                sub_properties=[
                    {k: r[k] for k in ("name", "doc", "evals", "distinct", "nontrivial", "tags", "wall", "skipped_over_budget")}
                    for r in results
                ],
                known_findings=[k for k, _ in chk.known],
                violation_details=vio_out,
            ),
            assumptions=chk.assumptions,
            wall_s=wall,
            violations=len(vio_out),
        )
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True)
        with open(os.path.join(out, "evidence", f"{pid}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for h in harness:
        print("HARNESS:", h)
    print(f"{pid}: {evals} cases, {nontriv} distinct non-trivial, {wall} s, {len(violations)} violation(s)")
    if violations:
        return 1
    if harness:
        print(f"HARNESS-ERROR property={pid}")
        return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(rc)
