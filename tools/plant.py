#!/usr/bin/env python3
"""plant.py ID... [--tests] [--all]: confirm planted bugs in scratch copies of /repo.

For each id: the patch applies, the demo exits 0 without and nonzero with it,
(--tests) the stable tests still pass, and whether the property's check (or,
--all, every check) catches it.  Development aid; no check uses it.
"""
import concurrent.futures as cf
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
tests, allc, nocheck = "--tests" in args, "--all" in args, "--nocheck" in args
ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))
props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]


def sh(cmd, cwd, env=None, timeout=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, shell=isinstance(cmd, str), timeout=timeout)
    return p.returncode, p.stdout


def one(i):
    d = os.path.join(V, "seeded", i)
    res = {"id": i}
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="plant_")
    r = w + "/repo"
    try:
        sh(["cp", "-a", os.environ.get("VERIF_REPO", "/repo"), r], "/")
        res["demo0"] = sh(["bash", d + "/demo.sh"], r)[0]
        rc, out = sh(["git", "apply", d + "/patch.diff"], r)
        if rc:
            return {"id": i, "apply": out}
        rc, out = sh(["bash", d + "/demo.sh"], r)
        res["demo1"] = rc
        res["out"] = out[-200:]
        if tests:
            t = open("/opt/vp/test.sh").read().replace("cd /repo", "cd " + r)
            open(w + "/test.sh", "w").write(t)
            sh(["bash", w + "/test.sh", w + "/out.json"], r)
            passed = set(json.load(open(w + "/out.json"))["passed"])
            miss = [x for x in json.load(open("/opt/vp/BASELINE.json"))["stable"] if x not in passed]
            res["tests_missing"] = miss[:4]
        if not nocheck:
            vv = w + "/verif"
            shutil.copytree(V, vv, ignore=shutil.ignore_patterns("seeded", ".git", "evidence", "replays"))
            e = dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick")
            for p in (props if allc else [meta["property"]]):
                rc, out = sh(["python3", "check.py", p, "quick"], vv, e)
                if rc or p == meta["property"]:
                    res["check_" + p] = (rc, [l for l in out.splitlines() if "rejected:" in l or "VIOL" in l or "MACH" in l][:2])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return res


with cf.ThreadPoolExecutor(max_workers=int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, ids):
        ok = r.get("demo0") == 0 and r.get("demo1") and not r.get("tests_missing")
        print("OK " if ok else "BAD", json.dumps(r), flush=True)
