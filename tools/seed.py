#!/usr/bin/env python3
"""Validate planted changes in scratch copies of /repo.

  seed.py ID [ID...] [--no-tests] [--checks C01,C02]   (default: the check of the property in meta.json)
A change is kept in seeded/ID/{patch.diff,demo.sh,meta.json}.
"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if not a.startswith("--")]
opts = {a.split("=")[0]: a.split("=")[-1] for a in sys.argv[1:] if a.startswith("--")}

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)

def one(i):
    d = os.path.join(V, "seeded", i)
    meta = json.load(open(d + "/meta.json"))
    w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
    r, wk = w + "/repo", w + "/work"
    os.makedirs(wk)
    res = {}
    try:
        sh("cp -a /repo %s" % r)
        dd = w + "/demo"
        shutil.copytree(d, dd)
        for f in ("patch.diff", "meta.json"):
            os.remove(dd + "/" + f)
        a = sh("bash %s/demo.sh" % dd, cwd=r)
        res["demo_clean"] = a.returncode
        if a.returncode: print(a.stdout[-800:], a.stderr[-800:])
        g = sh("git apply %s/patch.diff" % d, cwd=r)
        if g.returncode:
            print(i, "PATCH DOES NOT APPLY", g.stderr); return
        a = sh("bash %s/demo.sh" % dd, cwd=r)
        res["demo_patched"] = a.returncode
        if "-v" in sys.argv or "--v" in opts: print(a.stdout[-600:], a.stderr[-600:])
        if "--no-tests" not in opts:
            t = open("/opt/vp/test.sh").read().replace("/repo", r).replace("/opt/vp/work", wk)
            open(w + "/test.sh", "w").write(t)
            sh("bash %s/test.sh %s/out.json" % (w, w), cwd=r)
            b = json.load(open("/opt/vp/BASELINE.json")); o = json.load(open(w + "/out.json"))
            res["tests_lost"] = sorted(set(b["stable"]) - set(o["passed"]))
        for c in opts.get("--checks", meta["property"]).split(","):
            if c == "none": continue
            x = sh("python3 %s/lib/runner.py %s" % (V, c), env=dict(os.environ, VERIF_REPO=r, VERIF_SEED="1", VERIF_TIER="quick"))
            lines = [l for l in x.stdout.splitlines() if "VIOLATION" in l]
            res[c] = "rc=%d %s" % (x.returncode, lines[0][-140:] if lines else x.stdout[-200:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
    ok = res.get("demo_clean") == 0 and res.get("demo_patched") not in (0, None) and not res.get("tests_lost")
    print(i, "OK" if ok else "NOT VALID", json.dumps(res))

for i in args:
    one(i)
