#!/usr/bin/env python3
"""For each /verif/seeded/<id>: apply to /repo, build, stable tests, demo, the property's check; undo.
usage: tryseeds.py [--no-tests] [--no-demo] [--no-check] [id ...]   (writes /tmp/seeds.json)"""
import json, os, subprocess, sys, time
ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir("/verif/seeded"))
opt = {a for a in sys.argv[1:] if a.startswith("--")}
base = json.load(open("/opt/vp/BASELINE.json"))
R = "/repo"
try:
    res = json.load(open("/tmp/seeds.json"))
except Exception:
    res = {}
def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
assert not sh("git -C /repo status --porcelain").stdout.strip(), "dirty /repo"
for i in ids:
    d = f"/verif/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    r = res.setdefault(i, {"property": prop})
    if "--no-demo" not in opt:
        r["demo_clean"] = sh(f"bash {d}/demo.sh", cwd=R).returncode
    a = sh(f"git -C /repo apply {d}/patch.diff")
    if a.returncode:
        print(i, "does not apply", a.stderr); continue
    try:
        if "--no-tests" not in opt:
            b = sh("bash /opt/vp/build.sh")
            r["build"] = b.returncode
            sh("bash /opt/vp/test.sh /tmp/seedtest.json")
            t = json.load(open("/tmp/seedtest.json"))
            passed = set(t.get("passed", []))
            want = set(base.get("stable", base.get("passed", [])))
            r["tests_missing"] = sorted(want - passed)[:5]
        if "--no-demo" not in opt:
            x = sh(f"bash {d}/demo.sh", cwd=R)
            r["demo_bug"] = x.returncode
            r["demo_msg"] = (x.stdout + x.stderr).strip()[-200:]
        if "--no-check" not in opt:
            t0 = time.time()
            x = sh(f"cd /verif && VERIF_SEED=1 VERIF_TIER=quick python3 tools/check.py {prop}")
            v = [l for l in x.stdout.splitlines() if l.startswith("VIOLATION")]
            r["check"] = [x.returncode, v[:1], round(time.time() - t0)]
            if x.returncode not in (0, 1): r["check_err"] = x.stdout[-300:] + x.stderr[-300:]
    finally:
        sh("git -C /repo checkout -- .")
    json.dump(res, open("/tmp/seeds.json", "w"), indent=1)
    print(i, json.dumps(r), flush=True)
