#!/usr/bin/env python3
"""Writes /verif/seeded/<id>/ from bugs.py.  usage: mkseeds.py [id ...]
Works in a scratch copy of /repo; checks neither tests nor demos (see tryseeds.py)."""
import importlib.util, json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from bugs import BUGS
out = "/verif/seeded"
work = tempfile.mkdtemp(prefix="mkseed.", dir="/tmp")
subprocess.run(["git", "clone", "-q", "/repo", work + "/r"], check=True)
r = work + "/r"
for b in BUGS:
    if len(sys.argv) > 1 and b["id"] not in sys.argv[1:]:
        continue
    for f, old, new in b["edits"]:
        p = os.path.join(r, f)
        s = open(p).read()
        if s.count(old) != 1:
            print(b["id"], "edit of", f, "matches", s.count(old), "times")
            break
        open(p, "w").write(s.replace(old, new))
    else:
        d = os.path.join(out, b["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", r, "diff"], capture_output=True, text=True).stdout
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/main.rs", "w").write(b["main"])
        shutil.copy(here + "/kit.rs", d + "/kit.rs")
        s = open(here + "/demo.sh.in").read().replace("@FEATURES@", b["features"]).replace("@DEPS@", b["deps"]).replace("@DEFAULT@", b["default"])
        open(d + "/demo.sh", "w").write(s)
        if "openssl" in b["deps"] or "openSSL" in b["features"]:
            for f in ("key.pem", "cert.pem"):
                shutil.copy("/verif/harness/tls/" + f, d + "/" + f)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                  open(d + "/meta.json", "w"), indent=1)
    subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
shutil.rmtree(work)
