#!/usr/bin/env python3
"""Try planted bugs:  seedrun.py [--nocheck] [--demo] ID...
Applies each patch in /repo, builds, runs the stable tests, the demonstration
and the check of its property, and undoes the patch.  Not used by any check."""
import json
import os
import subprocess
import sys
import shutil
import tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode(errors="replace")


def demo(i):
    d = tempfile.mkdtemp(prefix="demo")
    for f in os.listdir(os.path.join(S, i)):
        if not f.endswith(("diff", "patch")) and f != "meta.json":
            shutil.copy(os.path.join(S, i, f), d)
    r = sh(["bash", os.path.join(d, "demo.sh")], cwd="/repo")
    shutil.rmtree(d)
    return r


def main():
    args = sys.argv[1:]
    nocheck = "--nocheck" in args
    ids = [a for a in args if not a.startswith("-")] or sorted(os.listdir(S))
    assert sh(["git", "-C", "/repo", "status", "--porcelain", "-uno"])[1] == "", "/repo is not clean"
    sh(["bash", "/opt/vp/build.sh"])
    clean = {}
    for i in ids:
        clean[i] = demo(i)
    base = json.load(open("/opt/vp/BASELINE.json"))
    for i in ids:
        prop = json.load(open(os.path.join(S, i, "meta.json")))["property"]
        p = os.path.join(S, i, "patch.diff")
        rc, out = sh(["git", "-C", "/repo", "apply", p])
        if rc:
            print(i, "patch does not apply", out[-300:])
            continue
        try:
            rb, ob = sh(["bash", "/opt/vp/build.sh"])
            if rb:
                print(i, "build fails", ob[-800:])
                continue
            sh(["bash", "/opt/vp/test.sh", "/tmp/seed-out.json"])
            t = json.load(open("/tmp/seed-out.json"))
            nf = len(t.get("failed", []))
            rd, od = demo(i)
            rcheck, oc = (None, "")
            if not nocheck:
                rcheck, oc = sh(["python3", "check.py", prop], cwd=V, env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            ok = clean[i][0] == 0 and rd != 0 and nf == 0
            print(i, prop, "VALID" if ok else "INVALID(clean=%s patched=%s failed tests=%s)" % (clean[i][0], rd, t.get("failed")),
                  "check=%s" % rcheck, flush=True)
            if not ok:
                print(clean[i][1][-500:], od[-500:])
            if not nocheck:
                print("   ", [x for x in oc.split("\n") if "disagreement" in x or "ERROR" in x or "held" in x][:2])
        finally:
            sh(["git", "-C", "/repo", "checkout", "--", "."])
    sh(["bash", "/opt/vp/build.sh"])


main()
