#!/usr/bin/env python3
"""Parse every specification with SANY."""
import glob
import os
import shutil
import subprocess
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fw
d = fw.workdir()
mods = sorted(glob.glob(os.path.join(fw.SPEC, "*.tla")))
for f in mods:
    os.symlink(f, os.path.join(d, os.path.basename(f)))
bad = 0
for f in mods:
    r = subprocess.run(["java", "-cp", fw.JAR, "tla2sany.SANY", os.path.basename(f)], cwd=d,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    out = r.stdout.decode(errors="replace")
    if r.returncode or "*** Errors" in out or "Parse Error" in out or "Fatal errors" in out:
        bad += 1
        print("SANY:", f, out[-1500:])
shutil.rmtree(d, ignore_errors=True)
print("%d modules, %d bad" % (len(mods), bad))
sys.exit(1 if bad else 0)
