#!/usr/bin/env python3
"""Create a planted bug:  mkseed.py ID PROPERTY  < description
stdin: JSON {file, old, new | edits:[{file,old,new}], needs, breaks, demo}.
The demonstration source is C++ with CHECK(cond)."""
import json
import os
import subprocess
import sys
REPO = os.environ.get("VERIF_REPO", "/repo")
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = """#!/bin/bash
# cwd is /repo after a build; exit 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd)
lib=$(ls -d "$PWD"/build/debug-*/ | head -1)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
export DIFFPYRUNTIME="$PWD/src/runtime"
g++ -std=c++11 -O0 -w -Isrc -I"$lib" "$here/demo.cpp" -o "$tmp/demo" \\
    -L"$lib" -ldiffpy -lboost_serialization -lObjCryst -lgsl -lgslcblas -lm -Wl,-rpath,"$lib" || exit 1
cd "$tmp" && timeout 120 ./demo
"""
HEAD = """#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <stdexcept>
#include <sstream>
#include <iostream>
#include <algorithm>
#include <diffpy/serialization.ipp>
%s
using namespace std;
using namespace diffpy;
using namespace diffpy::srreal;
#define CHECK(c) do { if (!(c)) { fprintf(stderr, "failed: %%s line %%d\\n", #c, __LINE__); exit(1); } } while (0)
#define NEAR(a, b) CHECK(fabs((a) - (b)) < 1e-7)
"""


def make(ident, prop, spec):
    d = os.path.join(V, "seeded", ident)
    os.makedirs(d, exist_ok=True)
    edits = spec.get("edits") or [spec]
    try:
        for e in edits:
            p = os.path.join(REPO, e["file"])
            s = open(p).read()
            n = s.count(e["old"])
            assert n == 1, "%s: %d matches of %r" % (ident, n, e["old"])
            open(p, "w").write(s.replace(e["old"], e["new"]))
        diff = subprocess.check_output(["git", "-C", REPO, "diff"]).decode()
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        subprocess.check_call(["git", "-C", REPO, "checkout", "-q", "--", "."])
    open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
    inc = "\n".join("#include <diffpy/%s>" % i for i in spec["include"])
    open(os.path.join(d, "demo.cpp"), "w").write(HEAD % inc + spec["demo"])
    json.dump({"property": prop, "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
              open(os.path.join(d, "meta.json"), "w"), indent=1)
