#!/usr/bin/env python3
"""Build the conformance drivers from the current working tree of /repo.

Every object file is keyed by the hash of its source, of all headers of the
library, of the driver headers and of the compiler flags, so a stale object is
never linked.  Output goes to /verif/build (ignored by git).
"""
import glob
import hashlib
import os
import re
import string
import subprocess
import sys
import fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
CXX = "g++"
FLAGS = ["-std=c++11", "-g1", "-O1", "-fPIC", "-w", "-pthread",
         "-D_GLIBCXX_ASSERTIONS",
         '-DDIFFPYRUNTIMERELPATH=../share/diffpy/libdiffpy-verif']
DRVFLAGS = ["-std=c++14", "-g1", "-O1", "-fPIC", "-w", "-pthread", "-D_GLIBCXX_ASSERTIONS"]
LIBS = ["-lboost_serialization", "-lObjCryst", "-lgsl", "-lgslcblas", "-ldl", "-lpthread", "-lm"]


class BuildError(Exception):
    pass


def read(p):
    with open(p, "rb") as fp:
        return fp.read()


def write_if_changed(p, text):
    try:
        with open(p) as fp:
            if fp.read() == text:
                return
    except OSError:
        pass
    with open(p, "w") as fp:
        fp.write(text)


def generated_headers(inc):
    """features.hpp and version.hpp the way scons makes them."""
    os.makedirs(os.path.join(inc, "diffpy"), exist_ok=True)
    src = os.path.join(REPO, "src/diffpy")
    with open(os.path.join(src, "features.tpl")) as fp:
        t = string.Template(fp.read()).safe_substitute(DIFFPY_HAS_OBJCRYST=1)
    write_if_changed(os.path.join(inc, "diffpy/features.hpp"), t)
    if os.path.isfile(os.path.join(src, "version.hpp")):
        v = read(os.path.join(src, "version.hpp")).decode()
    else:
        fb = "1.4.1"
        mx = re.search(r"FALLBACK_VERSION *= *['\"]([^'\"]+)",
                       read(os.path.join(REPO, "site_scons/fallback_version.py")).decode())
        if mx:
            fb = mx.group(1)
        m = re.match(r"(\d+)\.(\d+)(?:\.(\d+))?", fb)
        a, b, c = [int(x or 0) for x in m.groups()]
        with open(os.path.join(src, "version.tpl")) as fp:
            v = string.Template(fp.read()).safe_substitute(
                DIFFPY_VERSION="%dLL" % (((a * 1000 + b) * 1000 + c) * 1000 + 1),
                DIFFPY_VERSION_MAJOR=a, DIFFPY_VERSION_MINOR=b,
                DIFFPY_VERSION_MICRO=c, DIFFPY_VERSION_PATCH=1,
                DIFFPY_VERSION_STR=fb, DIFFPY_VERSION_DATE="unknown",
                DIFFPY_GIT_SHA="unknown")
    write_if_changed(os.path.join(inc, "diffpy/version.hpp"), v)


def cc(args):
    obj, src, flags, inc = args
    if os.path.isfile(obj):
        os.utime(obj)
        return None
    tmp = obj + ".tmp%d" % os.getpid()
    cmd = [CXX] + flags + ["-I", inc, "-I", os.path.join(REPO, "src"),
                           "-I", os.path.join(VERIF, "driver"), "-c", src, "-o", tmp]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        return src + "\n" + r.stdout.decode(errors="replace")[-4000:]
    os.replace(tmp, obj)
    return None


def build(drivers=None, quiet=True, extra=(), tag=""):
    """Build and return {driver name: executable path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(drivers, quiet, list(extra), tag)
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()


def _build(drivers, quiet, extra, tag):
    inc = os.path.join(BUILD, "include")
    objd = os.path.join(BUILD, "obj")
    bind = os.path.join(BUILD, "bin")
    for d in (inc, objd, bind):
        os.makedirs(d, exist_ok=True)
    generated_headers(inc)
    sd = os.path.join(REPO, "src/diffpy")
    hdrs = sorted(glob.glob(sd + "/*.[hit]p[pl]") + glob.glob(sd + "/srreal/*.[hi]pp")
                  + glob.glob(inc + "/diffpy/*.hpp"))
    hh = hashlib.sha256()
    htext = [read(h) for h in hdrs]
    for h, t in zip(hdrs, htext):
        hh.update(os.path.basename(h).encode() + b"\0" + t)
    hh.update(repr((FLAGS, DRVFLAGS, extra)).encode())
    libsrc = sorted(glob.glob(sd + "/*.cpp") + glob.glob(sd + "/srreal/*.cpp"))
    dh = hh.copy()
    for h in sorted(glob.glob(os.path.join(VERIF, "driver/*.hpp"))):
        dh.update(read(h))
    jobs = []
    libobj = []

    def objname(src, base):
        k = base.copy()
        k.update(read(src))
        return os.path.join(objd, "%s-%s.o" % (
            os.path.basename(src)[:-4], k.hexdigest()[:20]))

    for s in libsrc:
        o = objname(s, hh)
        libobj.append(o)
        jobs.append((o, s, FLAGS + extra, inc))
    want = {}
    for s in sorted(glob.glob(os.path.join(VERIF, "driver/*.cpp"))):
        n = os.path.basename(s)[:-4]
        if drivers is not None and n not in drivers:
            continue
        o = objname(s, dh)
        want[n] = o
        jobs.insert(0, (o, s, DRVFLAGS + extra, inc))
    made = [j[0] for j in jobs if not os.path.isfile(j[0])]
    with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
        errs = [e for e in ex.map(cc, jobs) if e]
    if errs:
        raise BuildError("\n".join(errs))
    # sources edited in the middle of the build give objects with a wrong key
    if [read(h) for h in hdrs] != htext:
        for o in made:
            os.unlink(o)
        return _build(drivers, quiet, extra, tag)
    # a shared library keyed by the objects
    k = hashlib.sha256("\n".join(["soname"] + libobj).encode()).hexdigest()[:20]
    lib = os.path.join(bind, "libdiffpyv-%s.so" % k)
    if not os.path.isfile(lib):
        tmp = lib + ".tmp"
        run([CXX, "-shared", "-Wl,-soname," + os.path.basename(lib), "-o", tmp] + extra + libobj + LIBS)
        os.replace(tmp, lib)
    out = {}
    for n, o in want.items():
        e = os.path.join(bind, "%s-%s" % (n, hashlib.sha256((o + lib).encode()).hexdigest()[:20]))
        if not os.path.isfile(e):
            tmp = e + ".tmp"
            run([CXX, "-o", tmp] + extra + [o, lib, "-Wl,-rpath," + bind] + LIBS)
            os.replace(tmp, e)
        out[n] = e
    return out


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd[:6]) + "\n" + r.stdout.decode(errors="replace")[-4000:])


if __name__ == "__main__":
    try:
        for n, e in sorted(build(sys.argv[1:] or None).items()):
            print(n, e)
    except BuildError as e:
        sys.stderr.write(str(e) + "\n")
        sys.exit(3)
