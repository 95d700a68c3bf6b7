#!/usr/bin/env python3
"""Mutation study of the checks: small edits of /repo's sources that compile and
pass the existing tests are replayed with the behaviours of the checks.
   mutate.py gen              write the behaviours of all checks to WORK
   mutate.py run N SEED [FILE...]   make N mutants, print those that no check notices
   mutate.py headers N SEED [FILE...]   the same for header files, drivers are not compiled again
The mutants live in WORK, /repo is not changed.  Not used by any check."""
import glob
import json
import os
import pickle
import random
import re
import shutil
import subprocess
import sys
import time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import fw
import props

WORK = os.environ.get("MUTWORK", "/tmp/mut")
SD = os.path.join(B.REPO, "src/diffpy")
TESTS = os.path.join(B.REPO, "build/debug-x86_64")
RULES = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "),
         (r" && ", " || "), (r" \|\| ", " && "), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+= ", " -= "), (r" -= ", " += "),
         (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "),
         (r"(?<=[( ])!(?=[a-z])", ""), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"\b0\.5\b", "0.25"), (r"\b2\.0\b", "1.0"), (r"\b1\.0\b", "0.0"),
         (r"\bi0\b", "i1"), (r"\bi1\b", "i0"), (r"\bsite0\(\)", "site1()"), (r"\bsite1\(\)", "site0()"), (r"\[0\]", "[1]"), (r"\[1\]", "[2]"),
         (r"\brmin\b", "rmax"), (r"\bqmin\b", "qmax"), (r"\bfloor\(", "ceil("), (r"\bceil\(", "floor("), (r"\bcontinue;", "break;"), (r"\bround\(", "floor("),
         (r"(?<=\()(\w+), (\w+)(?=\))", r"\2, \1"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b2\b", "3")]
CHECKS = [("PDFCalculator|DebyePDF|BaseDebye|PDFUtils", "C17 C29 C23 C08 C18 C10 C01 C20 C09"), ("Envelope|Baseline", "C18 C08 C10"), ("PeakWidth|Profile", "C27 C08 C23 C17"),
          ("BVParam|BVSCal", "C13 C21 C01 C26"), ("Radii", "C12 C15"), ("Overlap", "C15 C16 C01"), ("SFT|Scattering", "C14 C26 C08 C10 C23 C09"), ("BondCalc", "C07 C01 C02"),
          ("PQEval|PairQuant|PairCounter", "C01 C02 C03 C08 C09"), ("Crystal", "C05 C04 C28 C24"), ("ObjCryst", "C28"), ("Atomic|Periodic|StructureAdapter|NoMeta|NoSym|StructureDiff", "C24 C19 C06 C04"),
          ("BaseBond", "C04 C05 C28"), ("Points|Lattice|R3", "C25 C04"), ("AtomUtils", "C14 C13 C26"), ("Attributes", "C10"), ("Ticker", "C08"), ("runtime", "C22"), ("", "C08 C20")]


def gen():
    os.makedirs(WORK + "/behav", exist_ok=True)
    pool = ThreadPoolExecutor(fw.NPROC)
    for p in sorted(props.TABLE):
        k = 0
        for r in props.runs(p, "quick"):
            if r.driver is None:
                continue
            r.collect(r.start(pool, 1))
            bs = r.behaviours
            random.Random(1).shuffle(bs)
            bs = bs[:int(os.environ.get("MUTMAX", "400"))]
            with open("%s/behav/%s-%d.pkl" % (WORK, p, k), "wb") as fp:
                pickle.dump((r.driver, r.args, r.env, bs), fp)
            k += 1
            print(p, r.name, len(bs), flush=True)


def checksof(name):
    for pat, cs in CHECKS:
        if re.search(pat, name):
            return cs.split()


def mutants(n, seed, files, ext="cpp"):
    rnd = random.Random(seed)
    all_ = []
    for f in sorted(glob.glob(SD + "/*." + ext) + glob.glob(SD + "/srreal/*." + ext)):
        if re.search("scatteringfactordata|version", f) or (files and not any(x in f for x in files)):
            continue
        with open(f) as fp:
            lines = fp.read().split("\n")
        comment = False
        for k, ln in enumerate(lines):
            s = ln.strip()
            if s.startswith("/*"):
                comment = True
            if comment or s.startswith(("//", "#", "assert", "using", "const char", "*", "throw")) or not s or "BOOST" in s or "<<" in s or "EMSG" in s:
                if "*/" in s:
                    comment = False
                continue
            code = ln.split("//")[0]
            if ext != "cpp" and "(" in code and s.endswith(";") and re.match(r"(static |virtual |const |unsigned )*[\w:<>]+[ &*]+[\w]+\(.*\)( const)?( = 0)?;$", s):
                continue
            m = re.match(r"\s+ar & ", code)
            if m:
                all_.append((f, k, ""))
                continue
            for a, b in RULES:
                for m in re.finditer(a, code):
                    if code[:m.start()].count('"') % 2:
                        continue
                    new = code[:m.start()] + m.expand(b) + code[m.end():]
                    if new != code:
                        all_.append((f, k, new))
            # a statement that is left out
            if re.match(r"\s+[A-Za-z_>\-.:()\[\]*]+ *[-+]?= *[^;{}]*;$", code) or re.match(r"\s+[A-Za-z_>\-.:]+\([^{}]*\);$", code) or re.match(r"\s+if \(.*\) +\S.*;$", code):
                all_.append((f, k, ""))
                all_.append((f, k, ""))
    rnd.shuffle(all_)
    # prefer different lines
    seen = {}
    rv = []
    for x in all_:
        if seen.get(x[:2], 0) < 1:
            seen[x[:2]] = 1
            rv.append(x)
    return (rv + [x for x in all_ if x not in set(rv)])[:n]


def library():
    """Clean drivers and objects."""
    exe = B.build()
    objs = {}
    out = subprocess.run(["ldd", exe["setup"]], stdout=subprocess.PIPE).stdout.decode()
    soname = re.search(r"(libdiffpyv-\w+\.so)", out).group(1)
    od = WORK + "/obj"
    os.makedirs(od, exist_ok=True)
    inc = os.path.join(B.BUILD, "include")
    jobs = []
    for f in sorted(glob.glob(SD + "/*.cpp") + glob.glob(SD + "/srreal/*.cpp")):
        o = os.path.join(od, os.path.basename(f)[:-4] + ".o")
        objs[f] = o
        jobs.append([B.CXX] + B.FLAGS + ["-I", inc, "-I", os.path.join(B.REPO, "src"), "-c", f, "-o", o])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(B.run, jobs))
    return exe, objs, soname


def one(args):
    k, (f, ln, new), exe, objs, soname, inc, par = args
    d = "%s/m%d" % (WORK, k)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        with open(f) as fp:
            lines = fp.read().split("\n")
        old = lines[ln]
        lines[ln] = new
        src = os.path.join(d, os.path.basename(f))
        with open(src, "w") as fp:
            fp.write("\n".join(lines))
        if not f.endswith(".cpp"):
            os.rename(src, src + "x")
            shutil.copytree(os.path.join(B.REPO, "src"), d + "/src", ignore=shutil.ignore_patterns("tests", "runtime", "*.o", "*.os"))
            os.rename(src + "x", f.replace(os.path.join(B.REPO, "src"), d + "/src"))
            new_objs = dict(objs)
            for g in objs:
                dep = subprocess.run([B.CXX] + B.FLAGS + ["-MM", "-I", inc, "-I", os.path.join(B.REPO, "src"), g], stdout=subprocess.PIPE).stdout.decode()
                if os.path.basename(f) not in [os.path.basename(x) for x in dep.split()]:
                    continue
                new_objs[g] = os.path.join(d, os.path.basename(g)[:-4] + ".o")
                src = g.replace(os.path.join(B.REPO, "src"), d + "/src")
                if subprocess.run([B.CXX] + B.FLAGS + ["-I", inc, "-I", d + "/src", "-c", src, "-o", new_objs[g]], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    return "nocompile", f, ln, old, new, ""
            objs = new_objs
        o = os.path.join(d, "m.o")
        flags = [x for x in B.FLAGS]
        r = f.endswith(".cpp") and subprocess.run([B.CXX] + flags + ["-I", inc, "-I", os.path.join(B.REPO, "src"), "-I", os.path.dirname(f), "-c", src, "-o", o],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if r and r.returncode:
            return "nocompile", f, ln, old, new, ""
        lib = os.path.join(d, soname)
        subprocess.run([B.CXX, "-shared", "-Wl,-soname," + soname, "-o", lib] + [o if g == f else p for g, p in objs.items()] + B.LIBS, check=True)
        os.symlink(soname, os.path.join(d, "libdiffpy.so"))
        env = dict(os.environ, LD_LIBRARY_PATH=d, DIFFPYRUNTIME=B.REPO + "/src/runtime")
        try:
            r = subprocess.run([TESTS + "/tests/alltests"], cwd=B.REPO + "/src/tests", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
            bad = r.returncode
        except subprocess.TimeoutExpired:
            bad = "timeout"
        if bad:
            return "tests", f, ln, old, new, ""
        for c in checksof(os.path.basename(f)):
            for p in sorted(glob.glob("%s/behav/%s-*.pkl" % (WORK, c))):
                with open(p, "rb") as fp:
                    drv, a, e, bs = pickle.load(fp)
                rp = fw.Replayer(exe[drv], args=a, env=dict(e or {}, LD_LIBRARY_PATH=d))
                try:
                    n, fails = rp.check(bs)
                except fw.CheckError as x:
                    return "error", f, ln, old, new, c + " " + str(x)[:200]
                if fails:
                    return "caught", f, ln, old, new, c
        return "MISSED", f, ln, old, new, ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "gen":
        return gen()
    n, seed = int(sys.argv[2]), int(sys.argv[3])
    exe, objs, soname = library()
    inc = os.path.join(B.BUILD, "include")
    ms = mutants(n, seed, sys.argv[4:], "hpp" if sys.argv[1] == "headers" else "cpp")
    count = {}
    procs = int(os.environ.get("MUTPROCS", "8"))
    with ProcessPoolExecutor(procs) as ex:
        for r in ex.map(one, [(k + seed * 100000, m, exe, objs, soname, inc, 1) for k, m in enumerate(ms)]):
            count[r[0]] = count.get(r[0], 0) + 1
            if r[0] in ("MISSED", "error"):
                print("%s %s:%d\n   %s\n   %s   %s" % (r[0], os.path.basename(r[1]), r[2] + 1, r[3].strip(), r[4].strip() or "(removed)", r[5]), flush=True)
    print(count)


if __name__ == "__main__":
    main()
