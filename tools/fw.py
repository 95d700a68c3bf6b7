#!/usr/bin/env python3
"""Harness: run TLC on the specifications, replay the behaviours it generates
in the drivers, and report disagreements."""
import json
import math
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B

VERIF = B.VERIF
SPEC = os.path.join(VERIF, "spec")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = int(os.environ.get("VERIF_PROCS", "8"))


class CheckError(Exception):
    """The check itself failed, no verdict."""


def workdir():
    d = os.path.join(VERIF, "work")
    os.makedirs(d, exist_ok=True)
    return tempfile.mkdtemp(prefix="w", dir=d)


def tlaval(x):
    if isinstance(x, bool):
        return "TRUE" if x else "FALSE"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, str):
        return x if x.startswith("@") is False and x.startswith("=") is False else x[1:]
    if isinstance(x, (set, frozenset)):
        return "{" + ", ".join(sorted(tlaval(y) for y in x)) + "}"
    if isinstance(x, (list, tuple)):
        return "<<" + ", ".join(tlaval(y) for y in x) + ">>"
    raise TypeError(x)


def q(s):
    return '"%s"' % s


class Tlc:
    """One TLC process on a copy of the specification directory."""

    def __init__(self, module, consts, spec="Spec", invariants=(), properties=(),
                 view=None, constraint=None, action_constraint=None, postcondition=None,
                 symmetry=None, defs="", mem="2g", workers=1, extra=(), timeout=600,
                 deadlock=False, emit=True, symb=()):
        self.module = module
        self.consts = consts
        self.d = workdir()
        for f in os.listdir(SPEC):
            if f.endswith((".tla", ".json")):
                os.symlink(os.path.join(SPEC, f), os.path.join(self.d, f))
        # constants are bound in a generated module, which allows any expression
        top = "Run"
        lines = ["---- MODULE %s ----" % top, "EXTENDS %s" % module, ""]
        cfg = []
        for k, v in consts.items():
            lines.append("c_%s == %s" % (k, tlaval(v)))
            cfg.append("  %s <- c_%s" % (k, k))
        lines.append(defs)
        lines.append("====")
        with open(os.path.join(self.d, top + ".tla"), "w") as fp:
            fp.write("\n".join(lines) + "\n")
        out = ["SPECIFICATION %s" % spec]
        if cfg:
            out.append("CONSTANTS")
            out += cfg
        for i in invariants:
            out.append("INVARIANT %s" % i)
        for i in properties:
            out.append("PROPERTY %s" % i)
        if view:
            out.append("VIEW %s" % view)
        if constraint:
            out.append("CONSTRAINT %s" % constraint)
        if action_constraint:
            out.append("ACTION_CONSTRAINT %s" % action_constraint)
        if postcondition:
            out.append("POSTCONDITION %s" % postcondition)
        out.append("CHECK_DEADLOCK %s" % ("TRUE" if deadlock else "FALSE"))
        with open(os.path.join(self.d, top + ".cfg"), "w") as fp:
            fp.write("\n".join(out) + "\n")
        self.cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
                    "-XX:TieredStopAtLevel=4", "-Xmx" + mem, "-Xss16m",
                    "-Djava.io.tmpdir=" + self.d,
                    "-cp", JAR, "tlc2.TLC", "-config", top + ".cfg",
                    "-workers", str(workers), "-metadir", os.path.join(self.d, "meta"),
                    "-noGenerateSpecTE"] + list(extra) + [top + ".tla"]
        self.timeout = timeout

    def run(self):
        t0 = time.time()
        self.outfile = os.path.join(self.d, "out.txt")
        with open(self.outfile, "wb") as fp:
            try:
                r = subprocess.run(self.cmd, cwd=self.d, stdout=fp, stderr=subprocess.STDOUT,
                                   timeout=self.timeout)
                self.rc = r.returncode
            except subprocess.TimeoutExpired:
                self.rc = -1
        self.wall = time.time() - t0
        self.behaviours = []
        self.stats = {}
        self.messages = []
        with open(self.outfile, errors="replace") as fp:
            for line in fp:
                if line.startswith('"['):
                    try:
                        self.behaviours.append(json.loads(json.loads(line)))
                    except ValueError:
                        self.messages.append(line)
                    continue
                if re.match(r"(Parsing file|Semantic processing|$)", line):
                    continue
                self.messages.append(line)
                m = re.match(r"(\d+) states generated, (\d+) distinct states found", line)
                if m:
                    self.stats["generated"] = int(m.group(1))
                    self.stats["distinct"] = int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    self.stats["generated"] = int(m.group(1))
                m = re.match(r"The depth of the complete state graph search is (\d+)", line)
                if m:
                    self.stats["depth"] = int(m.group(1))
        return self

    def text(self, n=60):
        first = [i for i, m in enumerate(self.messages) if m.startswith("Error:")][:1]
        cause = "".join(x[:400].rstrip() + "\n" for x in self.messages[first[0]:first[0] + 12]) if first else ""
        return cause + "".join(x[:300].rstrip() + "\n" for x in self.messages[-n:])

    def cleanup(self):
        shutil.rmtree(self.d, ignore_errors=True)


class Run:
    """One use of a specification in a check."""
    driver = None
    args = ()
    env = None

    def __init__(self, name, module, consts, **kw):
        self.name = name
        self.module = module
        self.consts = dict(consts)
        self.behaviours = []
        self.states = self.transitions = self.depth = 0
        self.wall = 0.0
        self.checked = []
        for k, v in kw.items():
            setattr(self, k, v)


class Design(Run):
    """Exhaustive check of invariants and properties within small constants."""
    invariants = ()
    properties = ()
    view = None
    workers = 3
    mem = "5g"
    timeout = 800
    defs = ""
    spec = "Spec"
    constraint = None
    expect = 0      # expected exit status, 12 for a variant that must fail

    def task(self):
        c = dict(self.consts)
        if self.view:
            c["Mode"] = q("mc")
            c["Depth"] = 99
        t = Tlc(self.module, c, spec=self.spec, invariants=self.invariants, properties=self.properties,
                view=self.view, defs=self.defs, workers=self.workers, mem=self.mem, timeout=self.timeout,
                constraint=self.constraint)
        t.run()
        msg = t.text()
        t.cleanup()
        if t.rc != self.expect and not (self.expect and t.rc in (10, 11, 12, 13)):
            raise CheckError("TLC: unexpected result for %s (rc=%s)\n%s" % (self.name, t.rc, msg))
        return t

    def start(self, pool, seed):
        return pool.submit(self.task)

    def collect(self, fut):
        t = fut.result()
        self.states = t.stats.get("distinct", 0)
        self.transitions = t.stats.get("generated", 0)
        self.depth = t.stats.get("depth", 0)
        self.wall = t.wall
        self.checked = list(self.invariants) + list(self.properties)
        if self.expect:
            self.checked = ["variant must violate: " + ", ".join(self.checked)]


class Sim(Run):
    """Random behaviours of the specification, written by TLC and replayed."""
    num = 100
    depth = 30
    procs = None
    invariants = ()
    defs = ""
    spec = "Spec"
    properties = ()
    mem = "1500m"
    timeout = 800

    def task(self, k, per, seed):
        c = dict(self.consts)
        c["Mode"] = q("gen")
        c["Depth"] = self.depth
        t = Tlc(self.module, c, spec=self.spec, invariants=("Emit",) + tuple(self.invariants), properties=self.properties, defs=self.defs, mem=self.mem,
                timeout=self.timeout,
                extra=["-simulate", "num=%d" % per, "-depth", str(self.depth + 2),
                       "-seed", str(seed * 1000 + k * 7 + 1 + sum(map(ord, self.name)) * 100000)])
        t.run()
        msg = t.text()
        t.cleanup()
        if t.rc != 0 or not t.behaviours:
            raise CheckError("TLC simulation of %s failed (rc=%s)\n%s" % (self.name, t.rc, msg))
        return t

    def start(self, pool, seed):
        procs = max(1, min(self.procs or NPROC, self.num))
        per = (self.num + procs - 1) // procs
        return [pool.submit(self.task, k, per, seed) for k in range(procs)]

    def collect(self, futs):
        for f in futs:
            t = f.result()
            self.behaviours += t.behaviours
            self.states += t.stats.get("generated", 0)
            self.transitions += t.stats.get("generated", 0)
            self.wall = max(self.wall, t.wall)


class Tour(Run):
    """Exhaustive exploration within small constants; every transition becomes
    a behaviour from the initial state, which is replayed."""
    maxlen = 99
    invariants = ()
    properties = ()
    view = "View"
    workers = 3
    mem = "5g"
    timeout = 800
    defs = ""
    limit = None

    def task(self):
        c = dict(self.consts)
        c["Mode"] = q("tour")
        c["Depth"] = self.maxlen
        t = Tlc(self.module, c, invariants=self.invariants, properties=self.properties, view=self.view,
                defs=self.defs + "\nTourBound == Len(hist) < Depth\n", workers=self.workers, mem=self.mem,
                timeout=self.timeout, action_constraint="EmitTransition", constraint="TourBound")
        t.run()
        msg = t.text()
        t.cleanup()
        if t.rc != 0 or not t.behaviours:
            raise CheckError("TLC tour of %s failed (rc=%s)\n%s" % (self.name, t.rc, msg))
        return t

    def start(self, pool, seed):
        return pool.submit(self.task)

    def collect(self, fut):
        t = fut.result()
        self.states = t.stats.get("distinct", 0)
        self.transitions = t.stats.get("generated", 0)
        self.depth = t.stats.get("depth", 0)
        self.wall = t.wall
        self.checked = list(self.invariants) + list(self.properties)
        # behaviours that are a prefix of another one add nothing
        bs = sorted(json.dumps(b) for b in t.behaviours)
        self.behaviours = [json.loads(b) for k, b in enumerate(bs)
                           if k + 1 == len(bs) or not bs[k + 1].startswith(b[:-1] + ",")]


# ---------------------------------------------------------------------------
# replay

def tokens(x):
    if isinstance(x, bool):
        return ["1" if x else "0"]
    if isinstance(x, int):
        return [str(x)]
    if isinstance(x, str):
        return [x.replace(" ", "\x1f").replace("\t", "\x1e").replace("\n", "\x1d") if x else "<empty>"]
    if isinstance(x, list):
        rv = [str(len(x))]
        for y in x:
            rv += tokens(y)
        return rv
    raise TypeError(repr(x))


def opline(step):
    t = [step["op"]]
    for a in step.get("a", []):
        t += tokens(a)
    return " ".join(t)


FWHM = 2 * math.sqrt(2 * math.log(2))


def peakwidth(d, m, pw):
    tp, a, b, q, z = pw[0], *(x / 100 for x in pw[1:])
    if tp == "constant":
        return a
    w = FWHM * math.sqrt(m) / d
    if tp == "debye-waller":
        return w
    corr = 1 - a / d - b / d ** 2 + (q * d) ** 2
    return w * math.sqrt(corr) + (z * d) ** 2 if corr > 0 else 0


H = {   # functions of distance in the sums of Calc.tla
    "ovl2": lambda d, p, s: (s / 100 - d) ** 2,
    "ovlg": lambda d, p, s: (s / 100 - d) / d,
    "bv": lambda d, p, ro, b: math.exp((ro - 100 * d) / b),
    "peak": lambda d, p, m: 1 + peakwidth(d, m, p),
    "damp": lambda d, p, m: math.exp(-0.5 * (peakwidth(d, m, p[1:]) / FWHM * p[0] / 20) ** 2) * math.sin(p[0] / 20 * d) / d,
}
def mmul(a, b):
    return [[sum(x * y for x, y in zip(r, c)) for c in zip(*b)] for r in a]


def cross(u, v):
    return [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]


def dot(u, v):
    return math.fsum(x * y for x, y in zip(u, v))


def scale(a, c):
    return [scale(x, c) for x in a] if isinstance(a, list) else a * c


def inverse(m):
    c = [cross(m[1], m[2]), cross(m[2], m[0]), cross(m[0], m[1])]
    d = dot(m[0], c[0])
    return [[c[j][i] / d for j in range(3)] for i in range(3)]


FN = {
    "mmul": mmul, "tr": lambda a: [list(r) for r in zip(*a)], "row": lambda a, k: a[k], "perm": lambda a, *p: [a[k] for k in p],
    "cross": cross, "dot": dot, "norm": lambda u: math.sqrt(dot(u, u)), "scale": scale, "inv": inverse,
    "unit": lambda u: scale(u, 1 / math.sqrt(dot(u, u))), "det": lambda m: dot(m[0], cross(m[1], m[2])),
    "box": lambda *n: [[i, j, k] for i in range(-n[0], n[0] + 1) for j in range(-n[1], n[1] + 1) for k in range(-n[2], n[2] + 1)],
    "in": lambda x, v: x in v, "distinct": lambda v: len(set(map(tuple, v))) == len(v), "at": lambda v, k: v[k],
    "ne": lambda a, b: not close(a, b), "acos": lambda a: math.acos(a) if -1 <= a <= 1 else math.nan,
    "add": lambda *a: sum(a), "sub": lambda a, b: a - b, "mul": lambda *a: math.prod(a),
    "div": lambda a, b: a / b if b else math.nan, "min": min, "max": max, "abs": abs,
    "sqrt": lambda a: math.sqrt(a) if a >= 0 else math.nan, "exp": math.exp, "sin": math.sin, "cos": math.cos,
    "log": lambda a: math.log(a) if a > 0 else math.nan, "log2": lambda a: math.log2(a) if a > 0 else math.nan,
    "erf": math.erf, "pow": lambda a, b: a ** b, "pi": lambda: math.pi, "ceil": math.ceil, "floor": math.floor,
    "round": lambda a: math.floor(a + 0.5),
    "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b,
    "eq": lambda a, b: close(a, b), "and": lambda *a: all(a), "or": lambda *a: any(a), "not": lambda a: not a,
    "slice": lambda v, a, b: v[int(a):int(b)],
    # sine transform of values and a ramp on a regular grid
    "sinsum": lambda v, c, x0, dx, q: math.fsum((y + c * (x0 + i * dx)) * math.sin(q * (x0 + i * dx)) for i, y in enumerate(v)),
    "len": len, "same": lambda a, b: a == b,
}


def close(x, got):
    if isinstance(x, str) or isinstance(got, str):
        return False
    if isinstance(x, list) or isinstance(got, list):
        return isinstance(x, list) and isinstance(got, list) and len(x) == len(got) and all(map(close, x, got))
    return abs(x - got) <= 2e-8 + 2e-8 * max(abs(x), abs(got))


class Unknown(Exception):
    """An expression refers to something that was not observed."""


def expr(e, env=None):
    """Value of an expression written by the specification.  The environment
    are the observations of the same step."""
    if isinstance(e, list):
        return [expr(x, env) for x in e]
    if not isinstance(e, dict):
        return e
    fn = e["fn"]
    if fn == "dsum":
        h = H[e["h"]]
        return math.fsum(t[0] * h(math.sqrt(t[1]), e["p"], *t[2:]) for t in e["t"])
    if fn == "obs":
        x = env
        for k in e["x"]:
            try:
                x = x[k]
            except (KeyError, IndexError, TypeError):
                raise Unknown(e["x"])
        return x
    if fn == "if":
        c, a, b = e["x"]
        return expr(a if expr(c, env) else b, env)
    if fn == "all":     # a condition for all elements of an observed list, which are known as "it"
        lst = expr(e["x"][0], env)
        return all(expr(e["x"][1], dict(env, it=x, at=k)) for k, x in enumerate(lst))
    args = [expr(x, env) for x in e["x"]]
    for a in args:
        if isinstance(a, str):
            raise Unknown(a)
    try:
        return FN[fn](*args)
    except (TypeError, ValueError, ArithmeticError, LookupError, AttributeError):
        raise Unknown(fn)   # numbers for which the relation has no meaning


def isany(e):
    return isinstance(e, dict) and "any" in e


def same(exp, got, env=None):
    """Equality, expressions are compared within rounding errors."""
    if isany(exp):
        return True
    if isinstance(exp, dict) and "fn" in exp:
        if isinstance(got, bool) or not isinstance(got, (int, float, list)):
            return False
        try:
            x = expr(exp, env)
        except Unknown:
            return False
        if isinstance(x, list) or isinstance(got, list):
            return x == got if exp["fn"] == "slice" else close(x, got)
        return close(x, got)
    if isinstance(exp, dict) and "bag" in exp:
        return isinstance(got, list) and sorted(exp["bag"]) == sorted(got)
    if isinstance(exp, list) and isinstance(got, list):
        return len(exp) == len(got) and all(same(x, y, env) for x, y in zip(exp, got))
    if isinstance(exp, list) and not exp and isinstance(got, dict):
        return not got      # a function with empty domain
    if isinstance(exp, dict) and isinstance(got, dict):
        return set(exp) == set(got) and all(same(exp[k], got[k], env) for k in exp)
    if isinstance(exp, int) and isinstance(got, float):
        return abs(exp - got) <= 2e-8 + 2e-8 * abs(exp)
    return exp == got


def values(exp, env=None):
    if isinstance(exp, dict) and "fn" in exp:
        try:
            return expr(exp, env)
        except Unknown:
            return "<unknown>"
    if isinstance(exp, list):
        return [values(x, env) for x in exp]
    if isinstance(exp, dict) and "bag" not in exp:
        return {k: values(v, env) for k, v in exp.items()}
    return exp


def brief(exp, got, env):
    """The differing parts of two records."""
    if isinstance(exp, dict) and isinstance(got, dict) and not {"fn", "bag", "any"} & set(exp) and set(exp) == set(got):
        bad = [k for k in exp if not same(exp[k], got[k], env)]
        ds = {k: brief(exp[k], got[k], env) for k in bad}
        return {k: d[0] for k, d in ds.items()}, {k: d[1] for k, d in ds.items()}
    if isinstance(exp, dict) and isinstance(got, dict) and not {"fn", "bag", "any"} & set(exp):
        bad = [k for k in exp if k not in got or not same(exp[k], got[k], env)]
        return {k: values(exp[k], env) for k in bad}, {k: v for k, v in got.items() if k in bad or k not in exp}
    if isinstance(exp, list) and isinstance(got, list) and len(exp) == len(got) and exp and all(isinstance(x, dict) and "fn" not in x for x in exp):
        ds = {"[%d]" % k: brief(x, y, env) for k, (x, y) in enumerate(zip(exp, got)) if not same(x, y, env)}
        return {k: d[0] for k, d in ds.items()}, {k: d[1] for k, d in ds.items()}
    return values(exp, env), got


def diffkeys(exp, got):
    """Compare expected observations with the real ones, return differing keys."""
    bad = {}
    for k, v in exp.items():
        if k == "oneof":
            # alternative sets of observations
            alt = [diffkeys(x, got) for x in v]
            if all(alt):
                bad[k] = {"expected": v, "got": alt}
        elif k == "holds":
            # relations of observed values
            for n, c in v:
                try:
                    ok = expr(c, got)
                except Unknown as e:
                    ok = False
                if not ok:
                    bad[n] = {"expected": "relation holds", "got": values(c.get("x"), got)}
        elif k not in got:
            if not isany(v):
                bad[k] = {"expected": values(v, got), "got": "<missing>"}
        elif not same(v, got[k], got):
            e, g = brief(v, got[k], got)
            bad[k] = {"expected": e, "got": g}
    return bad


class Replayer:
    """Feed behaviours to a driver process."""

    def __init__(self, exe, env=None, args=(), timeout=120, wrap=()):
        self.exe = exe
        self.args = list(args)
        self.env = dict(os.environ)
        self.env["DIFFPYRUNTIME"] = os.path.join(B.REPO, "src/runtime")
        self.env.update(env or {})
        self.timeout = timeout
        self.wrap = list(wrap)

    def batch(self, behaviours):
        """Run the behaviours in one process, return list of results per
        behaviour: list of observations or a string describing a crash."""
        inp = []
        for b in behaviours:
            inp.append("reset")
            inp += [opline(s) for s in b]
        d = workdir()
        try:
            with open(os.path.join(d, "in"), "w") as fp:
                fp.write("\n".join(inp) + "\n")
            env = dict(self.env)
            env["VERIF_SCRATCH"] = d
            with open(os.path.join(d, "in")) as fi, open(os.path.join(d, "out"), "w") as fo, \
                    open(os.path.join(d, "err"), "w") as fe:
                try:
                    r = subprocess.run(self.wrap + [self.exe] + self.args, stdin=fi, stdout=fo, stderr=fe,
                                       env=env, timeout=self.timeout, cwd=d)
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = "timeout"
            with open(os.path.join(d, "out"), errors="replace") as fp:
                lines = fp.read().split("\n")
            with open(os.path.join(d, "err"), errors="replace") as fp:
                err = fp.read()[-600:]
        finally:
            shutil.rmtree(d, ignore_errors=True)
        if lines and lines[-1] == "":
            lines.pop()
        res = []
        cur = None
        for ln in lines:
            if ln == "RESET":
                cur = []
                res.append(cur)
            else:
                try:
                    cur.append(json.loads(ln))
                except ValueError:
                    if rc == 0:
                        raise CheckError("driver wrote a malformed line: " + ln[:200])
                    break
        return res, rc, err

    def compare(self, behaviour, got):
        """First disagreement or None."""
        for k, s in enumerate(behaviour):
            if k >= len(got):
                return {"step": k, "diff": {"died": True}}
            bad = diffkeys(s.get("e", {}), got[k])
            if bad:
                return {"step": k, "op": s["op"], "args": s.get("a", []), "diff": bad}
        return None

    def check(self, behaviours, stop_after=1):
        """Return (number executed, list of failures)."""
        failures = []
        todo = list(range(len(behaviours)))
        done = 0
        while todo and len(failures) < stop_after:
            res, rc, err = self.batch([behaviours[i] for i in todo])
            ncomplete = 0
            for i, got in zip(todo, res):
                b = behaviours[i]
                if len(got) < len(b) and rc == 0:
                    raise CheckError("driver output is incomplete")
                last = (i == todo[len(res) - 1]) if res else False
                f = None
                if len(got) < len(b):
                    f = self.compare(b, got)
                    if f and f["diff"].get("died"):
                        # steps before the rejected one agree
                        if rc == 97:
                            raise CheckError("driver rejected the script: " + err)
                        f["op"] = b[f["step"]]["op"]
                        f["args"] = b[f["step"]].get("a", [])
                        f["diff"]["died"] = "rc=%s %s" % (rc, err)
                else:
                    f = self.compare(b, got)
                ncomplete += 1
                done += 1
                if f:
                    f["behaviour"] = b
                    f["index"] = i
                    failures.append(f)
                    if len(failures) >= stop_after:
                        break
                if last and len(got) < len(b):
                    break
            if rc == 0:
                break
            if rc == 97 and not failures:
                raise CheckError("driver rejected the script: " + err)
            if ncomplete == 0:
                raise CheckError("driver died before the first behaviour: rc=%s %s" % (rc, err))
            todo = todo[ncomplete:]
        return done, failures

    def check_parallel(self, behaviours, procs=None, stop_after=1):
        procs = procs or NPROC
        n = max(1, min(procs, len(behaviours)))
        chunks = [behaviours[k::n] for k in range(n)]
        with ThreadPoolExecutor(n) as ex:
            rs = list(ex.map(lambda c: self.check(c, stop_after), chunks))
        return sum(r[0] for r in rs), [f for r in rs for f in r[1]]

    def confirm(self, failure):
        """Re-run one behaviour alone."""
        n, f = self.check([failure["behaviour"]])
        return f[0] if f else None

    def minimize(self, failure, keep=lambda s: False):
        """Cut the behaviour after the failing step."""
        b = failure["behaviour"][: failure["step"] + 1]
        f = dict(failure)
        f["behaviour"] = b
        r = self.confirm(f)
        return r or failure
