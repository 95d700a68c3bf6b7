#!/usr/bin/env python3
"""Decide one property:  check.py C01 [--tier quick|thorough]
Repeat a reported violation:  check.py C01 --replay FILE

Exit 0 when the property held on everything explored, 1 with a VIOLATION line,
anything else is an error of the check itself.
"""
import argparse
import json
import os
import shutil
import sys
import threading
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build as B
import fw
import props


def known_findings(prop):
    """Lines 'KNOWN-FINDING: property=<id> <what fails>' of the committed file."""
    rv = []
    with open(os.path.join(HERE, "known_findings.txt")) as fp:
        for line in fp:
            if line.startswith("KNOWN-FINDING: property=%s " % prop):
                rv.append(line.strip())
    return rv


def save_replay(prop, run, failure, behaviours):
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s-%s-%d.json" % (prop, run.name, int(time.time() * 1000) % 10**9))
    with open(p, "w") as fp:
        json.dump({"property": prop, "driver": run.driver, "args": run.args,
                   "step": failure["step"], "op": failure.get("op"), "diff": failure["diff"],
                   "behaviours": behaviours,
                   "script": [fw.opline(s) for b in behaviours[-1:] for s in b]}, fp, indent=1)
    return p


def replay_file(prop, path):
    with open(path) as fp:
        r = json.load(fp)
    exe = B.build([r["driver"]])[r["driver"]]
    rp = fw.Replayer(exe, args=r["args"])
    n, f = rp.check(r["behaviours"])
    if f:
        print("step %d %s: %s" % (f[0]["step"], f[0].get("op"), json.dumps(f[0]["diff"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    print("no disagreement")
    return 0


class Violation(Exception):
    pass


def report(prop, run, rp, chunk, failure):
    """Confirm a disagreement; return path of the replay file or None."""
    f = rp.confirm(failure)
    if f:
        f = rp.minimize(f)
        return save_replay(prop, run, f, [f["behaviour"]]), f
    prefix = chunk[: failure["index"] + 1]
    n, fs = rp.check(prefix)
    if fs:
        return save_replay(prop, run, fs[0], prefix), fs[0]
    return None, failure


def execute(prop, tier, seed):
    t0 = time.time()
    runs = props.runs(prop, tier)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [],
           "steps_replayed": 0, "operations": {}, "refused_operations": 0, "specifications": {},
           "design_checks": {}, "runs": {}}
    drivers = sorted({r.driver for r in runs if r.driver})
    state = {}

    def dobuild():
        try:
            state["exe"] = B.build(drivers)
        except B.BuildError as e:
            state["builderror"] = str(e)

    bt = threading.Thread(target=dobuild)
    bt.start()
    violations = []
    errors = []
    # TLC processes, design checks first
    pool = ThreadPoolExecutor(fw.NPROC)
    futs = []
    for r in runs:
        futs.append((r, r.start(pool, seed)))
    for r, fut in futs:
        try:
            r.collect(fut)
        except fw.CheckError as e:
            errors.append(str(e))
            continue
        cov["states"] += r.states
        cov["transitions"] += r.transitions
        sp = cov["specifications"].setdefault(r.module, {"states": 0, "behaviours": 0})
        sp["states"] += r.states
        sp["behaviours"] += len(r.behaviours)
        if not r.driver:
            cov["design_checks"][r.name] = {"distinct_states": r.states, "states_generated": r.transitions,
                                            "depth": r.depth, "checked": r.checked, "wall_s": round(r.wall, 1)}
            continue
        bt.join()
        if "builderror" in state:
            raise fw.CheckError("build failed\n" + state["builderror"])
        rp = fw.Replayer(state["exe"][r.driver], args=r.args, env=r.env)
        bs = r.behaviours
        n = max(1, min(fw.NPROC, len(bs)))
        chunks = [bs[k::n] for k in range(n)]
        tr = time.time()
        with ThreadPoolExecutor(n) as ex:
            res = list(ex.map(lambda c: rp.check(c), chunks))
        cov["runs"][r.name] = {"behaviours": len(bs), "tlc_s": round(r.wall, 1), "replay_s": round(time.time() - tr, 1)}
        for c, (done, fails) in zip(chunks, res):
            cov["traces_validated_against_impl"] += done
            for f in fails:
                path, f2 = report(prop, r, rp, c, f)
                if path is None:
                    errors.append("a disagreement was not repeated: " + json.dumps(f["diff"])[:400])
                else:
                    violations.append((path, f2))
                if len(violations) >= 3:
                    break
        for b in bs:
            for s in b:
                cov["operations"][s["op"]] = cov["operations"].get(s["op"], 0) + 1
                cov["steps_replayed"] += 1
                if s.get("e", {}).get("refused") is True:
                    cov["refused_operations"] += 1
        for b in bs[:2]:
            cov["samples"].append({"run": r.name, "script": [fw.opline(s) for s in b][:40],
                                   "last_expected": b[-1].get("e", {})})
    bt.join()
    pool.shutdown()
    if "builderror" in state:
        raise fw.CheckError("build failed\n" + state["builderror"])
    cov["samples"] = cov["samples"][:6]
    miss = props.required_ops(prop) - set(cov["operations"])
    if miss and not violations and not errors:
        errors.append("operations were never exercised: %s" % sorted(miss))
    for k in known_findings(prop):
        print(k)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": props.assumptions(prop), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1)
    if violations:
        for path, f in violations[:3]:
            print("disagreement at step %d (%s %s): %s" % (
                f["step"], f.get("op"), f.get("args"), json.dumps(f["diff"])[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        raise fw.CheckError("\n".join(errors))
    print("%s held: %d states, %d behaviours (%d steps) replayed, %.1f s" % (
        prop, cov["states"], cov["traces_validated_against_impl"], cov["steps_replayed"], time.time() - t0))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        if a.replay:
            return replay_file(a.property, a.replay)
        return execute(a.property, a.tier, a.seed)
    except fw.CheckError as e:
        sys.stderr.write("CHECK ERROR: %s\n" % e)
        return 3
    except Exception:
        traceback.print_exc()
        return 4


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
