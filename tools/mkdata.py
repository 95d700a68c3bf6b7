#!/usr/bin/env python3
"""Write spec/TableData.json, the distributed tables of constants as integers.

The files of /repo/src/runtime are parsed independently of the library.  The
result is committed, so a check compares with the data of the pinned tree.
"""
import json
import os
import re
from decimal import Decimal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RT = "/repo/src/runtime/"


def scaled(s, n):
    v = Decimal(s) * 10**n
    assert v == int(v) and abs(v) < 2**31, s
    return int(v)


def lines(f):
    with open(RT + f, errors="replace") as fp:
        return fp.read().splitlines()


def bv():
    ls = lines("bvparm2011sel.cif")
    k = [i for i, l in enumerate(ls) if l.strip() == "_valence_param_B"][0]
    while ls[k].strip():
        k += 1
    rv = {}
    for l in ls[k:]:
        w = l.split()
        if not w or w[0].startswith("#"):
            continue
        a0, v0, a1, v1, ro, b, ref = w[0], int(w[1]), w[2], int(w[3]), w[4], w[5], w[6]
        if (-v0, a0) > (-v1, a1):
            a0, v0, a1, v1 = a1, v1, a0, v0
        key = "%s %d %s %d" % (a0, v0, a1, v1)
        assert key not in rv, key
        rv[key] = [a0, v0, a1, v1, scaled(ro, 4), scaled(b, 4), ref]
    return rv


def xray():
    rv = {}
    ls = lines("f0_WaasKirf.dat")
    for k, l in enumerate(ls):
        if l.startswith("#S"):
            sym = l.split()[2]
        if l.startswith("#L"):
            w = [scaled(x, 6) for x in ls[k + 1].split()]
            assert len(w) == 11 and sym not in rv
            rv[sym] = w
    return rv


def en():
    rv = {}
    for l in lines("ionlist.dat"):
        w = l.split("#")[0].split()
        if not w:
            continue
        z = int(w[1])
        rv[w[0]] = z
        for v in map(int, w[2:]):
            rv.setdefault("%s%d%s" % (w[0], abs(v), "+" if v > 0 else "-"), z - v)
    return rv


def neutron():
    rows = []
    for l in lines("nsftable.dat"):
        if not l.strip() or l.startswith("#"):
            continue
        w = l.split(",")
        assert len(w) == 11
        rows.append(w)
    rv, el = {}, {}
    for w in rows:
        m = re.match(r"(\d+)-([A-Za-z]+)(?:-(\d+))?$", w[0])
        if not w[3]:
            continue
        b = scaled(re.match(r"[-+.0-9]+", w[3]).group(0), 5)
        if m.group(3):
            rv["%s-%s" % (m.group(3), m.group(2))] = b
            if w[1] == "100" or w[1].endswith("Y"):
                el.setdefault(m.group(2), []).append((w[1] != "100", b))
        else:
            rv[m.group(2)] = b
    # elements without a line of their own: the stable isotope, else the first one
    for k, v in el.items():
        if k not in rv:
            rv[k] = sorted(v, key=lambda x: x[0])[0][1]
    rv["n"], rv["D"], rv["T"] = rv["1-n"], rv["2-H"], rv["3-H"]
    return rv


if __name__ == "__main__":
    d = {"bv": bv(), "xray": xray(), "en": en(), "neutron": neutron()}
    with open(os.path.join(HERE, "spec/TableData.json"), "w") as fp:
        json.dump(d, fp, indent=0, sort_keys=True)
        fp.write("\n")
    print({k: len(v) for k, v in d.items()})
