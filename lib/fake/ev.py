#!/usr/bin/python3
"""Stand-in for the EarthVision programs (ev_fp, ev_label, ev_facedump): analytical geometry, lengths in the units in `units.json`."""
import json
import math
import os
import re
import sys

U = json.load(open("units.json"))
name = os.path.basename(sys.argv[0])


def rows(f):
    return [list(map(float, x.split()[:3])) for x in open(f)]


def surface(grid, x, y):
    """x, y in meters; elevation in meters."""
    t = 3.0 * math.sin(x / 7.0) + 2.0 * math.cos(y / 5.0 + x / 11.0) + 1.0
    return {"top.2grd": t, "zero.2grd": 0.0, "topo.2grd": t - 7.0}[grid]


def blocks(x, y, z):
    if os.path.exists("labels.json"):
        t = json.load(open("labels.json"))
        return tuple(names[round(v)] for names, v in ((t["fault_blocks"], t["fb"][0] + t["fb"][1] * x + t["fb"][2] * y), (t["zones"], t["zone"][0] + t["zone"][1] * x + t["zone"][2] * y)))
    return ("East Bay" if x > 14.0 else "Bay" if y > 25.0 else ""), ("Upper zone" if z > -6.0 else "Lower" if z > -12.0 else "")


if name == "ev_facedump":
    if sys.argv[1] != "model.faces":
        sys.exit("no " + sys.argv[1])
    if os.path.exists("labels.json"):
        t = json.load(open("labels.json"))
        print("\n".join(["Fault Block Names"] + [f"[{i}] {x}" for i, x in enumerate(t["fault_blocks"]) if x] + ["", "Zone Names"] + [f"[{i}] {x}" for i, x in enumerate(t["zones"]) if x] + ["", "End"]))
        sys.exit(0)
    print("Something\n\nFault Block Names\n[1] Bay\n[2] East Bay\n\nZone Names\n[10] Upper zone\n[11] Lower\n\nEnd")
elif name == "ev_fp":
    m = re.fullmatch(r"(\S+)<elev> = bakint\((\S+), (\S+)<x>, (\S+)<y>\);", sys.stdin.read().strip())
    out, grid, fx, fy = m.groups()
    if fx != fy:
        sys.exit("two files")
    with open(out, "w") as f:
        for x, y, _ in rows(fx):
            f.write("%.9e\n" % (surface(grid, x * U["xy"], y * U["xy"]) / U["z"]))
elif name == "ev_label":
    a = sys.argv[1:]
    if a[0] != "-m" or a[1] != "model.seq" or a[2] != "-o" or a[4:6] != ["-suppress", "VolumeIndex"]:
        sys.exit("arguments " + str(a))
    with open(a[3], "w") as f:
        for x, y, z in rows(a[6]):
            f.write('%.9e\t%.9e\t%.9e\t"%s"\t"%s"\n' % ((x, y, z) + blocks(x * U["xy"], y * U["xy"], z * U["z"])))
