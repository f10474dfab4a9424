"""C25: coordinate transformations are consistent and correctly described.

All ordered pairs of a family of coordinate systems, on a lattice of points, forward and inverse; all re-initialization
sequences up to a bound; units and axis order of every system.  Oracle: the same PROJ library through pyproj."""
import concurrent.futures
import itertools
import math
import warnings

import pyproj

from gmg import *

warnings.filterwarnings("ignore")
WKT_MIXED = ('PROJCRS["mixed units",BASEGEOGCRS["WGS 84",DATUM["World Geodetic System 1984",ELLIPSOID["WGS 84",6378137,298.257223563,LENGTHUNIT["metre",1]]]],'
             'CONVERSION["c",METHOD["Transverse Mercator",ID["EPSG",9807]],PARAMETER["Latitude of natural origin",35,ANGLEUNIT["degree",0.0174532925199433]],'
             'PARAMETER["Longitude of natural origin",-120,ANGLEUNIT["degree",0.0174532925199433]],PARAMETER["Scale factor at natural origin",0.9996,SCALEUNIT["unity",1]],'
             'PARAMETER["False easting",0,LENGTHUNIT["metre",1]],PARAMETER["False northing",0,LENGTHUNIT["metre",1]]],'
             'CS[Cartesian,2],AXIS["easting",east,ORDER[1],LENGTHUNIT["metre",1]],AXIS["northing",north,ORDER[2],LENGTHUNIT["kilometre",1000]]]')
FAMILY = {
    "wgs84": "EPSG:4326", "nad83": "EPSG:4269", "crs84": "OGC:CRS84", "longlat": "+proj=longlat +datum=WGS84 +type=crs", "geo3d": "EPSG:4979", "ecef": "EPSG:4978",
    "utm10": "EPSG:26910", "utm11": "EPSG:32611", "albers": "EPSG:3311", "albers2": "EPSG:3488", "ftus": "EPSG:2227", "tmkm": "+proj=tmerc +lon_0=-121.3 +lat_0=36.1 +k=0.9996 +x_0=100000 +y_0=-5000 +datum=NAD83 +units=km +type=crs",
    "bound": "+proj=aea +lat_1=34 +lat_2=40.5 +lat_0=0 +lon_0=-120 +x_0=0 +y_0=-4000000 +ellps=GRS80 +towgs84=0,0,0,0,0,0,0 +units=m +no_defs +type=crs", "wkt": pyproj.CRS("EPSG:3310").to_wkt(), "wkt1": pyproj.CRS("EPSG:26911").to_wkt("WKT1_GDAL"),
    "mixed": WKT_MIXED, "nztm": "EPSG:2193", "proj-only": "+proj=utm +zone=10 +datum=WGS84", "geoid": "EPSG:4326+5773", "utmheight": "EPSG:26910+5703", "bound3d": "+proj=utm +zone=10 +ellps=GRS80 +towgs84=1,2,3,0,0,0,0 +vunits=us-ft +units=m +type=crs",
}
BAD = ["", "EPSG:999999", "EPSG:ABCD", "EPSG:3311,EPSG:26910", "+proj=nothing +type=crs", "+proj=pipeline +step +proj=axisswap +order=2,1", "urn:ogc:def:ellipsoid:EPSG::7030", "EPSG:5703"]


def same(a, b, scale=1.0):
    if math.isinf(b) or math.isnan(b):
        return not math.isfinite(a)
    return abs(a - b) <= 1e-9 * max(1.0, abs(b)) * scale


def transformed(job):
    a, b, pa, pb = job
    tr = pyproj.Transformer.from_crs(a, b)
    return [tr.transform(*p, direction="FORWARD") for p in pa], [tr.transform(*p, direction="INVERSE") for p in pb]


def check(ctx):
    ctx.build("driver", "driver-fast")
    asan, drv = ctx.driver(), ctx.driver(fast=True)
    fam = dict(FAMILY)
    if ctx.quick:
        for k in ("nad83", "utm11", "albers2", "wkt1", "longlat"):
            fam.pop(k)
    crs = {k: pyproj.CRS.from_user_input(v + (" +type=crs" if k == "proj-only" else "")) for k, v in fam.items()}
    step = 1 if not ctx.quick else 3
    geo = [(lat, lon, z) for lat in range(-2, 91, 10)[::step] for lon in (-180, -130, -121.3, -120, -117.25, -60, 0, 172.5)[::1] for z in (0.0, -5000.0, 300.0)[::step]] + [(36.1, -121.3, 7.5), (-41.0, 173.0, 12.0), (91.0, -120.0, 0.0), (90.0, 0.0, 0.0)]
    pts = {}
    for k in fam:
        t = pyproj.Transformer.from_crs("EPSG:4979", crs[k])
        pts[k] = sorted({tuple(p) for p in (t.transform(*g) for g in geo) if all(map(math.isfinite, p))}) + [(1e9, -1e9, 0.0), (0.0, 0.0, 0.0)]
    pairs = list(itertools.product(fam, repeat=2))
    scripts, trs = [], []
    for a, b in pairs:
        scripts.append([T("t.new", "t", fam[a], fam[b])] + [T(c, "t", *p) for p in pts[a] for c in ("t.fwd", "t.fwd2")] + [T(c, "t", *p) for p in pts[b] for c in ("t.inv", "t.inv2")])
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        oracle = list(ex.map(transformed, [(fam[a] + (" +type=crs" if a == "proj-only" else ""), fam[b] + (" +type=crs" if b == "proj-only" else ""), pts[a], pts[b]) for a, b in pairs], chunksize=4))
    for (a, b), s, r, orc in zip(pairs, scripts, drv.run(scripts), oracle):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += len(s)
        i, prob = 1, None
        if not r[0].ok:
            ctx.violation(f"pair {a} {b}", f"transformation from {a} to {b} cannot be created: {list(r[0])}", {"script": s})
            continue
        for direction, P, E in (("FORWARD", pts[a], orc[0]), ("INVERSE", pts[b], orc[1])):
            for p, e in zip(P, E):
                x, y = r[i], r[i + 1]
                i += 2
                if prob:
                    continue
                if not x.ok or not all(same(x.f(k + 1), e[k]) for k in range(3)):
                    prob = f"{direction} of {p} gives {list(x)}, the projection library {e}"
                elif list(y) != [x[0], x[1], x[2], "7777"]:
                    prob = f"{direction} of {p} without elevation gives {list(y)}, with elevation {list(x)}"
        if prob:
            ctx.violation(f"pair {a} {b}", f"from {a} to {b}: {prob}", {"script": s})
    # the inverse undoes the forward transformation
    good = [k for k in fam if k not in ("nztm",)]
    loc = [(36.1, -121.3, 7.5), (35.0, -120.0, 0.0), (38.0, -122.0, -30000.0)]
    jobs = []
    for a, b in itertools.product(good, repeat=2):
        t = pyproj.Transformer.from_crs("EPSG:4979", crs[a])
        jobs.append((a, b, [t.transform(*g) for g in loc]))
    first = drv.run([[T("t.new", "t", fam[a], fam[b])] + [T("t.fwd", "t", *p) for p in P] for a, b, P in jobs])
    back = drv.run([[T("t.new", "t", fam[a], fam[b])] + [T("t.inv", "t", *f[1:]) for f in r[1:]] for (a, b, P), r in zip(jobs, first)])
    for (a, b, P), r, q in zip(jobs, first, back):
        for p, f, g in zip(P, r[1:], q[1:]):
            ctx.transitions += 2
            # two-dimensional steps between datums may drop or adjust the elevation: horizontal position only
            if not g.ok or not all(abs(g.f(k + 1) - p[k]) <= (1e-7 if crs[a].is_geographic else 1e-5 if a == "tmkm" else 1e-2) for k in range(2)):
                ctx.violation(f"round trip {a} {b}", f"from {a} to {b} and back: {p} -> {list(f)} -> {list(g)}", {"script": [T("t.new", "t", fam[a], fam[b]), T("t.fwd", "t", *p), T("t.inv", "t", *f[1:])]})
                break
    reinit(ctx, asan, fam, crs, pts)
    setters(ctx, drv, fam, crs)
    described(ctx, asan, crs)
    ctx.sample("EPSG:26910 to tmkm at 12 x 8 x 3 lattice points, forward and inverse")
    ctx.notes.update(rule="states = ordered pairs and re-initialization sequences", driver_commands=drv.commands + asan.commands)
    ctx.assumptions.append("PROJ itself is correct")


def reinit(ctx, drv, fam, crs, pts):
    """The latest initialization decides; a transformer that could not be initialized does not pass points through."""
    names = ["wgs84", "utm10", "tmkm", "EPSG:999999"]
    ks = list(itertools.product(names, repeat=2))
    ks = [k for k in ks if k[0] != k[1]]
    text = lambda n: fam.get(n, n)
    depth = 2 if ctx.quick else 3
    seqs = [s for n in range(1, depth + 1) for s in itertools.product(ks, repeat=n)]
    P = {"wgs84": (36.0, -121.0, 10.0), "utm10": (500100.0, 4000000.0, 10.0), "tmkm": (100.0, -5.0, 10.0)}
    trs = {(a, b): pyproj.Transformer.from_crs(crs[a], crs[b]) for a, b in ks if a in P and b in P}
    scripts = [[T("t.new", "t")] + [c for a, b in s for c in (T("t.reinit", "t", text(a), text(b)), T("t.fwd", "t", *P.get(a, P["wgs84"])), T("t.inv", "t", *P.get(b, P["wgs84"])))] for s in seqs]
    for sq, s, r in zip(seqs, scripts, drv.run(scripts)):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += len(s)
        for i, (a, b) in enumerate(sq):
            x, f, g = r[1 + 3 * i:4 + 3 * i]
            if (a, b) in trs:
                e, h = trs[a, b].transform(*P[a]), trs[a, b].transform(*P[b], direction="INVERSE")
                ok = x.ok and f.ok and g.ok and all(same(f.f(k + 1), e[k]) and same(g.f(k + 1), h[k]) for k in range(3))
            else:
                bad = lambda v: v[0] == "EXC" or v[0] == "OK" and not any(math.isfinite(v.f(k)) for k in (1, 2))
                ok = x[0] == "EXC" and bool(x[2]) and bad(f) and bad(g)
            if not ok:
                ctx.violation(f"reinit {sq[:i + 1]}", f"initializations {sq[:i + 1]}: initialize {list(x)}, transform {list(f)}, inverse {list(g)}", {"script": s})
                break


def setters(ctx, drv, fam, crs):
    """All sequences of setting the source, setting the destination and initializing: after each initialization the pair set last decides."""
    ops = [("src", k) for k in ("wgs84", "utm10", "EPSG:999999")] + [("dest", k) for k in ("wgs84", "tmkm", "EPSG:999999")] + [("init", None)]
    depth = 5 if ctx.quick else 6
    P = {"wgs84": (36.0, -121.0, 10.0), "utm10": (500100.0, 4000000.0, 10.0)}
    C = {"albers2": pyproj.CRS("EPSG:3488"), **{k: crs[k] for k in ("wgs84", "utm10", "tmkm")}}
    want = {(a, b): pyproj.Transformer.from_crs(C[a], C[b]).transform(*P[a]) for a in P for b in ("wgs84", "tmkm", "albers2")}
    seqs = [s for s in itertools.product(ops, repeat=depth) if s[-1][0] == "init"]
    scripts, expected = [], []
    for sq in seqs:
        src, dst, s, e = "wgs84", "albers2", [T("t.raw", "t")], []
        for op, k in sq:
            if op == "init":
                s += [T("t.init", "t"), T("t.fwd", "t", *P.get(src, P["wgs84"]))]
                e.append((len(s) - 2, (src, dst)))
            else:
                s.append(T("t." + op, "t", fam.get(k, k)))
                src, dst = (k, dst) if op == "src" else (src, k)
        scripts.append(s)
        expected.append(e)
    for sq, s, ex, r in zip(seqs, scripts, expected, drv.run(scripts)):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += len(s)
        for i, k in ex:
            x, f = r[i], r[i + 1]
            if k in want:
                ok = x.ok and f.ok and all(same(f.f(j + 1), want[k][j]) for j in range(3))
            else:
                ok = x[0] == "EXC" and bool(x[2]) and (f[0] == "EXC" or f[0] == "OK" and not any(math.isfinite(f.f(j)) for j in (1, 2)))
            if not ok:
                ctx.violation(f"setters {sq}", f"{sq}: initialize {list(x)}, transform {list(f)}, expected {want.get(k, 'an error')}", {"script": s})
                break


def described(ctx, drv, crs):
    name = {"metre": "meter", "kilometre": "kilometer"}
    r = drv.run([[T("t.units", FAMILY[k]), T("t.xy", "t", FAMILY[k]), T("t.fwd", "t", 11.0, 22.0, 33.0), T("t.inv", "t", 11.0, 22.0, 33.0)] for k in crs])
    for k, a in zip(crs, r):
        ctx.nstates += 1
        ctx.transitions += 4
        ax = [x for x in (crs[k].source_crs if crs[k].is_bound else crs[k]).axis_info]
        u = [name.get(x.unit_name, x.unit_name) for x in ax]
        e = u + ["meter (assumed)"] * (3 - len(u))
        if list(a[0]) != ["OK"] + e:
            ctx.violation(f"units {k}", f"units of {k} ({FAMILY[k]}) are given as {list(a[0])}, its axes have {e}", {"script": [T("t.units", FAMILY[k])]})
        for part in ("x", "y", "z", "xy", "xz", "yz", ""):
            ctx.transitions += 1
            got = drv.run([[T("t.units", FAMILY[k], part)]])[0][0]
            if list(got) != ["OK"] + [v if ch in part else "" for v, ch in zip(e, "xyz")]:
                ctx.violation(f"units {k} {part}", f"units {part} of {k} ({FAMILY[k]}) are given as {list(got)}, its axes have {e}", {"script": [T("t.units", FAMILY[k], part)]})
        if crs[k].is_geocentric:
            continue
        order = (11.0, 22.0, 33.0) if ax[0].direction.lower() == "east" else (22.0, 11.0, 33.0)
        if not a[1].ok or any(not v.ok or not all(same(v.f(i + 1), order[i]) for i in range(3)) for v in a[2:4]):
            ctx.violation(f"xy order {k}", f"x/y order of (11, 22, 33) in {k} is given as {list(a[1])} {list(a[2])} (inverse {list(a[3])}), expected {order}", {"script": [T("t.xy", "t", FAMILY[k]), T("t.fwd", "t", 11.0, 22.0, 33.0)]})
    r = drv.run([[T("t.new", "t", b, "EPSG:3311"), T("t.new", "t", "EPSG:3311", b), T("t.units", b), T("t.xy", "t", b)] for b in BAD])
    for b, a in zip(BAD, r):
        for what, v in zip(("from", "to", "units of", "axis order of"), a):
            ctx.transitions += 1
            if v[0] == "OK" and what in ("units of", "axis order of") and b in ("", "EPSG:5703", "+proj=pipeline +step +proj=axisswap +order=2,1", "urn:ogc:def:ellipsoid:EPSG::7030"):
                if what == "units of" and v[1] in ("unknown",) or b == "EPSG:5703" or b.startswith("+proj=pipe") and what != "units of":
                    continue
            if b == "EPSG:5703" and v[0] == "EXC" or v[0] == "OK" and b == "EPSG:5703":
                continue  # a vertical system: whether a horizontal transformation exists is up to the projection library
            if v[0] != "EXC" or not v[2]:
                ctx.violation(f"invalid {b} {what}", f"coordinate system {b!r}: {what}: {list(v)}", {"script": [T("t.units", b), T("t.xy", "t", b)]})
