"""C06: squashing moves elevations exactly as documented.

All sequences of squashing settings up to a bound are executed on one object, with the same queries after every
setting, through the C++ and the C interface.  The models store the logical elevation, so an answer tells which
elevation was looked up.  Reference: the last settings and the documented formula."""
import itertools

import numpy as np

from gmg import *

AEA = "+proj=aea +lat_0=0 +lon_0=-120 +lat_1=34 +lat_2=40.5 +x_0=0 +y_0=-4000000 +datum=NAD83 +units=m +vunits={} +type=crs"
FT = 0.3048
NX, NY = 4, 3
MAXPTS = 2


def make(ctx, tag, depth, top, topo, x0=0.0, wx=300.0, az=0.0):
    g = np.empty((NX, NY, 5, 2))
    dz = depth / 4
    g[..., 0] = -np.arange(5) * dz
    g[..., 1] = 7.0
    blk = BlockSpec("b", Axis(NX, wx / (NX - 1)), Axis(NY, 100.0), Axis(5, dz), 0.0, g)
    sx, sy = Axis(NX, wx / (NX - 1)), Axis(NY, 100.0)
    spec = ModelSpec((wx, 200.0, depth), [blk], crs=AEA.format("m"), origin=(x0, 500.0), azimuth=az, values=["z", "id"], units=["m", "none"],
                     top=None if top is None else SurfSpec(sx, sy, np.asarray(top, float)), topo=None if topo is None else SurfSpec(sx, sy, np.asarray(topo, float)))
    return spec, spec.write(str(ctx.work / f"{tag}.h5"))


def answer(specs, refs, pt, zin, unit, mode, zmin):
    """Reference answer for elevation zin (input units) under the given squashing; None if the formula is undefined."""
    for spec, ref in zip(specs, refs):
        xl, yl = ref.local(*pt)
        z = zin
        if mode != "none" and zin > zmin:
            if zmin == 0.0:
                return None
            s = 0.0
            ci, cj = min(max(xl, 0), spec.dims[0]), min(max(yl, 0), spec.dims[1])
            s = ref.elev_local(mode, ci, cj) / unit
            z = s + zin * (zmin - s) / zmin
        zm = z * unit
        if not ref.inside_xy(xl, yl):
            continue
        zl = ref.zlogical(xl, yl, zm)
        if -5e-5 < zl < 5e-5 or abs(zl + spec.dims[2]) < 5e-5:
            zl = min(0.0, max(zl, -spec.dims[2]))
        elif not -spec.dims[2] <= zl <= 0.0:
            continue
        return ("0", zl)
    return ("1", NODATA)


def check(ctx):
    drv = ctx.driver()
    rough = [[10, 40, 5], [0, 25, 60], [80, 30, 20], [15, 15, 45]]
    lower = [[5, 30, -35], [-20, 25, 10], [80, -30, 20], [-15, 5, 45]]
    deep = [[-30, -40, -5], [-10, -25, -60], [-80, -30, -20], [-15, -15, -45]]
    fam = {
        "flat": [make(ctx, "flat", 400.0, None, None)],
        "top": [make(ctx, "top", 400.0, rough, None, az=270.0)],
        "both": [make(ctx, "both", 400.0, rough, lower)],
        "topo": [make(ctx, "topo", 400.0, None, deep)],
        "two": [make(ctx, "two1", 160.0, rough, lower, az=180.0, x0=300.0), make(ctx, "two2", 400.0, deep, None, x0=100.0)],
    }
    # the first model covers the same ground as the second one, has other surfaces, and is too shallow for some queries
    fam["over"] = [make(ctx, "over1", 160.0, rough, lower), make(ctx, "over2", 400.0, [[60, -40, 35], [20, 45, -60], [-80, 10, 50], [35, 5, -25]], deep, x0=-20.0, wx=400.0)]
    # the second point of a list must not be in the first model only
    settings = [("min", -200.0), ("min", -50.0), ("min", -400.0), ("squash", "none"), ("squash", "top"), ("squash", "topo")]
    kmax = 3 if ctx.quick else 4
    seqs = [s for k in range(0, kmax + 1) for s in itertools.product(settings, repeat=k) if k in (0, kmax)]
    scripts, jobs = [], []
    for name, ms in fam.items():
        specs, refs = [m[0] for m in ms], [Ref(m[0]) for m in ms]
        files = [m[1] for m in ms]
        for unit, crs in ((1.0, AEA.format("m")), (FT, AEA.format("ft"))):
            if unit != 1.0 and name not in ("both", "two", "over"):
                continue
            # points in local coordinates of the first model: inside and (for lists) in the second only
            pts = [refs[0].world(130.0, 70.0), refs[0].world(35.0, 160.0)]
            if name == "two":
                pts[1] = (330.0, 540.0)
            pts.append((1.0e5, 1.0e5))
            zs = [30.0, 0.0, -3.0, -49.0, -50.0, -51.0, -120.0, -200.0, -230.0, -380.0]
            memo = {}
            for iface in ("q", "c"):
                if iface == "c" and name in ("flat", "topo"):
                    continue
                for iq, sq in enumerate(seqs):
                    if iface == "c" and ctx.quick and iq % 3:
                        continue
                    pre = [T(iface + ".new", "o"), T(iface + ".init", "o", crs, *L(files), *L(["z"]))]
                    s, exp, mode, zmin = list(pre), [], "none", 0.0
                    for step in range(len(sq) + 1):
                        if step:
                            op, v = sq[step - 1]
                            if op == "min":
                                s.append(T(iface + ".minelev", "o", v))
                                zmin = v
                                mode = "top" if mode == "none" else mode
                            else:
                                s.append(T(iface + ".squash", "o", v if iface == "q" else {"none": 0, "top": 1, "topo": 2}[v]))
                                mode = v
                            exp.append(None)
                        # after a prefix that other sequences share, one probe is enough
                        full = step == len(sq)
                        for p in (pts if full else pts[:1]):
                            for z in (zs if full else (-3.0, -120.0)):
                                key = (p, z, mode, zmin)
                                if key not in memo:
                                    memo[key] = answer(specs, refs, p, z, unit, mode, zmin)
                                s.append(T(iface + ".query", "o", p[0], p[1], z))
                                exp.append((memo[key], key))
                    scripts.append(s)
                    jobs.append((name, unit, iface, sq, exp, files))
    for (name, unit, iface, sq, exp, files), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.traces += 1
        sticky = False
        for i, e in enumerate(exp):
            a = r[2 + i]
            if e is None:
                if not a.ok:
                    ctx.violation(f"{name} {unit} {iface} {sq}", f"models {name}, {iface}: {s[2 + i]} gave {list(a)}", {"script": s[:3 + i], "files": files})
                    break
                continue
            ctx.transitions += 1
            ctx.state((name, unit, iface, sq, i))
            want, key = e
            if want is None:
                good = a[0] == "OK"
                sticky = sticky or (a.ok and a[1] == "1")
            else:
                # the C interface reports the status of the handler, in which an earlier warning stays until reset
                good = a.ok and (a[1] == want[0] or (iface == "c" and sticky)) and abs(float(a[2]) - want[1]) <= 1e-6 * max(1.0, abs(want[1]) if want[1] != NODATA else 1e20)
                sticky = sticky or want[0] == "1"
            if not good:
                ctx.violation(f"{name} {unit} {iface} {sq} {i}", f"models {name}, vertical unit {unit} m, settings {sq}, in effect {key[2:]}: {s[2 + i]} answers {list(a)}, expected {want} (logical elevation looked up)",
                              {"script": s[:3 + i], "files": files})
                break
    ctx.sample("settings (min -200, squash topo, min -50): logical elevation looked up at 3 points x 10 elevations")
    ctx.notes.update(rule="states = (models, interface, sequence of settings, query)", driver_commands=drv.commands)
    ctx.assumptions += ["above a minimum elevation of zero the documented formula is undefined: only absence of a crash is required there"]
