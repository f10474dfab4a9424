"""C07: elevation queries return the model's surfaces.

All combinations of surfaces present, surface grids (coarser, finer, uniform, variable, one axis of each), azimuths, top
and topography, one or two models, metric and foot input, at a lattice of points in, on the border of and outside the
models.  Reference: bilinear interpolation of the surface of the first model that contains the point."""
import itertools

import numpy as np

from gmg import *

AEA = "+proj=aea +lat_0=0 +lon_0=-120 +lat_1=34 +lat_2=40.5 +x_0=0 +y_0=-4000000 +datum=NAD83 +units=m +vunits={} +type=crs"
UNIT = {"m": 1.0, "ft": 0.3048, "us-ft": 1200.0 / 3937.0, "km": 1000.0}
W, H, D = 300.0, 200.0, 500.0


def surf(kind, seed, lo, hi):
    rng = np.random.default_rng(seed)

    def ax(n, L, variable, start):
        if not variable:
            return Axis(n, L / (n - 1))
        gaps = rng.integers(1, 9, size=n - 1).astype(float)
        pos = np.concatenate(([0.0], np.cumsum(gaps))) * L / gaps.sum()
        pos[-1] = L
        return Axis(coords=[start + p for p in pos])
    nx, ny, vx, vy, start = {"coarse": (2, 2, 0, 0, 0), "fine": (7, 5, 0, 0, 0), "var": (6, 4, 1, 1, 2.0e4), "varx": (5, 3, 1, 0, -77.0), "vary": (3, 9, 0, 1, 11.0)}[kind]
    return SurfSpec(ax(nx, W, vx, start), ax(ny, H, vy, start), rng.integers(lo, hi, size=(nx, ny)).astype(float))


def check(ctx):
    drv = ctx.driver()
    kinds = ["coarse", "fine", "var", "varx", "vary"]
    combos = [(None, None)] + [(k, None) for k in kinds] + [(None, k) for k in kinds] + list(itertools.product(kinds, kinds))
    azs = [0.0, 215.0] if ctx.quick else [0.0, 30.0, 90.0, 180.0, 215.0, 300.0]
    units = ["m", "ft"] if ctx.quick else list(UNIT)
    models = {}
    for i, (kt, kg) in enumerate(combos):
        for ia, az in enumerate(azs):
            top = surf(kt, 10 + i, 20, 200) if kt else None
            topo = surf(kg, 90 + i, -150 if not kt else -150, -1 if not kt else 20) if kg else None
            blk = BlockSpec("b", Axis(3, W / 2), Axis(3, H / 2), Axis(2, D), 0.0, np.full((3, 3, 2, 2), 3.0))
            # the second family of origins overlaps the first
            off = 120.0 * (i % 3)
            spec = ModelSpec((W, H, D), [blk], crs=AEA.format("m"), origin=(1000.0 + off, 2000.0), azimuth=az, top=top, topo=topo)
            models[i, ia] = (spec, spec.write(str(ctx.work / f"m{i}_{ia}.h5")), Ref(spec), (kt, kg, az, off))
    keys = sorted(models)
    lists = [(k,) for k in keys]
    step = 5 if ctx.quick else 1
    pairs = [(a, b) for a in keys for b in keys if a != b]
    lists += [p for n, p in enumerate(pairs) if n % (11 * step if ctx.quick else 19) == 0]
    fx = [-0.2, -0.02, 0.0, 0.11, 0.25, 0.5, 0.73, 1.0, 1.02, 1.2]
    local = [(a * W, b * H) for a, b in itertools.product(fx, fx)]
    scripts, jobs = [], []
    for il, lst in enumerate(lists):
        ms = [models[k] for k in lst]
        # points relative to every model of the list (so also outside the other ones)
        pts = [(m[2].world(*p)) for m in ms for p in (local if len(lst) == 1 else local[::3])]
        if len(lst) == 2:
            pts = [p for n, p in sorted(((n * 37) % len(pts), p) for n, p in enumerate(pts))]
        for iu, u in enumerate(units):
            if len(lst) == 2 and (il + iu) % len(units):
                continue
            for iface in ("q", "c"):
                if iface == "c" and (il + iu) % 3:
                    continue
                s = [T(iface + ".new", "o"), T(iface + ".init", "o", AEA.format(u), *L([m[1] for m in ms]), *L(["one"]))]
                for p in pts:
                    s += [T(iface + ".top", "o", *p), T(iface + ".topo", "o", *p)]
                if len(lst) == 1 and iface == "q":
                    s += [T("m.new", "m"), T("m.crs", "m", AEA.format(u)), T("m.open", "m", ms[0][1]), T("m.load", "m"), T("m.init", "m")]
                    for p in pts:
                        s += [T("m.top", "m", *p), T("m.topo", "m", *p)]
                scripts.append(s)
                jobs.append((lst, ms, pts, u, iface))
    for (lst, ms, pts, u, iface), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.traces += 1
        desc = f"models (top grid, topography grid, azimuth, offset) {[m[3] for m in ms]}, vertical unit {u}, interface {iface}"
        files = [m[1] for m in ms]
        if not r[1].ok:
            ctx.violation(desc, f"{desc}: initialize gave {list(r[1])}", {"script": s[:2], "files": files})
            continue
        off = 2 + 2 * len(pts) + 5
        for i, p in enumerate(pts):
            w = [NODATA, NODATA]
            for m in ms:
                xl, yl = m[2].local(*p)
                if m[2].inside_xy(xl, yl, 1e-7):
                    xl, yl = min(max(xl, 0.0), W), min(max(yl, 0.0), H)
                    w = [m[2].elev_local("top", xl, yl) / UNIT[u], m[2].elev_local("topo", xl, yl) / UNIT[u]]
                    break
            for k in (0, 1):
                ctx.transitions += 1
                ctx.nstates += 1
                a = r[2 + 2 * i + k]
                bad = None
                if not (a.ok and abs(float(a[1]) - w[k]) <= 1e-6 * max(1.0, abs(w[k]))):
                    bad = (2 + 2 * i + k, a, s[:2])
                elif len(lst) == 1 and iface == "q" and (w[k] != NODATA or ms[0][0].top or (k and ms[0][0].topo)):
                    a = r[off + 2 * i + k]
                    if not (a.ok and (float(a[1]) == w[k] if w[k] == NODATA else abs(float(a[1]) - w[k]) <= 1e-6 * max(1.0, abs(w[k])))):
                        bad = (off + 2 * i + k, a, s[off - 5:off])
                if bad:
                    ctx.violation(f"{desc} {p} {k}", f"{desc}: {('top', 'topography')[k]} elevation at {p} should be {w[k]}: {s[bad[0]]} gave {list(bad[1])}",
                                  {"script": bad[2] + [s[bad[0]]], "files": files})
                    break
            else:
                continue
            break
    ctx.sample("model with variable top surface and finer uniform topography, azimuth 215, elevations in feet")
    ctx.notes.update(rule="states = (models, unit, interface, point, surface)", driver_commands=drv.commands)
    ctx.assumptions += ["topography is below the top surface, as the file format requires"]
