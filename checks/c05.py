"""C05: with several models, the first one in the list that contains the point answers.

All ordered selections (with repetition) of up to three models of a family of overlapping, nested, touching and disjoint
models, in two coordinate systems; points in every region of the arrangement, inside and on faces.  The region a point
lies in is known by construction.  Each model stores its own constants (and in one case only no-data)."""
import itertools

import numpy as np

from gmg import *

# name: (x0, x1, y0, y1, elevation of top, depth, azimuth, nodata value indices)
BOX = {
    "A": (0, 100, 0, 100, 0, 60, 0, ()),
    "B": (50, 150, 20, 120, 0, 60, 0, ()),       # overlaps A
    "C": (20, 60, 20, 60, 0, 20, 0, ()),         # inside A, shallower
    "D": (100, 200, 0, 100, 0, 60, 0, ()),       # touches A and overlaps B
    "E": (0, 100, 0, 100, 12, 80, 180, ()),      # same extent as A, higher top, deeper, y axis to the south
    "N": (0, 70, 0, 100, 0, 100, 90, (0, 1)),    # stores only no-data, x axis to the south
    "P": (0, 70, 30, 100, 0, 70, 270, (1,)),     # one value is no-data
    "Z": (500, 600, 500, 600, 0, 60, 0, ()),     # away from all
}


def spec_of(name, ctx, variant):
    x0, x1, y0, y1, e, depth, az, nod = BOX[name]
    i = sorted(BOX).index(name)
    ox, oy = 1.0e5, -2.0e4
    # an upper and a lower block: the same model must answer through both
    vals = [1000.0 + 10 * i, 2000.0 + 10 * i]
    for k in nod:
        vals[k] = NODATA
    w = {0: (x1 - x0, y1 - y0), 180: (x1 - x0, y1 - y0), 90: (y1 - y0, x1 - x0), 270: (y1 - y0, x1 - x0)}[az]
    org = {0: (x0, y0), 180: (x1, y1), 90: (x0, y1), 270: (x1, y0)}[az]
    variable = variant and i % 2

    def ax(n, L, down=False, z0=0.0):
        if variable:
            return Axis(coords=[(z0 - L * k / (n - 1)) if down else 7.0 + L * k / (n - 1) for k in range(n)])
        return Axis(n, L / (n - 1))
    cut = depth / 2.0
    data = np.empty((3, 2, 3, 2))
    data[...] = vals
    blocks = [BlockSpec("top", ax(3, w[0]), ax(2, w[1]), ax(3, cut, True), 0.0, data),
              BlockSpec("bottom", ax(3, w[0]), ax(2, w[1]), ax(3, cut, True, -cut), -cut, data)]
    top = SurfSpec(ax(2, w[0]), ax(2, w[1]), np.full((2, 2), float(e))) if e or variable else None
    s = ModelSpec((w[0], w[1], depth), blocks, crs="EPSG:3311", origin=(ox + org[0], oy + org[1]), azimuth=az, top=top)
    return s, s.write(str(ctx.work / f"{name}{variant}.h5")), (ox, oy)


def check(ctx):
    drv = ctx.driver()
    names = sorted(BOX)
    for variant in ((0,) if ctx.quick else (0, 1)):
        paths = {}
        for n in names:
            _, paths[n], (ox, oy) = spec_of(n, ctx, variant)
        xs = [-10, 0, 10, 35, 55, 60, 65, 80, 100, 120, 150, 175, 200, 210, 550] if not ctx.quick else [-10, 0, 35, 55, 65, 80, 100, 120, 175, 550]
        ys = [-10, 0, 10, 25, 45, 80, 100, 110, 120, 130, 550] if not ctx.quick else [-10, 0, 25, 45, 80, 100, 110, 550]
        zs = [20, 6, 0, -10, -20, -25, -60, -65, -75, -90]
        pts = list(itertools.product(xs, ys, zs))
        sels = [s for k in (1, 2, 3) for s in itertools.product(names, repeat=k)]

        def inside(n, p):
            x0, x1, y0, y1, e, depth, *_ = BOX[n]
            return x0 <= p[0] <= x1 and y0 <= p[1] <= y1 and -depth <= p[2] <= e
        scripts, jobs = [], []
        for si, sel in enumerate(sels):
            # visit the points in an order that alternates regions
            order = [pts[(j * 137 + si) % len(pts)] for j in range(len(pts))]
            if ctx.quick and len(sel) == 3:
                order = order[:len(pts) // 2] if (si % 2) else order[len(pts) // 2:]
            pre = [T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L([paths[n] for n in sel]), *L(["two", "one"]))]
            s = pre + [T("q.query", "q", ox + p[0], oy + p[1], float(p[2])) for p in order]
            # elevations come from the first model that contains the point as well
            hor = sorted({(p[0], p[1]) for p in order})
            s += [T("q.top", "q", ox + a, oy + b) for a, b in hor]
            scripts.append(s)
            jobs.append((sel, order, hor))
        for (sel, order, hor), s, r in zip(jobs, scripts, drv.run(scripts)):
            ctx.traces += 1
            fl = [paths[n] for n in sel]
            if not r[1].ok:
                ctx.violation(f"{sel}", f"models {sel}: initialize gave {list(r[1])}", {"script": s[:2], "files": fl})
                continue
            for i, p in enumerate(order):
                a = r[2 + i]
                ctx.transitions += 1
                ctx.nstates += 1
                first = next((n for n in sel if inside(n, p)), None)
                if first is None:
                    want = ["1", NODATA, NODATA]
                else:
                    k = names.index(first)
                    nod = BOX[first][7]
                    want = ["0", NODATA if 1 in nod else 2000.0 + 10 * k, NODATA if 0 in nod else 1000.0 + 10 * k]
                if not (a.ok and a[1] == want[0] and len(a) == 4 and all(close(float(v), w) for v, w in zip(a[2:], want[1:]))):
                    ctx.violation(f"{variant} {sel} {p}", f"models {sel}: point {p} is answered by {first or 'no model'} (expected {want}), query gave {list(a)}",
                                  {"script": s[:2] + [s[2 + i]], "files": fl})
                    break
            for i, (x, y) in enumerate(hor):
                a = r[2 + len(order) + i]
                ctx.transitions += 1
                first = next((n for n in sel if inside(n, (x, y, 0))), None)
                want = NODATA if first is None else float(BOX[first][4])
                if not (a.ok and close(float(a[1]), want)):
                    ctx.violation(f"{variant} {sel} top {x} {y}", f"models {sel}: top elevation at ({x},{y}) is that of {first or 'no model'}, {want}; got {list(a)}",
                                  {"script": s[:2] + [s[2 + len(order) + i]], "files": fl})
                    break
    ctx.sample("models (N, B, A): point (65, 45, -25) answered by N with no-data and status OK")
    ctx.notes.update(rule="states = (ordered selection, point); transitions = answers judged", driver_commands=drv.commands)
