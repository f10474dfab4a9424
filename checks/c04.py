"""C04: points map to grid positions through CRS, origin, azimuth and topography.

The stored values of every model are the logical coordinates themselves, so a query returns the position the library
mapped the point to.  All combinations of input system, model system, azimuth, origin and top surface of finite families
are executed on the real code; the oracle is pyproj plus the documented rotation and vertical mapping."""
import itertools
import math

import numpy as np
import pyproj

from gmg import *

INPUT = ["EPSG:4326", "EPSG:3311", "EPSG:26910", "OGC:CRS84", "EPSG:4269", "EPSG:4979", "EPSG:26910+5703", "EPSG:4326+8228", "EPSG:4978", "+proj=longlat +datum=WGS84 +type=crs",
         "+proj=tmerc +datum=WGS84 +lat_0=38 +lon_0=-122 +k=0.9996 +units=us-ft +vunits=us-ft +type=crs",
         "+proj=utm +zone=10 +datum=WGS84 +units=m +vunits=ft +type=crs"]
MODEL = ["EPSG:3311", "EPSG:26910", "+proj=tmerc +datum=WGS84 +lat_0=37 +lon_0=-121 +k=0.9999 +units=m +vunits=m +type=crs", "EPSG:32610"]
# (model system, latitude and longitude near its origin) elsewhere: southern hemisphere and across the antimeridian, around the pole, across the equator and the Greenwich meridian
FAR = [("EPSG:32760", -16.9, 179.85), ("EPSG:3031", -89.9, 30.0), ("EPSG:3413", 78.0, 179.8), ("+proj=tmerc +datum=WGS84 +lat_0=0 +lon_0=0 +units=m +vunits=m +type=crs", -0.1, -0.15), ("EPSG:2193", -41.3, 174.8)]
FAR_INPUT = ["EPSG:4326", "OGC:CRS84", "EPSG:4979", "EPSG:4978", "EPSG:4326+5773", "EPSG:9518"]
AZ = [0.0, 30.0, 90.0, 135.0, 180.0, 250.0, 330.0, -45.0, 0.01, 359.0, 45.0, 89.999, 270.0, 0.4, -1e-3, 720.5]
DIMS = (40000.0, 30000.0, 12000.0)


def reference_transform(src, dst):
    """Axis order and units as the authority (or the PROJ string) defines them, without grids."""
    return pyproj.Transformer.from_crs(src, dst, always_xy=False)


def mk(ctx, crs, az, off, topo, tag, at=(37.4, -121.7)):
    c = pyproj.Transformer.from_crs("EPSG:4326", crs, always_xy=False).transform(*at)
    origin = (float(round(c[0], 1)) + off[0], float(round(c[1], 1)) + off[1])
    def grid(nx, ny, nz, ztop, dz):
        dx, dy = DIMS[0] / (nx - 1), DIMS[1] / (ny - 1)
        g = np.empty((nx, ny, nz, 3))
        g[..., 0] = (np.arange(nx) * dx)[:, None, None]
        g[..., 1] = (np.arange(ny) * dy)[None, :, None]
        g[..., 2] = (ztop - np.arange(nz) * dz)[None, None, :]
        return g, Axis(nx, dx), Axis(ny, dy), Axis(nz, dz)
    g0, x0, y0, z0 = grid(5, 4, 5, 0.0, 1000.0)
    g1, x1, y1, z1 = grid(3, 3, 3, -4000.0, 4000.0)
    top = None
    if topo == "flat":
        top = SurfSpec(Axis(2, DIMS[0]), Axis(2, DIMS[1]), np.full((2, 2), 750.0))
    elif topo == "rough":
        top = SurfSpec(Axis(5, DIMS[0] / 4), Axis(4, DIMS[1] / 3), np.random.default_rng(7).integers(-200, 2500, size=(5, 4)).astype(float))
    elif topo == "deep":
        top = SurfSpec(Axis(3, DIMS[0] / 2), Axis(2, DIMS[1]), np.array([[-3000.0, -100.0], [-2500.0, -50.0], [-2000.0, 12.0]]))
    spec = ModelSpec(DIMS, [BlockSpec("upper", x0, y0, z0, 0.0, g0), BlockSpec("lower", x1, y1, z1, -4000.0, g1)], crs=crs, origin=origin, azimuth=az,
                     values=["x", "y", "z"], units=["m", "m", "m"], top=top)
    return spec, spec.write(str(ctx.work / f"{tag}.h5"))


def check(ctx):
    drv = ctx.driver()
    az = AZ if not ctx.quick else AZ[:9]
    offs = [(0.0, 0.0), (-15000.0, 8000.0)]
    topos = ["none", "flat", "rough", "deep"]
    scripts, metas = [], []
    fr = (0.03, 0.41, 0.97)
    for im, (crs, at, inputs) in enumerate([(c, (37.4, -121.7), INPUT) for c in MODEL] + [(c, at, FAR_INPUT) for c, *at in FAR]):
        for ia, a in enumerate(az if im < len(MODEL) else az[1:9:3]):
            for it, topo in enumerate(topos):
                for io, off in enumerate(offs):
                    if ctx.quick and (im + ia + it + io) % 2:
                        continue
                    spec, path = mk(ctx, crs, a, off, topo, f"m{im}_{ia}_{it}_{io}", at)
                    ref = Ref(spec)
                    pts = []
                    for fx, fy, fz in itertools.product(fr, fr, (0.02, 0.3, 0.34, 0.98)):
                        xl, yl = fx * DIMS[0], fy * DIMS[1]
                        e = ref.elev_local("top", xl, yl)
                        zl = -fz * DIMS[2]
                        # z such that the documented mapping gives zl
                        z = e + zl * (DIMS[2] + e) / DIMS[2]
                        pts.append((ref.world(xl, yl), z, (xl, yl, zl)))
                    for fx, fy, fz in ((-0.02, 0.5, 0.5), (1.02, 0.5, 0.5), (0.5, -0.02, 0.5), (0.5, 1.02, 0.5), (0.5, 0.5, 1.01), (0.5, 0.5, -0.01), (-0.02, -0.02, 0.5), (1.02, 1.02, 0.5)):
                        xl, yl = fx * DIMS[0], fy * DIMS[1]
                        e = ref.elev_local("top", min(max(xl, 0), DIMS[0]), min(max(yl, 0), DIMS[1]))
                        pts.append((ref.world(xl, yl), e - fz * (DIMS[2] + e), None))
                    for ii, inp in enumerate(inputs):
                        if ctx.quick and (ii + ia + im + it) % (8 if '+5' in inp[4:] or inp.endswith(('8228', '9518')) else 3) and ii > 1:
                            continue
                        tr = reference_transform(inp, crs)
                        inv = [tr.transform(p[0][0], p[0][1], p[1], direction="INVERSE") for p in pts]
                        s = [T("q.new", "q"), T("q.init", "q", inp, *L([path]), *L(["x", "y", "z"]))] + [T("q.query", "q", *[float(v) for v in c]) for c in inv]
                        scripts.append(s)
                        metas.append((crs, a, topo, off, inp, pts, path))
    # a closing loop for the oracle itself: the reference transforms must be invertible on these points
    for (crs, a, topo, off, inp, pts, path), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        desc = f"model {crs} azimuth {a} offset {off} top {topo}, input {inp}"
        if not r[1].ok:
            ctx.violation(desc, f"{desc}: initialize gave {list(r[1])}", {"script": s[:2], "files": [path]})
            continue
        for i, (p, ans) in enumerate(zip(pts, r[2:])):
            ctx.transitions += 1
            ctx.state((crs, a, topo, off, inp, i))
            if p[2] is None:
                good = ans.ok and ans[1] == "1" and all(float(v) == NODATA for v in ans[2:])
                want = "outside"
            else:
                want = p[2]
                good = ans.ok and ans[1] == "0" and len(ans) == 5 and all(abs(float(v) - w) < 0.02 for v, w in zip(ans[2:], want))
            if not good:
                ctx.violation(f"{desc} {i}", f"{desc}: point with model coordinates {p[0]}, {p[1]} should be at logical position {want}; the values there are the position: {list(ans)}",
                              {"script": s[:2] + [s[2 + i]], "files": [path]})
                break
    ctx.sample("input EPSG:4326, model EPSG:3311 azimuth 330, rough top: 36 positions in, 8 outside")
    ctx.notes.update(rule="states = distinct (configuration, point); transitions = points judged", driver_commands=drv.commands)
    ctx.assumptions += ["pyproj (same PROJ data) is the reference for coordinate systems", "mapped positions are compared to 0.02 m"]
