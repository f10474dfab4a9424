"""C03: the domain is covered completely and nothing outside it is answered.

Positions are enumerated by class along each axis (outside, on the face, just inside, inside, ...), for every model of a
family of extents (including decimal extents that binary fractions cannot represent), block stackings and file orders.
The expected containment follows from the class, never from arithmetic; each block stores its own constants, so the
block that answered is visible."""
import itertools
from fractions import Fraction

import numpy as np

from gmg import *

CLS = ("out-", "lo", "in-", "mid", "in+", "hi", "out+")


def axis_positions(dim, step):
    """class -> coordinate for [0, dim]."""
    return {"out-": -max(1e-5 * step, 2e-6), "lo": 0.0, "in-": 1e-5 * step, "mid": dim * 0.37, "in+": dim - 1e-5 * step, "hi": dim, "out+": dim + max(1e-5 * step, 2e-6)}


def dec(res, n):
    """The decimal number a person would write for n*res."""
    return float(Fraction(str(res)) * n)


def family(ctx):
    res = [0.1, 0.7, 1.1, 333.3, 0.3, 2.5, 0.2, 100.0]
    if not ctx.quick:
        res += [0.6, 1.7, 12.3, 0.9, 0.15]
    ns = list(range(1, 13 if ctx.quick else 25))
    pairs = [(r, n) for r in res for n in ns]
    k = len(pairs)
    for i, (r, n) in enumerate(pairs):
        # a different pair per axis, every pair on every axis
        (ry, my), (rz, mz) = pairs[(i * 5 + 7) % k], pairs[(i * 11 + 29) % k]
        yield i, (r, n), (ry, my), (rz, mz)


def coords(ax_n, res, start):
    return [float(Fraction(str(start)) + Fraction(str(res)) * i) for i in range(ax_n)]


def build(ctx, i, px, py, pz):
    (rx, mx), (ry, my), (rz, mz) = px, py, pz
    nx, ny, nz = mx + 1, my + 1, mz + 1
    dims = [dec(rx, mx), dec(ry, my), dec(rz, mz)]
    variable = i % 3 == 1
    surf = i % 5
    # split the vertical cells over 1-3 stacked blocks
    nb = min(1 + i % 3, mz)
    cuts = [0] + [mz * (j + 1) // nb for j in range(nb)]
    order = list(itertools.permutations(range(nb)))[i % [1, 2, 6][nb - 1]]
    blocks = []
    for j in range(nb):
        c0, c1 = cuts[j], cuts[j + 1]
        ztop = -dec(rz, c0)
        n3 = c1 - c0 + 1
        data = np.empty((nx, ny, n3, 2))
        data[..., 0], data[..., 1] = 100.0 + j, 200.0 + j
        if variable:
            ax = [Axis(coords=coords(nx, rx, 5)), Axis(coords=coords(ny, ry, -2)), Axis(coords=[-dec(rz, c) for c in range(c0, c1 + 1)])]
        else:
            ax = [Axis(nx, rx), Axis(ny, ry), Axis(n3, rz)]
        blocks.append(BlockSpec("bcdefg"[order[j]], *ax, ztop, data))
    elev = (0.0, 0.0, 123.4, -dims[2] / 3.0, 14505.0)[surf]  # The last one in feet
    top = topo = None
    if surf >= 2:
        s = lambda v: SurfSpec(Axis(coords=coords(nx, rx, 5)), Axis(coords=coords(ny, ry, -2)), np.full((nx, ny), v)) if variable else \
            SurfSpec(Axis(nx, rx), Axis(ny, ry), np.full((nx, ny), v))
        top, topo = s(elev), s(elev - 0.25) if surf == 2 else None
    spec = ModelSpec(dims, blocks, top=top, topo=topo)
    return spec, spec.write(str(ctx.work / f"e{i}.h5")), elev, cuts, rz


def extents(ctx, drv):
    scripts, metas = [], []
    for i, px, py, pz in family(ctx):
        spec, path, elev, cuts, rz = build(ctx, i, px, py, pz)
        X, Y = axis_positions(spec.dims[0], px[0]), axis_positions(spec.dims[1], py[0])
        D = spec.dims[2]
        real = lambda d: elev - d * (D + elev) / D  # depth below the (flat) top in model space -> elevation
        step = 0.02 * rz
        Z = {"out+": (real(0) + step * max(1.0, (D + elev) / D), None), "lo": (real(0) if elev else 0.0, [0]), "in-": (real(step), [0])}
        for j in range(1, len(cuts) - 1):
            d = dec(rz, cuts[j])
            Z[f"above{j}"], Z[f"at{j}"], Z[f"below{j}"] = (real(d - step), [j - 1]), (real(d) if elev else -d, [j - 1, j]), (real(d + step), [j])
        Z["in+"], Z["hi"], Z["out-"] = (real(D - step), [len(cuts) - 2]), (-D, [len(cuts) - 2]), (-D - 0.02 * rz * (D + elev) / D, None)
        if step < 2e-3:  # keep "just outside" well beyond the vertical tolerance of the library
            Z["out+"], Z["out-"] = (real(0) + 2e-3 * max(1.0, (D + elev) / D), None), (-D - 2e-3 * max(1.0, (D + elev) / D), None)
        q = []
        for cx, cy in itertools.product(CLS, CLS):
            for cz, (z, blk) in Z.items():
                inside = cx[:3] != "out" and cy[:3] != "out" and blk is not None
                q.append((cx, cy, cz, X[cx], Y[cy], z, blk if inside else None))
        for wild in ((np.nan, 0.0, -0.1), (0.0, np.nan, -0.1), (np.inf, 0.0, -0.1), (0.0, -np.inf, -0.1), (1e300, 1e300, 0.0), (-1e12, 1e12, -1e12), (0.0, 0.0, np.nan), (0.0, 0.0, -np.inf), (0.0, 0.0, np.inf)):
            q.append(("wild", "wild", "wild", *wild, None))
        pre = [T("q.new", "q"), T("q.init", "q", spec.crs, *L([path]), *L(["one", "two"])),
               T("m.new", "m"), T("m.crs", "m", spec.crs), T("m.open", "m", path), T("m.load", "m"), T("m.init", "m")]
        s = list(pre)
        for *_, x, y, z, blk in q:
            s += [T("q.query", "q", x, y, z), T("m.contains", "m", x, y, z)]
            s += [T("m.query", "m", x, y, z)]
        scripts.append(s)
        metas.append((i, spec, path, q, pre))
    for (i, spec, path, q, pre), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        n = len(pre)
        desc = f"extent {spec.dims}, blocks {[(b.name, b.z_top, b.z.n) for b in spec.blocks]}, {'variable' if spec.blocks[0].x.coords else 'uniform'}, top {'none' if spec.top is None else spec.top.data[0, 0]}"
        for cx, cy, cz, x, y, z, blk in q:
            ctx.transitions += 1
            ctx.state((i, cx, cy, cz, x, y, z))
            a, c = r[n], r[n + 1]
            step, m = 3, r[n + 2]
            if blk is None:
                good = a.ok and a[1:] and a[1] == str(WARNING) and [float(v) for v in a[2:]] == [NODATA, NODATA] and c.ok and c[1] == "0" and m[0] == "EXC"
                want = "outside: warning and no-data, an exception from the model"
            else:
                want = f"inside: values of block {blk}"
                vals = [[100.0 + b, 200.0 + b] for b in blk]
                good = a.ok and a[1] == "0" and c.ok and c[1] == "1" and m.ok and any(all(close(float(g), w) for g, w in zip(a[2:], v)) for v in vals) \
                    and any(all(close(float(g), w) for g, w in zip(m[2:], v)) for v in vals)
            if not good:
                ctx.violation(f"extent {i} {cx},{cy},{cz}", f"{desc}: point ({cx},{cy},{cz}) = ({x!r},{y!r},{z!r}) is {want}; query {list(a)}, contains {list(c)}, model query {list(m)}",
                              {"script": pre + s[n:n + step], "files": [path]})
                break
            n += step


def stacks(ctx, drv):
    """All stackings of up to 3 (4) blocks with thickness from a small alphabet, all file orders, fine vertical lattice."""
    thick = [(1, 50.0), (2, 25.0), (3, 10.0)] if ctx.quick else [(1, 50.0), (2, 25.0), (3, 10.0), (1, 0.7), (3, 0.7)]
    nmax = 3
    scripts, metas = [], []
    cnt = 0
    for nb in range(1, nmax + 1):
        for th in itertools.product(thick, repeat=nb):
            for order in itertools.permutations(range(nb)):
                cnt += 1
                blocks, z = [], Fraction(0)
                for j, (c, r) in enumerate(th):
                    data = np.empty((3, 2, c + 1, 2))
                    data[..., 0], data[..., 1] = 100.0 + j, 200.0 + j
                    blocks.append(BlockSpec(f"block_{order[j]}", Axis(3, 1.0), Axis(2, 1.0), Axis(c + 1, r), float(z), data))
                    z -= Fraction(str(r)) * c
                spec = ModelSpec((2.0, 1.0, float(-z)), blocks)
                path = spec.write(str(ctx.work / f"st{cnt}.h5"), order=lambda b: sorted(b, key=lambda k: k.name, reverse=cnt % 2 == 0))
                ivs, zz = [], Fraction(0)
                for c, r in th:
                    ivs.append((zz, zz - Fraction(str(r)) * c))
                    zz = ivs[-1][1]
                zs = sorted({b + e for iv in ivs for b in iv for e in (-Fraction(1, 4), -Fraction(1, 100), 0, Fraction(1, 100), Fraction(1, 4))} | {(a + b) / 2 for a, b in ivs})
                pre = [T("q.new", "q"), T("q.init", "q", spec.crs, *L([path]), *L(["one", "two"]))]
                scripts.append(pre + [T("q.query", "q", 0.5, 1.0, float(v)) for v in zs])
                metas.append((th, order, path, zs, ivs))
    for (th, order, path, zs, ivs), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        for i, (z, a) in enumerate(zip(zs, r[2:])):
            ctx.transitions += 1
            ctx.state((th, order, z))
            blk = [j for j, (t, b) in enumerate(ivs) if b <= z <= t]
            if blk:
                good = a.ok and a[1] == "0" and any(all(close(float(v), w) for v, w in zip(a[2:], (100.0 + j, 200.0 + j))) for j in blk)
            else:
                good = a.ok and a[1] == str(WARNING) and [float(v) for v in a[2:]] == [NODATA, NODATA]
            if not good:
                ctx.violation(f"stack {th} {order} {z}", f"blocks {th} (cells, resolution) from the top, file order {order}: elevation {float(z)} belongs to block(s) {blk}, query gave {list(a)}",
                              {"script": s[:2] + [s[2 + i]], "files": [path]})
                break


def surfaces(ctx, drv):
    """Surfaces finer or coarser than the block; every point of the top and bottom faces over a lattice is inside."""
    rng = np.random.default_rng(ctx.seed)
    scripts, metas = [], []
    for i, (sx, sy) in enumerate(((2, 2), (4, 3), (9, 2), (3, 7), (13, 13))):
        for lo, hi in ((0, 1), (50, 300), (-20, 0), (-90, 90)):
            D = (100.0, 1234.5, 45000.0)[i % 3]
            data = rng.integers(lo * 8, hi * 8 + 1, size=(sx, sy)) / 8.0
            blk = BlockSpec("b", Axis(4, 2.0), Axis(3, 2.0), Axis(3, D / 2), 0.0, np.full((4, 3, 3, 2), 5.0))
            spec = ModelSpec((6.0, 4.0, D), [blk], top=SurfSpec(Axis(sx, 6.0 / (sx - 1)), Axis(sy, 4.0 / (sy - 1)), data))
            path = spec.write(str(ctx.work / f"sf{i}_{lo}.h5"))
            ref = Ref(spec)
            q = []
            for x, y in itertools.product(np.linspace(0, 6.0, 9), np.linspace(0, 4.0, 7)):
                e = ref.elev_local("top", x, y)
                for z, ins in ((e, 1), (e + 2e-3 * max(1.0, (D + e) / D), 0), (e - 1e-3, 1), (-D, 1), (-D + 1e-3, 1), (-D - 2e-3 * max(1.0, (D + e) / D), 0), ((e - D) / 2, 1)):
                    q.append((x, y, z, ins))
            pre = [T("q.new", "q"), T("q.init", "q", spec.crs, *L([path]), *L(["one", "two"]))]
            scripts.append(pre + [T("q.query", "q", *p[:3]) for p in q])
            metas.append((sx, sy, lo, hi, D, path, q))
    for (sx, sy, lo, hi, D, path, q), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        for i, ((x, y, z, ins), a) in enumerate(zip(q, r[2:])):
            ctx.transitions += 1
            ctx.state((sx, sy, lo, D, x, y, z))
            good = a.ok and (a[1] == "0" and all(close(float(v), 5.0) for v in a[2:]) if ins else a[1] == "1" and [float(v) for v in a[2:]] == [NODATA] * 2)
            if not good:
                ctx.violation(f"surface {sx}x{sy} {lo} {x} {y} {z}", f"top surface of {sx}x{sy} points in [{lo},{hi}], bottom {-D}: ({x},{y},{z}) is {'inside' if ins else 'outside'}, query gave {list(a)}",
                              {"script": s[:2] + [s[2 + i]], "files": [path]})
                break


def rotated(ctx, drv):
    """Faces, edges, corners and all nodes of rotated models with large coordinates."""
    step = 30 if ctx.quick else 5
    scripts, metas = [], []
    for az in [-90.0, 0.0, 22.5, 123.456, 359.9] + list(range(step, 360, step)):
        for org in ((0.0, 0.0), (500123.4, 4123456.7), (-3.0e5, 77.7)):
            for ext in ((90.0, 40.0), (31000.1, 12300.3)):
                blk = BlockSpec("b", Axis(4, ext[0] / 3), Axis(3, ext[1] / 2), Axis(2, 500.0), 0.0, np.full((4, 3, 2, 2), 5.0))
                spec = ModelSpec((ext[0], ext[1], 500.0), [blk], azimuth=az, origin=org)
                path = spec.write(str(ctx.work / f"rot{len(metas)}.h5"))
                ref = Ref(spec)
                q = []
                for (cx, x), (cy, y) in itertools.product(*[(("out", -1e-3), ("face", 0.0), ("in", e / 3), ("in", e / 2), ("face", e), ("out", e + 1e-3)) for e in ext]):
                    for z, iz in ((0.0, 1), (-250.0, 1), (-500.0, 1), (-500.01, 0)):
                        q.append((*ref.world(x, y), z, cx != "out" and cy != "out" and iz))
                pre = [T("q.new", "q"), T("q.init", "q", spec.crs, *L([path]), *L(["one", "two"]))]
                scripts.append(pre + [T("q.query", "q", *p[:3]) for p in q])
                metas.append((az, org, ext, path, q))
    for (az, org, ext, path, q), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        for i, ((x, y, z, ins), a) in enumerate(zip(q, r[2:])):
            ctx.transitions += 1
            ctx.state((az, org, ext, x, y, z))
            good = a.ok and (a[1] == "0" and all(close(float(v), 5.0) for v in a[2:]) if ins else a[1] == "1" and [float(v) for v in a[2:]] == [NODATA] * 2)
            if not good:
                ctx.violation(f"rot {az} {org} {ext} {i}", f"azimuth {az}, origin {org}, extent {ext}: ({x!r},{y!r},{z}) is {'inside (on a face)' if ins else 'outside'}, query gave {list(a)}",
                              {"script": s[:2] + [s[2 + i]], "files": [path]})
                break


def check(ctx):
    drv = ctx.driver()
    rotated(ctx, drv)
    extents(ctx, drv)
    stacks(ctx, drv)
    surfaces(ctx, drv)
    ctx.sample("extent 1.1 x 0.3 x 2.1 with resolutions 0.1, 0.1, 0.7: 7x7x(6..10) position classes")
    ctx.sample("three blocks in each of 6 file orders, elevations at and around every interface")
    ctx.notes.update(rule="states = distinct (model, position class); transitions = points judged", driver_commands=drv.commands)
    ctx.assumptions += ["points closer to a face than the documented vertical tolerance (1e-4) are exercised only on the face itself"]
