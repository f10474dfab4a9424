"""C13: uniform and variable-resolution descriptions of a grid are equivalent.

(a) indexing: every spacing pattern up to a bound, both directions, all positions of a lattice incl. outside;
(b) models: every uniform/variable mixture over the axes of block and surface, same nodes, compared at all points of a
    quarter-cell lattice in, on and outside the grid;
(c) refinement: every axis obtained by leaving out interior nodes of a fine uniform axis, with data such that the
    interpolants coincide, compared with the fine uniform grid."""
import itertools
from fractions import Fraction

import numpy as np

from gmg import *

GAPS = [Fraction(1, 2), Fraction(1), Fraction(3), Fraction("1000.1")]


def indexing(ctx, drv):
    nmax = 5 if ctx.quick else 6
    starts = [Fraction(0), Fraction(-7), Fraction("1234.5")]
    scripts, metas = [], []
    for n in range(2, nmax + 1):
        for gaps in itertools.product(GAPS, repeat=n - 1):
            for d in "AD":
                for st in starts:
                    sign = 1 if d == "A" else -1
                    xs = [st]
                    for g in gaps:
                        xs.append(xs[-1] + sign * g)
                    want = [(xs[0], Fraction(0))]
                    want = []
                    for i, g in enumerate(gaps):
                        for f in (Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4)):
                            want.append((abs(xs[i] - xs[0]) + f * g, i + f))
                    want.append((abs(xs[-1] - xs[0]), Fraction(n - 1)))
                    # the order in which the coordinates are handed over must not matter
                    given = xs if (n + len(scripts)) % 2 else xs[::-1]
                    s = [T("ix.v", "i", d, *[float(x) for x in given])] + [T("ix.get", "i", float(w[0])) for w in want]
                    # outside: below first, beyond last
                    s += [T("ix.get", "i", -0.25 * float(gaps[0])), T("ix.get", "i", float(abs(xs[-1] - xs[0])) + 0.25 * float(gaps[-1]))]
                    scripts.append(s)
                    metas.append((n, gaps, d, st, want))
    for (n, gaps, d, st, want), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        desc = f"coordinates from {float(st)} with gaps {[float(g) for g in gaps]} {'ascending' if d == 'A' else 'descending'}"
        for i, (x, ix) in enumerate(want):
            ctx.transitions += 1
            ctx.nstates += 1
            a = r[1 + i]
            if not (a.ok and close(a.f(1), float(ix), 1e-8, 1e-8)):
                ctx.violation(f"ix {desc} {float(x)}", f"{desc}: index of distance {float(x)} is {list(a)}, expected {float(ix)}", {"script": [s[0], s[1 + i]]})
                break
        lo, hi = r[-2], r[-1]
        if not (lo.ok and lo.f(1) < 0 and hi.ok and hi.f(1) > n - 1):
            ctx.violation(f"ixout {desc}", f"{desc}: index of a position outside the range is {list(lo)} / {list(hi)}", {"script": [s[0], s[-2], s[-1]]})


def long_lists(ctx, drv):
    """Long and strongly uneven coordinate lists, a position in every quarter of every interval."""
    shapes = {
        "fibonacci": lambda i, n: Fraction(1.6180339887) ** i, "doubling": lambda i, n: Fraction(2) ** min(i, 40), "halving": lambda i, n: Fraction(2) ** (40 - min(i, 40)), "linear growth": lambda i, n: Fraction(1 + i),
        "equal": lambda i, n: Fraction("0.1"), "alternating": lambda i, n: Fraction(1) if i % 2 else Fraction(5000), "three fine, one coarse": lambda i, n: Fraction(1, 8) if i % 4 else Fraction(300),
    }
    for k in (0, 1, 2, 3):
        shapes[f"one wide interval at {k}/3"] = lambda i, n, k=k: Fraction(10**6) if i == (n - 2) * k // 3 else Fraction(1)
        shapes[f"one narrow interval at {k}/3"] = lambda i, n, k=k: Fraction(1, 1000) if i == (n - 2) * k // 3 else Fraction(100)
    ns = (6, 7, 8, 9, 12, 16, 17, 31, 33) if ctx.quick else (*range(6, 70), 127, 128, 129, 500)
    scripts, metas = [], []
    huge = [(n, (k, shapes[k]), d) for n in (66, 130, 257, 1025) for k in ("equal", "alternating", "three fine, one coarse", "one wide interval at 2/3") for d in "AD"] if ctx.quick else [(n, (k, shapes[k]), d) for n in (1025, 5000) for k in ("equal", "alternating", "linear growth") for d in "AD"]
    for n, (name, f), d in itertools.chain(itertools.product(ns, shapes.items(), "AD"), huge):
        gaps = [f(i, n) for i in range(n - 1)]
        sign = 1 if d == "A" else -1
        xs = [Fraction(0) if "ing" in name else Fraction("-250.5")]
        for g in gaps:
            xs.append(xs[-1] + sign * Fraction(float(g)))
        given = [float(x) for x in xs]
        if any((b - a) * sign <= 0 for a, b in zip(given, given[1:])):
            continue
        ex = [Fraction(v) for v in given]
        want = [(abs(ex[i] - ex[0]) + q * abs(ex[i + 1] - ex[i]), i + q) for i in range(n - 1) for q in ((Fraction(1, 4), Fraction(3, 4)) if ctx.quick else (Fraction(0), Fraction(1, 4), Fraction(1, 2), Fraction(3, 4)))]
        scripts.append([T("ix.v", "i", d, *given)] + [T("ix.get", "i", float(w[0])) for w in want])
        metas.append((n, name, d, want, min(abs(b - a) for a, b in zip(ex, ex[1:])), max(map(abs, ex))))
    for (n, name, d, want, gap, big), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.traces += 1
        for i, (x, ix) in enumerate(want):
            ctx.transitions += 1
            ctx.nstates += 1
            a = r[1 + i]
            if not (a.ok and abs(a.f(1) - float(ix)) <= 1e-8 * n + 1e-14 * float(big / gap)):
                ctx.violation(f"ixlong {name} {n} {d}", f"{n} coordinates, {name}, {'ascending' if d == 'A' else 'descending'}: index of distance {float(x)} is {list(a)}, expected {float(ix)}", {"script": [s[0], s[1 + i]]})
                break


def axis(n, res, variable, start, down=False):
    if not variable:
        return Axis(n, float(res))
    return Axis(coords=[float(start + (-1 if down else 1) * res * i) for i in range(n)])


def mixtures(ctx, drv):
    """All 2^5 mixtures (block x, y, z, surface x, y) for several grids; compared with the all-uniform one."""
    grids = [((3, 2, 3), ("100", "70", "50"), (2, 3)), ((2, 3, 2), ("33.3", "0.7", "12.5"), (3, 2)), ((4, 2, 2), ("0.1", "1000", "0.3"), (4, 2)),
             ((2, 2, 5), ("1", "1", "1"), (2, 2))]
    if not ctx.quick:
        grids += [((5, 4, 3), ("333.3", "0.3", "2.7"), (3, 7)), ((2, 7, 4), ("17", "19", "23"), (5, 2)), ((7, 2, 3), ("0.7", "0.6", "1.1"), (2, 2))]
    starts = [(Fraction(0), Fraction(0)), (Fraction(50000), Fraction(-333))]
    for ig, ((nx, ny, nz), res, (sx, sy)) in enumerate(grids):
        rx, ry, rz = [Fraction(r) for r in res]
        rng = np.random.default_rng(ig)
        data = rng.integers(1, 100, size=(nx, ny, nz, 2)).astype(float)
        low = rng.integers(1, 100, size=(nx, ny, 2, 2)).astype(float)
        low[:, :, 0] = data[:, :, -1]  # continuous across the interface: rounding may pick either block there
        if ig % 2:
            data[0, -1, 0, 0] = NODATA
        dims = (float(rx * (nx - 1)), float(ry * (ny - 1)), float(rz * (nz - 1) + rz * 2))
        e = rng.integers(0, 5, size=(sx, sy, 1)) * float(rz) * 0.1
        et = e - float(rz) * 0.05
        # probe points in local coordinates and depth fraction
        # next to no-data, stay off the node planes, where rounding decides
        h = 0.5 if ig % 2 else 0.0
        X = sorted({(i + h) * float(rx) / 4 for i in range(4 * (nx - 1) + (h == 0))} | ({dims[0]} if not h else set()) | {-0.3 * float(rx), dims[0] + 0.3 * float(rx), -5e4, dims[0] + 5e4})
        Y = sorted({(i + h) * float(ry) / 4 for i in range(0, 4 * (ny - 1) + (h == 0), 1 if ny < 4 else 3)} | ({dims[1]} if not h else set()) | {-0.3 * float(ry), dims[1] + 0.3 * float(ry)})
        Z = ([0.0, -dims[2]] if not h else []) + [-(i - h) * float(rz) / 4 for i in range(1, 4 * (nz + 1))] + [-dims[2] - float(rz), float(rz)]
        base = None
        for mix in itertools.product((0, 1), repeat=5):
            for ist, (stx, sty) in enumerate(starts):
                if not any(mix) and ist:
                    continue
                b = BlockSpec("upper", axis(nx, rx, mix[0], stx), axis(ny, ry, mix[1], sty), axis(nz, rz, mix[2], Fraction(0), True), 0.0, data)
                zt = rz * (nz - 1)
                b2 = BlockSpec("lower", axis(nx, rx, mix[1], sty), axis(ny, ry, mix[2], stx), axis(2, rz * 2, mix[0], -zt, True), float(-zt), low)
                rsx, rsy = rx * (nx - 1) / (sx - 1), ry * (ny - 1) / (sy - 1)
                top = SurfSpec(axis(sx, rsx, mix[3], stx), axis(sy, rsy, mix[4], sty), e)
                topo = SurfSpec(axis(sx, rsx, mix[4], sty), axis(sy, rsy, mix[3], Fraction(1)), et)
                spec = ModelSpec(dims, [b, b2], top=top, topo=topo, origin=(1000.0, 2000.0))
                path = spec.write(str(ctx.work / f"g{ig}_{''.join(map(str, mix))}_{ist}.h5"))
                ref = Ref(spec)
                s = [T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L([path]), *L(["one", "two"])), T("m.new", "m"), T("m.crs", "m", "EPSG:3311"), T("m.open", "m", path),
                     T("m.load", "m"), T("m.init", "m")]
                k = len(s)
                for x, y in itertools.product(X, Y):
                    wx, wy = ref.world(x, y)
                    s += [T("q.top", "q", wx, wy), T("q.topo", "q", wx, wy)]
                    xe, ye = min(max(x, 0), dims[0]), min(max(y, 0), dims[1])
                    el = ref.elev_local("top", xe, ye)
                    for z in Z:
                        zz = el + z * (dims[2] + el) / dims[2]
                        s += [T("q.query", "q", wx, wy, zz), T("m.contains", "m", wx, wy, zz)]
                r = drv.one(s) if base is None else None
                if base is None:
                    base = r[k:]
                    if not (r[1].ok and r[6].ok and all(a.ok for a in base)):
                        ctx.violation(f"mix {ig} uniform", f"uniform model fails: {[list(a) for a in r if not a.ok][:2]}", {"script": s, "files": [path]})
                        break
                    pend = []
                else:
                    pend.append((mix, ist, path, s))
        for (mix, ist, path, s), r in zip(pend, drv.run([p[3] for p in pend])):
            ctx.traces += 1
            desc = f"grid {ig} {(nx, ny, nz)} res {res}, variable (block x,y,z, surface x,y) {mix}, coordinates start {starts[ist]}"
            for i, (a, b) in enumerate(zip(r[7:], base)):
                ctx.transitions += 1
                ctx.nstates += 1
                if not (a[0] == b[0] and len(a) == len(b) and all(close(float(p), float(q), 1e-7, 1e-7) for p, q in zip(a[1:], b[1:]))):
                    ctx.violation(f"mix {desc} {i}", f"{desc}: {s[7 + i]} answers {list(a)}, the uniform model {list(b)}", {"script": s[:7] + [s[7 + i]], "files": [path]})
                    break


def refinement(ctx, drv):
    """Coarse variable axes = subsets of the nodes of a fine uniform axis."""
    def subsets(n):
        mid = range(1, n - 1)
        return [tuple([0] + [i for i in mid if i in c] + [n - 1]) for k in range(n - 1) for c in itertools.combinations(mid, k)]
    nf = (5, 4, 5) if ctx.quick else (6, 5, 6)
    res = (100.0, 0.3, 12.5)
    rng = np.random.default_rng(3)
    dims = tuple(r * (n - 1) for r, n in zip(res, nf))
    lat = [[i * r / 2 for i in range(2 * (n - 1) + 1)] for r, n in zip(res, nf)]
    cases = []
    for combo in itertools.product(*[subsets(n) for n in nf]):
        if ctx.quick and sum(len(c) for c in combo) % 2 and combo[1] != combo[1][:2]:
            continue
        coarse = rng.integers(1, 64, size=tuple(len(c) for c in combo) + (1,)).astype(float)
        fine = coarse
        for ax, c in enumerate(combo):
            fine = np.apply_along_axis(lambda v: np.interp(np.arange(nf[ax]), c, v), ax, fine)
        cases.append((combo, coarse, fine))
    path = str(ctx.work / "refine.h5")
    import h5py
    with h5py.File(path, "w") as h5:
        for i, (combo, coarse, fine) in enumerate(cases):
            for name, dat, var in ((f"c{i}", coarse, True), (f"f{i}", fine, False)):
                d = h5.create_dataset("blocks/" + name, data=dat)
                d.attrs["z_top"] = 0.0
                for ax, a in enumerate("xyz"):
                    if var:
                        d.attrs[f"{a}_coordinates"] = np.array([(-1 if a == "z" else 1) * j * res[ax] for j in combo[ax]])
                    else:
                        d.attrs[f"{a}_resolution"] = res[ax]
    scripts = []
    pts = list(itertools.product(*lat))
    if ctx.quick:
        pts = pts[::2] + [pts[-1]]
    for i in range(len(cases)):
        s = [T("h.new", "h"), T("h.open", "h", path)]
        for n in (f"c{i}", f"f{i}"):
            s += [T("b.new", n, n), T("b.load", n, "h"), T("b.slab", n, 2 + i % 2, 2, 2 + i % 3), T("b.open", n, "h")]
        for x, y, z in pts:
            s += [T("b.query", f"c{i}", x, y, -z), T("b.query", f"f{i}", x, y, -z)]
        scripts.append(s)
    for (combo, coarse, fine), s, r in zip(cases, scripts, drv.run(scripts)):
        ctx.traces += 1
        for j, p in enumerate(pts):
            a, b = r[10 + 2 * j], r[11 + 2 * j]
            ctx.transitions += 1
            ctx.nstates += 1
            if not (a.ok and b.ok and close(a.f(1), b.f(1), 1e-8, 1e-8)):
                ctx.violation(f"refine {combo} {p}", f"nodes {combo} of {nf}: at {p} the variable-resolution block answers {list(a)}, the refined uniform block {list(b)}",
                              {"script": s[:10] + [s[10 + 2 * j], s[11 + 2 * j]], "files": [path]})
                break


def stacked(ctx, drv):
    """Whole models of two blocks and two surfaces whose axes list subsets of the nodes of a fine uniform model."""
    def subsets(n):
        return [tuple([0] + list(c) + [n - 1]) for k in range(n - 1) for c in itertools.combinations(range(1, n - 1), k)]
    rng = np.random.default_rng(11)
    nx, ny, nu, nl = 4, 3, 5, 4           # nodes of the fine axes: x, y, z of the upper and of the lower block
    rx, ry, rz = 50.0, 30.0, 20.0
    dims = (rx * (nx - 1), ry * (ny - 1), rz * (nu + nl - 2))
    refine = lambda v, ax, c, n: np.apply_along_axis(lambda q: np.interp(np.arange(n), c, q), ax, v)
    cases = [(cu, cl, sx, sy) for cu in subsets(nu) for cl in subsets(nl) for sx in subsets(nx) for sy in subsets(ny)]
    if ctx.quick:
        cases = [c for i, c in enumerate(cases) if i % 3 == 0 or (c[2] == (0, nx - 1) and c[3] == (0, ny - 1))]
    scripts, metas = [], []
    # below and above the positions of all nodes and half-way, outside included
    Z = [-rz * (i + d) / 2 for i in range(2 * (nu + nl - 2) + 1) for d in (-0.02, 0.02)] + [-dims[2] - rz, rz]
    P = [(x, y) for x in (0.0, 0.3 * rx, 1.5 * rx, dims[0]) for y in (0.0, 0.7 * ry, dims[1])] + [(-1.0, 5.0), (dims[0] + 1.0, 5.0)]
    for i, (cu, cl, sx, sy) in enumerate(cases):
        u = rng.integers(1, 64, size=(len(sx), len(sy), len(cu), 1)).astype(float)
        l = rng.integers(1, 64, size=(len(sx), len(sy), len(cl), 1)).astype(float)
        e = rng.integers(0, 16, size=(len(sx), len(sy), 1)).astype(float)
        models = []
        for fine in (0, 1):
            if fine:
                f = [refine(refine(v, 0, sx, nx), 1, sy, ny) for v in (u, l, e)]
                xs, ys, zu, zl = Axis(nx, rx), Axis(ny, ry), Axis(nu, rz), Axis(nl, rz)
                du, dl, de = refine(f[0], 2, cu, nu), refine(f[1], 2, cl, nl), f[2]
            else:
                st = (0.0, 7.0, -300.0)[i % 3]
                xs, ys = Axis(coords=[st + rx * k for k in sx]), Axis(coords=[-st + ry * k for k in sy])
                zu, zl = Axis(coords=[-rz * k for k in cu]), Axis(coords=[-rz * (nu - 1 + k) for k in cl])
                du, dl, de = u, l, e
            spec = ModelSpec(dims, [BlockSpec("b", xs, ys, zu, 0.0, du), BlockSpec("a", xs, ys, zl, -rz * (nu - 1), dl)], values=["one"], units=["m"], top=SurfSpec(xs, ys, de), topo=SurfSpec(xs, ys, de - 3.0))
            models.append(spec.write(str(ctx.work / f"st{i}_{fine}.h5")))
        ref = Ref(spec)
        q = []
        for x, y in P:
            el = ref.elev_local("top", min(max(x, 0), dims[0]), min(max(y, 0), dims[1]))
            q += [T("q.top", "q", *ref.world(x, y)), T("q.topo", "q", *ref.world(x, y))] + [T("q.query", "q", *ref.world(x, y), el + z * (dims[2] + el) / dims[2]) for z in Z]
        for m in models:
            scripts.append([T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L([m]), *L(["one"]))] + q)
        metas.append(((cu, cl, sx, sy), models))
    res = drv.run(scripts)
    for k, (case, models) in enumerate(metas):
        ctx.traces += 1
        for c, a, b in zip(scripts[2 * k], res[2 * k], res[2 * k + 1]):
            ctx.transitions += 1
            ctx.nstates += 1
            if not (a[0] == b[0] == "OK" and len(a) == len(b) and all(close(float(p), float(q), 1e-7, 1e-7) for p, q in zip(a[1:], b[1:]))):
                ctx.violation(f"stacked {case} {c[:40]}", f"nodes {case} (z of upper and lower block of {nu} and {nl}, x, y): {c} answers {list(a)}, the refined uniform model {list(b)}", {"script": scripts[2 * k][:2] + [c], "files": models})
                break


def check(ctx):
    drv = ctx.driver()
    indexing(ctx, drv)
    long_lists(ctx, drv)
    mixtures(ctx, drv)
    refinement(ctx, drv)
    stacked(ctx, drv)
    ctx.sample("axis nodes (0, 1, 4) of 5 along x with all subsets along y and z, against the refined uniform grid")
    ctx.notes.update(rule="states = (configuration, position) judged", driver_commands=drv.commands)
    ctx.assumptions += ["answers of equivalent descriptions are compared to 1e-7 relative"]
