"""C02: values are the multilinear interpolation of the surrounding grid nodes.

Every grid shape of a family, every position of a quarter-cell lattice, every placement of no-data on the corners of a
cell (2^8 placements, carried by 256 value columns of one dataset) is executed on the real code, through raw windows,
block and surface objects and whole models.  Oracle: interpolation in this file's reference (gmg.interp)."""
import itertools

import h5py
import numpy as np

from gmg import *


def lat(nodes, k):
    out = []
    for a, b in zip(nodes, nodes[1:]):
        out += [a + (b - a) * i / k for i in range(k)]
    return out + [nodes[-1]]


def compare(ctx, a, got, want, amb, key, what, script, files, rel=1e-9, abs_=1e-7):
    ctx.transitions += 1
    if a.ok and len(got) == len(want):
        bad = [i for i in range(len(want)) if not amb[i] and not close(float(got[i]), want[i], rel, abs_)]
        if not bad:
            return True
        i = bad[0]
        ctx.violation(key, f"{what}: value {i} is {got[i]}, the stored grid interpolates to {want[i]!r}", {"script": script, "files": files})
    else:
        ctx.violation(key, f"{what}: {list(a)[:4]}", {"script": script, "files": files})
    return False


def nodata_cell(ctx, drv, rng):
    """All 256 placements of no-data on one cell, all lattice positions, several cells of the grid."""
    for shape in ((2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 3), (3, 3, 3)):
        for cell in itertools.product(*[range(n - 1) for n in shape]):
            data = rng.integers(1, 1 << 16, size=shape + (256,)).astype(float)
            for v in range(256):
                for bit, c in enumerate(itertools.product((0, 1), repeat=3)):
                    if v >> bit & 1:
                        # several encodings of the no-data value within its documented tolerance
                        data[cell[0] + c[0], cell[1] + c[1], cell[2] + c[2], v] = NODATA
            spec = ModelSpec([n - 1.0 for n in shape], [BlockSpec("b", Axis(shape[0], 1.0), Axis(shape[1], 1.0), Axis(shape[2], 1.0), 0.0, data)],
                             values=[f"v{i}" for i in range(256)], units=["m"] * 256)
            path = spec.write(str(ctx.work / f"nd{''.join(map(str, shape + cell))}.h5"), dtype="f4")
            k = 4 if shape == (2, 2, 2) else 2
            pos = list(itertools.product(*[lat([float(i) for i in range(n)], k) for n in shape]))
            pre = [T("h.new", "h"), T("h.open", "h", path), T("b.new", "b", "b"), T("b.load", "b", "h"), T("b.open", "b", "h")]
            scripts, ref = [], []
            for p in pos:
                ref.append(interp(spec_axes(spec), data, p))
            for i in range(0, len(pos), 16):
                scripts.append(pre + [T("b.query", "b", p[0], p[1], -p[2]) for p in pos[i:i + 16]])
            res = [a for r in drv.run(scripts) for a in r[5:5 + 16]]
            for p, (w, m), a in zip(pos, ref, res):
                ctx.state((shape, cell, p))
                ctx.nstates += 255
                if not compare(ctx, a, a[2:], w, m, f"nodata {shape} {cell} {p}", f"no-data placements, cell {cell} of a {shape} grid, position {p}",
                               pre + [T("b.query", "b", p[0], p[1], -p[2])], [path]):
                    return
            ctx.traces += len(scripts)


def spec_axes(spec):
    b = spec.blocks[0]
    return [b.x, b.y, b.z]


def nodata_pairs(ctx, drv, rng):
    """3x3x2 grid: no-data at every one and every two nodes; also near-NODATA encodings and large negative values."""
    shape = (3, 3, 2)
    nodes = list(itertools.product(*[range(n) for n in shape]))
    sets = [(n,) for n in nodes] + list(itertools.combinations(nodes, 2))
    data = rng.integers(1, 1 << 16, size=shape + (len(sets) + 4,)).astype(float)
    for v, s in enumerate(sets):
        for n in s:
            data[n + (v,)] = NODATA
    # values that are not no-data although large or negative
    for j, val in enumerate((-1.0e19, -1.2e20, 1.0e20, -9999.0)):
        data[1, 1, 0, len(sets) + j] = val
    nv = data.shape[3]
    spec = ModelSpec([n - 1.0 for n in shape], [BlockSpec("b", *[Axis(n, 1.0) for n in shape], 0.0, data)], values=[f"v{i}" for i in range(nv)], units=["m"] * nv)
    path = spec.write(str(ctx.work / "pairs.h5"))
    pos = list(itertools.product(*[lat([float(i) for i in range(n)], 2) for n in shape]))
    pre = [T("h.new", "h"), T("h.open", "h", path), T("b.new", "b", "b"), T("b.load", "b", "h"), T("b.slab", "b", 2, 2, 2), T("b.open", "b", "h")]
    scripts = [pre + [T("b.query", "b", p[0], p[1], -p[2])] for p in pos]
    for p, s, r in zip(pos, scripts, drv.run(scripts)):
        w, m = interp(spec_axes(spec), data, p)
        ctx.state(("pairs", p))
        ctx.nstates += nv - 1
        a = r[len(pre)]
        if not compare(ctx, a, a[2:], w, m, f"nodata pairs {p}", f"no-data at one or two nodes, position {p}", s, [path]):
            return
    ctx.traces += len(scripts)


def shapes(ctx, drv, rng):
    """All grid shapes up to 4x4x4 (5x5x5) through blocks, all 2-D shapes through surfaces, uniform spacings of several sizes."""
    N = 3 if ctx.quick else 4
    spacings = (1.0, 0.5, 250.0, 0.1, 1000.0 / 3.0)
    scripts, checks = [], []
    files = []
    for i, shape in enumerate(itertools.product(range(2, N + 2), repeat=3)):
        dx = [spacings[(i + j * 2) % len(spacings)] for j in range(3)]
        nv = 1 + i % 3
        data = rng.permutation(int(np.prod(shape)) * nv).reshape(shape + (nv,)) * 16.0 - 3000.0
        sdata = rng.permutation(shape[0] * shape[1]).reshape(shape[:2]) * 4.0 - 40.0
        axes = [Axis(n, d) for n, d in zip(shape, dx)]
        top = (0.0, -17.5, -1000.0)[i % 3]
        blk = BlockSpec("b", *axes, top, data)
        spec = ModelSpec([(n - 1) * d for n, d in zip(shape, dx)], [blk], top=SurfSpec(axes[0], axes[1], sdata),
                         values=[f"v{j}" for j in range(nv)], units=["m"] * nv)
        path = spec.write(str(ctx.work / f"s{i}.h5"), dtype=("f8", "f4", ">f8")[i % 3], chunks=(2, 2, 2, 1) if i % 2 else None)
        pre = [T("h.new", "h"), T("h.open", "h", path), T("b.new", "b", "b"), T("b.load", "b", "h"), T("b.open", "b", "h"),
               T("s.new", "s", "top_surface"), T("s.load", "s", "h"), T("s.open", "s", "h")]
        # stay clear of the far faces when the spacing is not exact in binary: that is C03's subject
        def inside(nodes):
            return [x for x in lat(nodes, 4) if x <= nodes[-1]]
        ps = list(itertools.product(*[inside(a.nodes()) for a in axes]))
        if ctx.quick:
            ps = ps[::3] + [p for p in itertools.product(*[a.nodes() for a in axes])]
        qs, cs = [], []
        for p in ps:
            if any(q > a.nodes()[-1] * (1 - 1e-14) and d not in (1.0, 0.5, 250.0) for q, a, d in zip(p, axes, dx)):
                continue
            z = top - p[2]
            if top - z != p[2] or z > 0:
                continue
            qs.append(T("b.query", "b", p[0], p[1], z))
            cs.append((interp(axes, data, p), f"block {shape} spacing {dx} position {p}", 2))
        for p in itertools.product(inside(axes[0].nodes()), inside(axes[1].nodes())):
            if any(q > a.nodes()[-1] * (1 - 1e-14) and d not in (1.0, 0.5, 250.0) for q, a, d in zip(p, axes, dx)):
                continue
            qs.append(T("s.query", "s", *p))
            cs.append((interp(axes[:2], sdata.reshape(shape[:2] + (1,)), p, nodata_rule=False), f"surface {shape[:2]} spacing {dx} position {p}", 1))
        scripts.append(pre + qs)
        checks.append((cs, path))
    for s, (cs, path), r in zip(scripts, checks, drv.run(scripts)):
        ctx.traces += 1
        for i, (((w, m), what, off), a) in enumerate(zip(cs, r[8:])):
            ctx.state(what)
            if not compare(ctx, a, a[off:], w, m, what, what, s[:8] + [s[8 + i]], [path]):
                break


def near_planes(ctx, drv, rng):
    """Positions at all (quick: a third of the) combinations of small distances from grid planes, through blocks and surfaces."""
    eps = [0.0, 0.5, 1e-1, 1e-2, 1e-3, 1e-4, 1e-6, 1e-8]
    for n, (shape, dx) in enumerate((((3, 3, 3), (1.0, 1.0, 1.0)), ((4, 2, 3), (512.0, 0.25, 16.0)))):
        data = rng.permutation(int(np.prod(shape)) * 2).reshape(shape + (2,)) * 1e5 - 4e5
        sdata = rng.permutation(shape[0] * shape[1]).reshape(shape[:2]) * 1e3
        axes = [Axis(k, d) for k, d in zip(shape, dx)]
        spec = ModelSpec([(k - 1) * d for k, d in zip(shape, dx)], [BlockSpec("b", *axes, 0.0, data)], top=SurfSpec(axes[0], axes[1], sdata))
        path = spec.write(str(ctx.work / f"planes{n}.h5"))
        along = []
        for ax in axes:
            along.append(sorted({min(max(i + s * e, 0.0), ax.n - 1.0) * ax.nodes()[1] for i in range(ax.n) for e in eps for s in (-1, 1)}))
        pre = [T("h.new", "h"), T("h.open", "h", path), T("b.new", "b", "b"), T("b.load", "b", "h"), T("b.open", "b", "h"), T("s.new", "s", "top_surface"), T("s.load", "s", "h"), T("s.open", "s", "h")]
        ps = list(itertools.product(*along))
        todo = [("b", p) for p in (ps[::5] if ctx.quick else ps)] + [("s", p) for p in itertools.product(*along[:2])]
        chunks = [todo[i:i + 300] for i in range(0, len(todo), 300)]
        scripts = [pre + [T("b.query", "b", p[0], p[1], -p[2]) if o == "b" else T("s.query", "s", *p) for o, p in c] for c in chunks]
        for c, s, r in zip(chunks, scripts, drv.run(scripts)):
            ctx.traces += 1
            for i, ((o, p), a) in enumerate(zip(c, r[8:])):
                ctx.state(("planes", shape, o, p))
                w, m = interp(axes, data, p) if o == "b" else interp(axes[:2], sdata.reshape(shape[:2] + (1,)), p, nodata_rule=False)
                what = f"{'block' if o == 'b' else 'surface'} {shape} spacing {dx} position {p}"
                if not compare(ctx, a, a[2:] if o == "b" else a[1:], w, m, what, what, s[:8] + [s[8 + i]], [path], 1e-9, 1e-3):
                    break


def nearest(ctx, drv, rng):
    path = str(ctx.work / "near.h5")
    with h5py.File(path, "w") as h5:
        ds = {}
        for shape in [(2, 2), (3, 4), (5, 2), (2, 2, 2), (3, 2, 4), (4, 3, 2)]:
            nv = 3
            d = rng.permutation(int(np.prod(shape)) * nv).reshape(shape + (nv,)) + 1.0
            d.reshape(-1, nv)[::3, 1] = NODATA
            ds[shape] = d
            h5.create_dataset("x".join(map(str, shape)), data=d)
    scripts, meta = [], []
    for shape, d in ds.items():
        for win in {shape, tuple(max(2, n - 1) for n in shape), (2,) * len(shape)}:
            pos = list(itertools.product(*[lat([float(i) for i in range(n)], 4) for n in shape]))
            scripts.append([T("h.new", "h"), T("h.open", "h", path), T("hs.new", "w", "h", "x".join(map(str, shape)), *win, 3)]
                           + [T("hs.nearest", "w", 3, *p) for p in pos])
            meta.append((shape, d, win, pos))
    for (shape, d, win, pos), s, r in zip(meta, scripts, drv.run(scripts)):
        ctx.traces += 1
        for i, (p, a) in enumerate(zip(pos, r[3:])):
            ctx.transitions += 1
            ctx.state(("near", shape, win, p))
            cand = [d[t] for t in itertools.product(*[{int(np.floor(c + 0.5)), int(np.ceil(c - 0.5))} for c in p])]
            if not (a.ok and any(all(close(float(x), y) for x, y in zip(a[2:], c)) for c in cand)):
                ctx.violation(f"nearest {shape} {p}", f"nearest node of {p} in a {shape} grid with window {win} gave {list(a)}, expected one of {[list(c) for c in cand]}",
                              {"script": s[:3] + [s[3 + i]], "files": [path]})
                break


def models(ctx, drv, rng):
    """Through whole models: two stacked blocks of different resolution, rotated and translated."""
    for az, origin, crs in ((0.0, (0.0, 0.0), "EPSG:3311"), (30.0, (1000.0, -2500.0), "EPSG:26910"), (250.0, (-4e5, 1e5), "EPSG:3311")):
        dims = (8.0, 6.0, 9.0)
        d0 = rng.integers(1, 1 << 14, size=(5, 4, 3, 2)).astype(float)
        d1 = rng.integers(1, 1 << 14, size=(3, 3, 2, 2)).astype(float)
        d0[2, 1, 1, 0] = NODATA
        d1[1, 1, 0, 1] = NODATA
        spec = ModelSpec(dims, [BlockSpec("upper", Axis(5, 2.0), Axis(4, 2.0), Axis(3, 2.0), 0.0, d0), BlockSpec("lower", Axis(3, 4.0), Axis(3, 3.0), Axis(2, 5.0), -4.0, d1)],
                         origin=origin, azimuth=az, crs=crs)
        ref = Ref(spec)
        path = spec.write(str(ctx.work / f"m{int(az)}.h5"))
        h = 0.5 if not ctx.quick else 1.0
        ps = list(itertools.product(np.arange(h / 4, 8.0, h), np.arange(h / 4, 6.0, h), -np.arange(h / 4, 9.0, h)))
        pre = [T("q.new", "q"), T("q.init", "q", crs, *L([path]), *L(["one", "two"]))]
        chunks = [ps[i:i + 400] for i in range(0, len(ps), 400)]
        scripts = [pre + [T("q.query", "q", *ref.world(x, y), z) for x, y, z in c] for c in chunks]
        for c, s, r in zip(chunks, scripts, drv.run(scripts)):
            ctx.traces += 1
            for i, (p, a) in enumerate(zip(c, r[2:])):
                ctx.state(("m", az, p))
                w, m = ref.query_local(*p, tol=1e-6)[0]
                if not (a.ok and a[1] == "0"):
                    ctx.violation(f"model {az} {p}", f"query inside the model at local {p} gave {list(a)}", {"script": s[:2] + [s[2 + i]], "files": [path]})
                    break
                if not compare(ctx, a, a[2:], w, m, f"model {az} {p}", f"model with azimuth {az}, local point {p}", s[:2] + [s[2 + i]], [path], 1e-7, 1e-4):
                    break


def check(ctx):
    drv = ctx.driver()
    rng = np.random.default_rng(ctx.seed)
    nodata_cell(ctx, drv, rng)
    nodata_pairs(ctx, drv, rng)
    shapes(ctx, drv, rng)
    near_planes(ctx, drv, rng)
    nearest(ctx, drv, rng)
    models(ctx, drv, rng)
    ctx.sample("one cell, all 256 no-data placements, 125 positions per cell")
    ctx.sample("all grids 2..4 (2..5 thorough) nodes per axis, quarter-cell lattice, five spacings")
    ctx.notes.update(rule="states = distinct (grid, no-data placement, position); transitions = point evaluations compared with the reference", driver_commands=drv.commands)
    ctx.assumptions += ["positions whose fractional index is within 1e-9 of a node are compared only where no-data cannot decide the answer"]
