"""C01: answers do not depend on query history.

Every history of k consecutive queries over a position lattice is executed on the real code: the queries are laid
out as a de Bruijn sequence, in which every k-tuple of positions occurs consecutively, and from fresh objects.
Oracle: the interpolation of the stored grid computed here, and the answer of a fresh object."""
import itertools

import h5py
import numpy as np

from gmg import *


def debruijn(k, n):
    """Cyclic sequence over range(k) in which every n-tuple occurs once."""
    if k == 1:
        return [0]
    if n == 1:
        return list(range(k))
    if n == 2:  # Eulerian circuit of the complete digraph with loops
        out = []
        for i in range(k):
            out.append(i)
            for j in range(i + 1, k):
                out.extend((i, j))
        return out
    a, seq = [0] * k * n, []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    import sys
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq


def lattice(n, step):
    return [i * step for i in range(int((n - 1) / step) + 1)]


def reference(data, p):
    nd = len(p)
    return interp([Axis(n=n, res=1.0) for n in data.shape[:nd]], data, p, nodata_rule=(nd == 3))


def hyperslabs(ctx, drv, rng):
    """Raw windows: all (dataset, window) shapes in the family; all 2-histories; 3-histories on a line; fresh pairs."""
    path = str(ctx.work / "slab.h5")
    cases = []
    shapes2 = [(2, 2), (3, 2), (2, 5), (4, 4), (5, 3), (6, 2), (1, 4), (7, 2)]
    shapes3 = [(2, 2, 2), (3, 2, 2), (2, 3, 2), (2, 2, 4), (5, 2, 2), (2, 5, 2), (3, 3, 3), (2, 1, 3), (4, 1, 1)]
    if not ctx.quick:
        shapes2 += [(5, 5), (6, 4), (3, 7), (9, 2), (1, 1), (2, 9), (6, 6)]
        shapes3 += [(4, 3, 2), (3, 4, 3), (6, 2, 2), (2, 2, 6), (4, 4, 2), (2, 6, 2), (1, 3, 2), (3, 3, 4)]
    with h5py.File(path, "w") as h5:
        for shape in shapes2 + shapes3:
            nv = 1 if len(shape) == 2 else 2
            data = rng.permutation(int(np.prod(shape)) * nv).reshape(shape + (nv,)).astype(float) * 8.0 + 8.0
            if len(shape) == 3 and shape != (2, 2, 2):  # one no-data node
                data.reshape(-1, nv)[data.size // nv // 2, 0] = NODATA
            h5.create_dataset("d" + "x".join(map(str, shape)), data=data)
            cases.append((shape, nv, data))
    jobs = []
    for shape, nv, data in cases:
        nd = len(shape)
        name = "d" + "x".join(map(str, shape))
        pos = list(itertools.product(*[lattice(n, 0.5) for n in shape]))
        slabs = list(itertools.product(*[sorted({2, 3, max(2, n - 1), n}) if n > 1 else (1,) for n in shape]))
        slabs = sorted({tuple(min(s, n) for s, n in zip(sl, shape)) for sl in slabs})
        for sl in slabs:
            for order in (2, 3):
                if order == 3 and len(pos) > (13 if ctx.quick else 27):
                    continue
                seq = debruijn(len(pos), order)
                seq = seq + seq[:order - 1]
                # split into pieces that overlap by order-1, so that every tuple is in one piece
                piece = 4000
                for s in range(0, len(seq), piece):
                    part = [pos[i] for i in seq[s:s + piece + order - 1]]
                    jobs.append((shape, nv, data, name, sl, part, [0] * len(part)))
            # from a fresh window, pairs; and with nearest-node requests mixed in
            if len(pos) <= (30 if ctx.quick else 90):
                for p in pos:
                    for q in pos:
                        jobs.append((shape, nv, data, name, sl, [p, q, p], [0, 0, 0]))
            part = [pos[i] for i in debruijn(len(pos), 2)][:3000]
            kinds = [i % 3 == 1 for i in range(len(part))]
            jobs.append((shape, nv, data, name, sl, part, kinds))
    memo = {}
    scripts = []
    for shape, nv, data, name, sl, part, kinds in jobs:
        s = [T("h.new", "h"), T("h.open", "h", path), T("hs.new", "w", "h", name, *sl, nv)]
        s += [T("hs.nearest" if k else "hs.interp", "w", nv, *p) for p, k in zip(part, kinds)]
        scripts.append(s)
    res = drv.run(scripts)
    for (shape, nv, data, name, sl, part, kinds), s, r in zip(jobs, scripts, res):
        for i, (p, k) in enumerate(zip(part, kinds)):
            a = r[3 + i]
            ctx.transitions += 1
            ctx.state((name, sl, p))
            if a[0] == "SKIP":
                break
            if k:
                idx = [(int(np.floor(c + 0.5)), int(np.ceil(c - 0.5))) for c in p]
                cand = [data[t] for t in itertools.product(*idx)]
                good = a.ok and any(all(close(float(x), y) for x, y in zip(a[2:], c)) for c in cand) and len(a) == 2 + nv
                want = cand
            else:
                if (name, p) not in memo:
                    memo[name, p] = reference(data, p)
                want, amb = memo[name, p]
                good = a.ok and len(a) == 2 + nv and all(m or close(float(x), y) for x, y, m in zip(a[2:], want, amb))
            if not good:
                ctx.violation(f"slab {shape} {sl} {p} {'nearest' if k else 'interp'}",
                              f"window {sl} of a {shape} grid: query {i + 1} of a history, at {p}, gave {list(a)}, expected {want}",
                              {"script": s[:4 + i], "files": [path]})
                break
    ctx.traces += len(jobs)


def blocks_and_surfaces(ctx, drv, rng):
    """Block and surface objects with small windows, all 2-histories, several read-cache settings."""
    nx, ny, nz = 6, 5, 3
    dx = 4.0
    data = rng.permutation(nx * ny * nz * 2).reshape(nx, ny, nz, 2) * 4.0 + 4
    sdata = rng.permutation(nx * ny).reshape(nx, ny).astype(float) * 2
    blk = BlockSpec("b", Axis(nx, dx), Axis(ny, dx), Axis(nz, dx), 0.0, data)
    blkv = BlockSpec("v", Axis(coords=[10, 12, 20, 21, 29, 30]), Axis(coords=[-3, 0, 1, 9, 13]), Axis(coords=[-2, -3, -9]), -2.0, data)
    top = SurfSpec(Axis(nx, dx), Axis(ny, dx), sdata)
    topo = SurfSpec(Axis(coords=[10, 12, 20, 21, 29, 30]), Axis(coords=[-3, 0, 1, 9, 13]), sdata[::-1].copy())
    spec = ModelSpec((20, 16, 8), [blk, blkv], top=top, topo=topo)
    path = spec.write(str(ctx.work / "bs.h5"), chunks=(2, 2, 2, 2))
    jobs = []

    def pts(axes, z0=None):
        ps = []
        for ax in axes:
            nd = ax.nodes()
            ps.append(sorted(set(nd + [(a + b) / 2 for a, b in zip(nd, nd[1:])])))
        return list(itertools.product(*ps))
    for cache in (None, (0, 1, 0.0), (64, 7, 0.75), (1 << 20, 521, 1.0)):
        pre = [T("h.new", "h")] + ([T("h.cache", "h", *cache)] if cache else []) + [T("h.open", "h", path)]
        for b in (blk, blkv):
            ps = pts([b.x, b.y])
            z = b.z.nodes()
            for sl in ((2, 2, 2), (3, 2, 3), (2, 4, 2), (6, 5, 3), (4, 5, 2)):
                if cache and sl != (3, 2, 3):
                    continue
                sel = ps if not ctx.quick else ps[::2] + ps[1::6]
                part = [sel[i] for i in debruijn(len(sel), 2)]
                seq = [(x, y, z[0] + (z[-1] - z[0]) * (i % 5) / 4.0) for i, (x, y) in enumerate(part)]
                jobs.append(("b", b, sl, seq, pre + [T("b.new", "o", b.name), T("b.load", "o", "h"), T("b.slab", "o", *sl), T("b.open", "o", "h")],
                             [T("b.query", "o", x, y, b.z_top - d) for x, y, d in seq]))
        for nm, s in (("top_surface", top), ("topography_bathymetry", topo)):
            for sl in ((2, 2), (3, 2), (6, 5)):
                ps = pts([s.x, s.y])
                seq = [ps[i] for i in debruijn(len(ps), 2)]
                jobs.append(("s", s, sl, seq, pre + [T("s.new", "o", nm), T("s.load", "o", "h"), T("s.slab", "o", *sl), T("s.open", "o", "h")],
                             [T("s.query", "o", x, y) for x, y in seq]))
    res = drv.run([pre + qs for *_, pre, qs in jobs])
    memo = {}
    for (kind, o, sl, seq, pre, qs), r in zip(jobs, res):
        ctx.traces += 1
        for i, p in enumerate(seq):
            a = r[len(pre) + i]
            ctx.transitions += 1
            ctx.state((id(o), sl, p))
            key = (id(o), p)
            if key not in memo:
                memo[key] = interp([o.x, o.y, o.z], o.data, p) if kind == "b" else interp([o.x, o.y], o.data.reshape(nx, ny, 1), p, nodata_rule=False)
            want, amb = memo[key]
            got = a[2:] if kind == "b" else a[1:]
            if not (a.ok and len(got) == len(want) and all(m or close(float(g), w) for g, w, m in zip(got, want, amb))):
                ctx.violation(f"{kind} {sl} {p}", f"{'block' if kind == 'b' else 'surface'} with window {sl}: query {i + 1} at {p} gave {list(a)}, expected {list(want)}",
                              {"script": pre + qs[:i + 1], "files": [path]})
                break


def queries(ctx, drv, rng):
    """Whole models larger than the default windows: all 2- (3-) histories over points in every window region."""
    def model(name, nx, ny, nz, sx, sy, top):
        dx = 10.0
        data = rng.integers(1, 1 << 20, size=(nx, ny, nz, 2)).astype(float)
        b0 = BlockSpec("top", Axis(nx, dx), Axis(ny, dx), Axis(nz, 50.0), 0.0, data)
        zb = -50.0 * (nz - 1)
        n2x, n2y = (nx + 1) // 2, (ny + 1) // 2
        b1 = BlockSpec("bottom", Axis(n2x, 2 * dx), Axis(n2y, 2 * dx), Axis(2, 100.0), zb, rng.integers(1, 1 << 20, size=(n2x, n2y, 2, 2)).astype(float))
        dims = ((nx - 1) * dx, (ny - 1) * dx, -zb + 100.0)
        surf = lambda lo: SurfSpec(Axis(sx, dims[0] / (sx - 1)), Axis(sy, dims[1] / (sy - 1)), rng.integers(lo, lo + 16, size=(sx, sy)).astype(float))
        s = ModelSpec(dims, [b0, b1], top=surf(16) if top else None, topo=surf(0) if top else None, origin=(1000.0, 2000.0))
        return s, s.write(str(ctx.work / name))
    fams = [("a.h5",) + (141, 67, 3, 281, 133, True), ("b.h5",) + (65, 191, 2, 2, 2, False)]
    if not ctx.quick:
        fams += [("c.h5",) + (257, 129, 4, 129, 129, True)]
    for name, nx, ny, nz, sx, sy, top in fams:
        spec, path = model(name, nx, ny, nz, sx, sy, top)
        ref = Ref(spec)
        xs = sorted({0.0, 0.5, 31.5, 62.5, 63.0, 63.5, 64.0, min(nx - 1, 100.25), nx - 1.5, float(nx - 1)})
        ys = sorted({0.0, ny / 3.0, 63.25, float(ny - 1)})
        if ctx.quick:
            xs = [x for x in xs if x in (0.0, 31.5, 63.0, 63.5, 64.0, float(nx - 1))]
            ys = [0.0, 63.25, float(ny - 1)] if ny > 64 else ys
        pts = [(x * 10, y * 10, z) for x in xs if x <= nx - 1 for y in ys if y <= ny - 1 for z in (-30.0, -50.0 * (nz - 1) - 20.0)]
        ops = [("q",) + p for p in pts] + [("q", -5.0, 10.0, -1.0), ("q", 10.0, 10.0, 500.0), ("q", spec.dims[0] + 1e3, 20.0, -5.0)]
        ops += [(k, x * 10, y * 10) for k in ("top", "topo") for x in (xs[0], xs[2], xs[-1]) for y in (ys[0], ys[-1])]
        if ctx.quick:
            ops = ops[::1]
        cmd = {"q": "q.query", "top": "q.top", "topo": "q.topo"}

        def line(o, q="q"):
            x, y = ref.world(o[1], o[2])
            return T(cmd[o[0]], q, x, y, *o[3:])
        init = [T("q.new", "q"), T("q.init", "q", spec.crs, *L([path]), *L(["two", "one"]))]
        fresh = [r[2] for r in drv.run([init + [line(o)] for o in ops])]
        for o, a in zip(ops, fresh):
            want, tol = expected(ref, o)
            if not answer_ok(a, want):
                ctx.violation(f"{name} fresh {o}", f"fresh query {o} gave {list(a)}, expected {want}", {"script": init + [line(o)], "files": [path]})
                return
        jobs = []
        for order in (2,) if ctx.quick or len(ops) > 60 else (2, 3):
            seq = debruijn(len(ops), order)
            seq = seq + seq[:order - 1]
            for s in range(0, len(seq), 3000):
                jobs.append(seq[s:s + 3000 + order - 1])
        res = drv.run([init + [line(ops[i]) for i in seq] for seq in jobs])
        for seq, r in zip(jobs, res):
            ctx.traces += 1
            for n, i in enumerate(seq):
                a = r[2 + n]
                ctx.transitions += 1
                ctx.state((name, i, seq[n - 1] if n else None))
                same = a[0] == fresh[i][0] and len(a) == len(fresh[i]) and all(close(float(x), float(y)) for x, y in zip(a[1:], fresh[i][1:]))
                if not same:
                    ctx.violation(f"{name} {ops[i]}", f"{ops[i]} as query {n + 1} of a history (previous: {ops[seq[n - 1]] if n else None}) gave {list(a)}; "
                                  f"a fresh object gives {list(fresh[i])}", {"script": init + [line(ops[j]) for j in seq[:n + 1]], "files": [path]})
                    break


VFT = "+proj=aea +lat_0=0 +lon_0=-120 +lat_1=34 +lat_2=40.5 +x_0=0 +y_0=-4000000 +datum=NAD83 +units=m +vunits={} +type=crs"


def positions(ctx, drv, rng):
    """Small models: all 2- (3-) histories over positions where decisions are made - interfaces of blocks, tops, bottoms, sides,
    positions just beyond them, columns, heights beyond any ground - through query and model objects, for points in other
    coordinate systems than the model, and for models that overlap."""
    def data(*n):
        return rng.permutation(int(np.prod(n)) * 2).reshape(n + (2,)).astype(float) * 64.0 + 5

    def stack(name, axes, dims, crs="EPSG:3311", order=(0, 1, 2), **kw):
        ax, ay = axes
        b = [BlockSpec("a", ax(4), ay(3), Axis(3, 100.0), 0.0, data(4, 3, 3)), BlockSpec("b", ax(2), ay(3), Axis(coords=[-200, -250, -500]), -200.0, data(2, 3, 3)),
             BlockSpec("c", ax(2), ay(2), Axis(2, 500.0), -500.0, data(2, 2, 2))]
        s = ModelSpec(dims, [b[i] for i in order], crs=crs, **kw)
        return s, s.write(str(ctx.work / name))

    dims = (60.0, 40.0, 1000.0)
    uni = (lambda n: Axis(n, 60.0 / (n - 1)), lambda n: Axis(n, 40.0 / (n - 1)))
    var = (lambda n: Axis(coords={4: [0, 5, 35, 60], 2: [0, 60]}[n]), lambda n: Axis(coords={3: [0, 30, 40], 2: [0, 40]}[n]))
    surf = lambda lo: SurfSpec(Axis(4, 20.0), Axis(3, 20.0), rng.integers(lo, lo + 40, size=(4, 3)).astype(float))
    fams = [("flat", [stack("p0.h5", uni, dims)], "EPSG:3311"), ("bottom first, rotated", [stack("p1.h5", uni, dims, order=(2, 1, 0), origin=(1000.0, -500.0), azimuth=33.0)], "EPSG:3311"),
            ("surfaces, variable", [stack("p2.h5", var, dims, order=(1, 0, 2), top=surf(0), topo=surf(-90))], "EPSG:3311"),
            ("feet", [stack("p3.h5", uni, dims, crs=VFT.format("m"), top=SurfSpec(Axis(2, 60.0), Axis(2, 40.0), np.full((2, 2), 5000.0)))], VFT.format("us-ft")),
            ("overlapping", [stack("p4.h5", uni, dims, top=surf(10)), stack("p5.h5", var, dims, origin=(30.0, 20.0), order=(2, 0, 1))], "EPSG:3311")]
    for name, models, crs in fams:
        ref = Ref(models[0][0])
        files = [f for _, f in models]
        scale = 3937.0 / 1200.0 if name == "feet" else 1.0
        hs = [(0.0, 0.0), (30.0, 20.0), (60.0, 40.0), (60.0 + 5e-7, 3.0), (7.0, -5e-7), (-1.0, 20.0)]
        ls = [0.0, -100.0, -200.0, -250.0, -499.999, -500.0, -1000.0, -1001.0, 5e-7, 30.0]
        if ctx.quick:
            hs = hs[:4] + hs[5:]
            ls = [0.0, -200.0, -250.0, -500.0, -1000.0, 30.0]
        ops = []
        for x, y in hs:
            for l in ls if (x, y) in hs[:2] else (-200.0, -700.0) if ctx.quick else ls[1:-2:3]:
                wx, wy = ref.world(x, y)
                g = ref.elev_local("top", x, y) if models[0][0].top and ref.inside_xy(x, y) else 0.0
                wz = (g - (g + dims[2]) * (-l) / dims[2] if name != "feet" else 5000.0 + l * 6.0) * scale
                ops.append(("query", wx, wy, wz))
            if (x, y) != (7.0, -5e-7):
                ops += [("top", wx, wy), ("topo", wx, wy)]
        ops.append(("query",) + ref.world(30.0, 20.0) + (12001.0 * scale,))
        for api in ("q", "m"):
            if api == "m" and len(models) > 1:
                continue
            o = ops + ([("contains",) + x[1:] for x in ops if x[0] == "query"][::2] if api == "m" else [])
            init = [T("q.new", "o"), T("q.init", "o", crs, *L(files), *L(["two", "one"]))] if api == "q" else \
                [T("m.new", "o"), T("m.crs", "o", crs), T("m.open", "o", files[0]), T("m.load", "o"), T("m.init", "o")]
            n0 = len(init)
            lines = [T(f"{api}.{k}", "o", *v) for k, *v in o]
            fresh = [r[n0] for r in drv.run([init + [l] for l in lines])]
            for order in (2,) if ctx.quick else (2, 3):
                pick = list(range(len(o))) if order == 2 else list(range(0, len(o), 1 + len(o) // 26))
                seq = [pick[i] for i in debruijn(len(pick), order)]
                seq = seq + seq[:order - 1]
                jobs = [seq[s:s + 1500 + order - 1] for s in range(0, len(seq), 1500)]
                for seq, r in zip(jobs, drv.run([init + [lines[i] for i in seq] for seq in jobs])):
                    ctx.traces += 1
                    for n, i in enumerate(seq):
                        a, f = r[n0 + n], fresh[i]
                        ctx.transitions += 1
                        ctx.state((name, api, i, seq[n - 1] if n else None))
                        if a[0] != f[0] or len(a) != len(f) or (a[0] != "EXC" and not all(x == y or (num(x) and num(y) and close(float(x), float(y))) for x, y in zip(a[1:], f[1:]))):
                            ctx.violation(f"position {name} {api} {o[i]}", f"model '{name}': {o[i]} as operation {n + 1} of a history (previous: {o[seq[n - 1]] if n else None}) gave {list(a)}; "
                                          f"a fresh object gives {list(f)}", {"script": init + [lines[j] for j in seq[:n + 1]], "files": files})
                            break


def num(x):
    try:
        float(x)
        return True
    except (TypeError, ValueError):
        return False


def expected(ref, o):
    if o[0] == "q":
        x, y, z = o[1:]
        if not ref.inside_xy(x, y):
            return [WARNING, NODATA, NODATA], 0
        zl = ref.zlogical(x, y, z)
        v = ref.query_local(x, y, zl)
        if not v:
            return [WARNING, NODATA, NODATA], 0
        return [OK, v[0][0][1], v[0][0][0]], 0
    return [ref.elev_local(o[0], o[1], o[2])], 0


def answer_ok(a, want):
    return a.ok and len(a) == 1 + len(want) and all(close(float(x), y, 1e-6, 1e-5) for x, y in zip(a[1:], want))


def check(ctx):
    drv = ctx.driver()
    rng = np.random.default_rng(ctx.seed)
    hyperslabs(ctx, drv, rng)
    blocks_and_surfaces(ctx, drv, rng)
    queries(ctx, drv, rng)
    positions(ctx, drv, rng)
    ctx.sample("window 3x2 of a 5x3 grid: every ordered pair of the 45 half-cell positions, consecutively")
    ctx.sample("141x67x3 block + coarser block + 281x133 surfaces: every ordered pair of queries/elevation queries over window regions")
    ctx.sample("three stacked blocks in all kinds of models: every ordered pair of queries on interfaces, tops, bottoms, sides and beyond")
    ctx.notes.update(rule="states = distinct (grid, window, position, predecessor); transitions = queries executed and compared",
                     history_depth="2 (3 on grids with few positions)", driver_commands=drv.commands)
    ctx.assumptions += ["positions on a half-cell lattice; grids up to 7 nodes per axis with explicit windows, three models with default windows"]
