"""C21: geomodelgrids_isosurface finds the depth of each value along each column."""
import itertools
import os

import pyproj
from osgeo import gdal

from apps import *

gdal.UseExceptions()
C = "EPSG:3311"


def profile_model(path, profiles, dz, top=None, topo=None, split=None):
    """A model whose column k (x between 20 k and 20 k + 10) has the given node values; `split`: node where a second block starts."""
    K, n = len(profiles), len(profiles[0])
    d = np.zeros((2 * K, 2, n, 1))
    for k, p in enumerate(profiles):
        d[2 * k:2 * k + 2, :, :, 0] = p
    X, Y = Axis(2 * K, 10.0), Axis(2, 40.0)
    if split:
        blocks = [BlockSpec("up", X, Y, Axis(split + 1, dz), 0.0, d[:, :, :split + 1]), BlockSpec("low", X, Y, Axis(n - split, dz), -split * dz, d[:, :, split:])]
    else:
        blocks = [BlockSpec("up", X, Y, Axis(n, dz), 0.0, d)]

    def surf(v):
        return None if v is None else SurfSpec(X, Y, np.repeat(np.repeat(np.array(v, dtype=float), 2)[:, None], 2, axis=1))
    ModelSpec((10.0 * (2 * K - 1), 40.0, dz * (n - 1)), blocks, values=("v",), units=("m",), origin=(0.0, -400000.0), top=surf(top), topo=surf(topo)).write(path)
    return path


class Profile:
    """Values along one column as a function of the depth below the reference surface."""
    def __init__(self, nodes, dz, top, ref, maxdepth):
        H = dz * (len(nodes) - 1)
        s = (H + top) / H  # vertical stretching
        self.shift = top - ref
        self.z = [i * dz * s - self.shift for i in range(len(nodes))]
        self.v = nodes
        self.stretched = top != 0.0
        self.D = maxdepth
        self.pieces = []
        for a, b, x, y in zip(self.z, self.z[1:], nodes, nodes[1:]):
            self.pieces.append((a, b, None, None) if NODATA in (x, y) else (a, b, x, y))

    def value(self, d):
        for a, b, x, y in self.pieces:
            if a - 1e-9 <= d <= b + 1e-9:
                return NODATA if x is None else x + (y - x) * (d - a) / (b - a)
        return NODATA

    def crossings(self, t):
        """(depth, exact, kind): up-crossings, places where the value changes from below t (or no-data) to t or above."""
        out = []
        segs = [(-1e30, self.z[0], None, None)] + self.pieces + [(self.z[-1], 1e30, None, None)]
        last = NODATA
        for a, b, x, y in segs:
            if x is None:
                last = NODATA
                continue
            if last < t <= x and a >= 0:
                out.append((a, False))
            if x < t <= y:
                out.append((a + (t - x) / (y - x) * (b - a), True))
            last = y
        return [(d, e) for d, e in out if 0 <= d <= self.D + 1e-9]

    def isolated(self, t):
        """Nodes at or above t next to cells with no data: the value exists at that point only."""
        return [z for i, (z, v) in enumerate(zip(self.z, self.v)) if v >= t and 0 <= z <= self.D + 1e-9 and any(0 <= j < len(self.pieces) and self.pieces[j][2] is None for j in (i - 1, i))]

    def fine(self, t, step, deep):
        """Is every stretch of depths with values at or above t (and, searching from below, every other stretch) longer than the first search step?"""
        marks = [0.0]
        state = []
        for a, b, x, y in [(-1e30, self.z[0], None, None)] + self.pieces + [(self.z[-1], 1e30, None, None)]:
            cut = [a, b]
            if x is not None and min(x, y) < t < max(x, y):
                cut.insert(1, a + (t - x) / (y - x) * (b - a))
            for lo, hi in zip(cut, cut[1:]):
                lo, hi = max(lo, 0.0), min(hi, self.D)
                if hi <= lo:
                    continue
                above = x is not None and x + (y - x) * ((lo + hi) / 2 - a) / (b - a) >= t
                if state and state[-1][0] == above:
                    state[-1][2] = hi
                else:
                    state.append([above, lo, hi])
        if any(abs(v - t) < 1e-6 for v in self.v):
            return False
        return all(hi - lo > step * 1.01 or hi >= self.D - 1e-9 for above, lo, hi in state if above or deep)

    def near_node(self, d, r):
        return any(abs(d - z) <= r for z in self.z) or d > self.D - r or d < r


def admissible(p, t, deep, fine, vres, got):
    """None when the depth `got` is right for profile p and target t."""
    surface = p.value(2e-4)
    up = p.crossings(t)
    if got is not None and got == got and abs(got) <= 2e-3 and surface >= t - 1e-6 and not (deep and fine and up and not any(abs(d) < vres for d, _ in up)):
        return None
    if got is None:
        if deep and not fine and (NODATA in p.v or p.z[-1] <= p.D):
            return None  # a search point exactly where the values end counts or not depending on roundoff
        if surface >= t:
            return f"no-data although the value at the surface is {surface}"
        if all(d > p.D - 1e-3 for d, _ in up):
            return None
        v = [p.value(x) for x in (2e-4, p.D)]
        if NODATA in p.v or (not fine and v[1] < t):
            # values next to no-data count only when every sample that matters is a number
            if all(not e for d, e in up) or not fine:
                return None
        return f"no-data, expected one of {up}"
    if any(abs(z - got) <= vres + 2e-3 for z in p.isolated(t)):
        return None
    match = [(d, e) for d, e in up if abs(d - got) <= vres + 2e-3]
    if not match:
        down = surface >= t and got <= vres + 2e-3  # value drops below the target right at the surface
        return None if down else f"depth {got}, expected one of {up} (value at the surface {surface})"
    if fine and surface < t:
        want = up[-1] if deep else up[0]
        if abs(want[0] - got) > vres + 2e-3:
            return f"depth {got}, expected {want[0]}, the {'deepest' if deep else 'shallowest'} of {up}"
    if fine and deep and abs(up[-1][0] - got) > vres + 2e-3:
        return f"depth {got}, expected {up[-1][0]}, the deepest of {up}"
    d, e = min(match, key=lambda m: abs(m[0] - got))
    if e and not p.near_node(d, vres + 1e-3) and abs(d - got) > 1e-3 + 2e-7 * abs(d):
        return f"depth {got}, expected {d} (linear between the search points)"
    return None


def read(path):
    d = gdal.Open(path)
    return d.GetGeoTransform(), d.GetProjection(), [d.GetRasterBand(k + 1).GetDescription() for k in range(d.RasterCount)], np.array(d.ReadAsArray(), dtype=float).reshape(d.RasterCount, d.RasterYSize, d.RasterXSize), d.GetRasterBand(1).GetNoDataValue()


class Tiffs(Runner):
    def __call__(self, jobs):
        outs = [str(self.ctx.work / f"iso{self.n}-{k}.tiff") for k in range(len(jobs))]
        res = super().__call__([(n, [a.replace("{OUT}", o) for a in args]) for (n, args), o in zip(jobs, outs)])
        out = []
        for (rc, so, se, _), o in zip(res, outs):
            t = None
            if os.path.exists(o):
                try:
                    t = read(o)
                except RuntimeError as e:
                    t = str(e)
                os.unlink(o)
            out.append((rc, so, se, t))
        return out


def check(ctx):
    drv = ctx.driver()
    fast = Drv(ctx.build("driver", "driver-fast")["driver-fast"])
    run, runf = Tiffs(ctx, drv), Tiffs(ctx, fast)
    w = ctx.work

    # ---- every profile over a small alphabet
    sets = []
    mono = sorted(set(itertools.product((1.0, 2.0, 3.0), repeat=4)))
    full = list(itertools.product((1.0, 2.0, 3.0, NODATA), repeat=4))
    rng = np.random.default_rng(21)
    if not ctx.quick:
        full5 = list(itertools.product((1.0, 2.0, 3.0, NODATA), repeat=5))
    tops = [float(x) for x in rng.integers(-20, 60, size=2000)]
    topos = [float(x) for x in rng.integers(-30, 40, size=2000)]
    targets = [0.5, 1.5, 2.5, 3.5, 1.25, 2.0]
    variants = [("flat", full, 10.0, None, None, None), ("surface", mono, 10.0, tops, None, None), ("surfaces", mono, 10.0, tops, topos, 2), ("blocks", full, 10.0, None, None, 1)]
    if not ctx.quick:
        variants += [("five", full5, 10.0, None, None, 2), ("five surfaces", full5, 7.5, tops, topos, 3)]
    settings = [(10, 1.0, 30.0), (10, 0.1, 30.0), (20, 5.0, 30.0), (3, 1.0, 30.0), (4, 0.5, 30.0), (5, 10.0, 30.0), (10, 1.0, 45.0), (10, 2.0, 17.0), (10, 50.0, 30.0), (31, 1.0, 30.0), (10, 30.0, 30.0), (2000, 0.1, 30.0), (3, 0.02, 45.0)]
    if not ctx.quick:
        settings += [(n, v, d) for n in (3, 6, 7, 11, 16, 101) for v in (0.05, 0.7, 3.0, 12.0) for d in (11.0, 30.0, 33.3, 100.0)]
    # thin layers, found by fine searches only
    thin = []
    for k in (1, 50, 149, 151, 298) if ctx.quick else (1, 2, 3, 50, 149, 150, 151, 250, 298, 299):
        for j in (None, 299 - k):
            p = [1.0] * 301
            p[k] = 3.0
            if j is not None and 0 < j < 300:
                p[j] = 2.9
            thin.append(p)
    variants.append(("thin", thin, 0.1, None, None, None))
    jobs, meta = [], []
    for nm, profs, dz, top, topo, split in variants:
        f = profile_model(str(w / f"{nm.replace(' ', '')}.h5"), profs, dz, None if top is None else top[:len(profs)], None if topo is None else [min(a, b) for a, b in zip(topo[:len(profs)], top)], split)
        tp = [0.0] * len(profs) if top is None else top
        rf = tp if topo is None else [min(a, b) for a, b in zip(topo, top)]
        for k, (n, v, d) in enumerate(settings):
            if nm == "thin" and (n, v) not in ((2000, 0.1), (3, 0.02), (31, 1.0)):
                continue
            if nm not in ("flat", "surfaces", "thin") and k % 3 and ctx.quick or (n == 2000 and nm not in ("flat", "thin")):
                continue
            for deep in (False, True):
                for ref in (("topography_bathymetry", "top_surface") if topo is not None else (None,)):
                    for dflt in ((True, False) if k == 0 else (False,)):
                        args = ["--models=" + f, f"--bbox=-5,{20 * len(profs) - 5},-399990,-399970", "--hresolution=20", f"--max-depth={d}", "--bbox-coordsys=" + C, "--output={OUT}"]
                        args += [f"--isosurface=v,{t}" for t in targets]
                        if not (dflt and n == 10):
                            args.append(f"--num-search-points={n}")
                        args.append(f"--vresolution={v}")
                        args += ["--prefer-deep"] if deep else []
                        args += [f"--depth-reference={ref}"] if ref else []
                        jobs.append(("isosurface", args))
                        meta.append((nm, profs, dz, tp, tp if ref == "top_surface" else rf, n, v, d, deep, f))
    for job, m, (rc, so, se, t) in zip(jobs, meta, runf(jobs)):
        nm, profs, dz, tp, rf, n, v, d, deep, f = m
        ctx.traces += 1
        if rc != 0 or t is None or isinstance(t, str):
            ctx.violation(f"run {nm} {n} {v} {d} {deep}", f"isosurface of {nm} columns, {n} search points, resolution {v}, maximum depth {d}: exit status {rc} {se[-300:]!r} {t if isinstance(t, str) else ''}", replay(job, [f]))
            continue
        gt, proj, labels, a, nod = t
        if a.shape != (len(targets), 1, len(profs)) or [(x.split("=")[0], float(x.split("=")[1])) for x in labels] != [("v", t_) for t_ in targets] or nod is None or abs(nod / NODATA - 1) > 1e-6:
            ctx.violation(f"raster {nm}", f"raster of shape {a.shape}, labels {labels}, no-data value {nod}", replay(job, [f]))
            continue
        for k, p in enumerate(profs):
            P = Profile(p, dz, tp[k], rf[k], d)
            for b, tg in enumerate(targets):
                ctx.transitions += 1
                ctx.nstates += 1
                if tg == 2.0 and NODATA in p:
                    continue
                got = None if is_nodata(a[b, 0, k]) else a[b, 0, k]
                fine = P.fine(tg, d / (n - 1), deep)
                bad = ties(P, tg, deep, fine, v, got) if tg == 2.0 else admissible(P, tg, deep, fine, v, got)
                if bad:
                    ctx.violation(f"column {nm} {p} {tg} {n} {v} {d} {deep}", f"values {['-' if x == NODATA else x for x in p]} every {dz} below the top ({tp[k]}; reference {rf[k]}), isosurface {tg}, {n} search points, resolution {v}, maximum depth {d}{', deepest' if deep else ''}: {bad}", replay(job, [f]))

    # ---- position of every pixel, in every coordinate system, for boxes that are and are not multiples of the resolution
    lin = str(w / "linear.h5")
    L_, W_, H_ = 40000.0, 30000.0, 8000.0
    a0, bx, by, bz = 100.0, 1e-2, 3e-2, 0.5
    xs, ys, zs = np.array([0.0, L_]), np.array([0.0, W_]), np.array([0.0, H_])
    dat = (a0 + bx * xs[:, None, None] + by * ys[None, :, None] + bz * zs[None, None, :])[..., None]
    ModelSpec((L_, W_, H_), [BlockSpec("b", Axis(2, L_), Axis(2, W_), Axis(2, H_), 0.0, np.concatenate([dat, 2 * dat], axis=3))], values=("p", "q"), units=("m", "m"), origin=(-20000.0, -400000.0)).write(lin)
    boxes = [(C, (-20000.0, 20000.0, -400000.0, -370000.0)), (C, (-21000.0, 3000.0, -398000.0, -385000.0)), ("EPSG:4326", (34.4, 34.66, -120.2, -119.8)), ("EPSG:4269", (34.45, 34.6, -120.15, -119.9)), ("+proj=longlat +datum=WGS84", (-120.2, -119.8, 34.4, 34.66)),
             ("EPSG:26911", (201000.0, 241000.0, 3809000.0, 3842000.0)), ("EPSG:4979", (34.4, 34.66, -120.2, -119.8)), ("EPSG:26911+5703", (201000.0, 241000.0, 3809000.0, 3842000.0))]
    divs = [4, 3.3, 2.6, 7, 1.5, 0.51, 10.25] if ctx.quick else [4, 3.3, 2.6, 7, 1.5, 0.51, 10.25, 1, 2.49, 2.51, 13.7, 20, 33.3]
    jobs, meta = [], []
    for (crs, bb), div, deep in itertools.product(boxes, divs, (False, True)):
        res = (bb[1] - bb[0]) / div
        if crs in ("EPSG:4326", "EPSG:4269", "EPSG:4979"):
            east, north = (bb[2], bb[3]), (bb[0], bb[1])
        else:
            east, north = (bb[0], bb[1]), (bb[2], bb[3])
        args = ["--models=" + lin, "--bbox=" + ",".join(repr(x) for x in bb), f"--hresolution={res!r}", "--max-depth=8000", "--vresolution=100", "--isosurface=p,2000", "--isosurface=q,3500.5", "--output={OUT}"] + ([f"--bbox-coordsys={crs}"] if crs != "EPSG:4326" or div != 4 else []) + (["--prefer-deep"] if deep else [])
        jobs.append(("isosurface", args))
        meta.append((crs, bb, east, north, res, div))
    for job, (crs, bb, east, north, res, div), (rc, so, se, t) in zip(jobs, meta, run(jobs)):
        ctx.traces += 1
        ctx.nstates += 1
        bad = None
        nx, ny = (east[1] - east[0]) / res, (north[1] - north[0]) / res
        if round(min(nx, ny) - 1e-9) < 1:
            if rc in (0, 96, 99) or rc > 255:
                bad = f"box smaller than the resolution: exit status {rc}"
        elif rc != 0 or t is None or isinstance(t, str):
            bad = f"exit status {rc} {se[-300:]!r} {t if isinstance(t, str) else ''}"
        else:
            gt, proj, labels, a, nod = t
            nb, rows, cols = a.shape
            if abs(cols - nx) > 0.5001 or abs(rows - ny) > 0.5001 or nb != 2 or labels != ["p=2000", "q=3500.5"]:
                bad = f"{nb} bands of {rows} rows and {cols} columns, labels {labels}; box is {ny} by {nx} cells"
            elif abs(gt[0] - east[0]) > 1e-9 * abs(east[0]) + 1e-12 or abs(gt[3] - (gt[5] * -rows + north[0])) > 1e-9 * abs(gt[3]) or gt[1] <= 0 or gt[5] >= 0 or gt[2] or gt[4]:
                bad = f"geographic transformation {gt} for box {bb}"
            elif max(abs(gt[1] * cols - (east[1] - east[0])) / res, abs(gt[5] * rows + (north[1] - north[0])) / res) > 0.5001:
                bad = f"extent of raster {gt[1] * cols} by {gt[5] * rows} for box {bb}"
            elif not crs_same(proj, crs):
                bad = f"coordinate system {proj[:100]!r} for {crs}"
            else:
                hor = crs.split("+5703")[0]
                hor = hor + " +type=crs" if "proj=" in hor else hor
                ty = pyproj.Transformer.from_crs("EPSG:4326" if hor == "EPSG:4979" else hor, C, always_xy=True)
                for i, j in itertools.product(range(rows), range(cols)):
                    x, y = ty.transform(gt[0] + (j + 0.5) * gt[1], gt[3] + (i + 0.5) * gt[5])
                    x, y = x + 20000.0, y + 400000.0
                    ctx.transitions += 1
                    edge = min(abs(x), abs(x - L_), abs(y), abs(y - W_)) < 0.5
                    for b, (tg, fac) in enumerate(((2000.0, 1.0), (3500.5, 2.0))):
                        g = a[b, i, j]
                        if edge:
                            continue
                        if not (0 < x < L_ and 0 < y < W_):
                            want = NODATA
                        else:
                            want = (tg / fac - a0 - bx * x - by * y) / bz
                            want = 0.0 if want < 0 else want
                        if (is_nodata(want) != is_nodata(g)) or (not is_nodata(want) and abs(g - want) > 0.01 + 1e-6 * want):
                            bad = bad or f"band {b}, row {i}, column {j} (x {x}, y {y} in the model): {g}, expected {want}"
        if bad:
            ctx.violation(f"pixels {crs} {bb} {div}", f"isosurface in {crs}, box {bb}, resolution {res}: {bad}", replay(job, [lin]))

    # ---- refused
    good = [("models", lin), ("bbox", "-20000,20000,-400000,-370000"), ("hresolution", "10000"), ("max-depth", "8000"), ("isosurface", "p,2000"), ("bbox-coordsys", C), ("output", "{OUT}")]
    bad_values = {"bbox": ("1,2,3", "1,2,3,4,5", "a,b,c,d", "1,2,3,x", "", "2,1,3,4", "1,2,4,3", "1,1,3,4", "nan,2,3,4", "1,2,3,4x"), "hresolution": ("0", "-1", "abc", "", "nan", "inf", "10x"), "vresolution": ("0", "-1", "abc", "", "nan", "inf", "10x"),
                  "max-depth": ("0", "-1", "abc", "", "nan", "inf", "10x"), "isosurface": ("p", "p,", ",", "p,abc", "p,1,2", "nope,1", "p,nan", "p,1x", ""), "num-search-points": ("0", "1", "2", "-3", "abc", "", "3.5", "10x"), "depth-reference": ("none", "", "topo", "bottom"),
                  "models": (str(w / "missing.h5"), ""), "bbox-coordsys": ("EPSG:999999", "nonsense"), "output": ("", str(w / "no" / "dir.tiff"), "/dev/full")}
    jobs, tags = [], []
    for o, vs in bad_values.items():
        for v in vs:
            jobs.append(("isosurface", [f"--{k}={x}" for k, x in good if k != o] + [f"--{o}={v}"]))
            tags.append(f"--{o}={v}")
    for k, _ in good:
        if k != "bbox-coordsys":
            jobs.append(("isosurface", [f"--{k_}={x}" for k_, x in good if k_ != k]))
            tags.append(f"missing --{k}")
    for job, tag, (rc, so, se, t) in zip(jobs, tags, run(jobs)):
        ctx.nstates += 1
        ctx.traces += 1
        if rc in (0, 96, 99) or rc > 255 or not (se or so).strip():
            ctx.violation(f"refuse {tag}", f"isosurface with {tag}: exit status {rc}, message {(se or '')[-200:]!r}, expected to be refused", replay(job, [lin]))
    ok = run([("isosurface", [f"--{k}={x}" for k, x in good])])[0]
    if ok[0] != 0:
        ctx.violation("good", f"reference command line: exit status {ok[0]} {ok[2]}", {"script": []})
    ctx.sample("column values 1, 3, 1, 2 every 10 m, isosurface 2.5, shallowest and deepest")
    ctx.notes.update(rule="states = (column profile, target, search settings) + (box, resolution, coordinate system) + refused command lines", driver_commands=drv.commands + fast.commands)


def ties(p, t, deep, fine, v, got):
    """Target equal to node values: rounding may place the node on either side."""
    if any(admissible(p, t + e, deep, fine, v + 1e-3, got) is None for e in (0.0, 1e-9, -1e-9)):
        return None
    if got is None and p.stretched and any(x == t and y == t for _, _, x, y in p.pieces):
        return None  # stretched coordinates: the constant value itself is only known to roundoff
    return admissible(p, t, deep, fine, v, got) if not near_plateau(p, t, got) else None


def near_plateau(p, t, got):
    return got is not None and got == got and any(x == t and y == t and a - 1e-2 <= got <= b + 1e-2 for a, b, x, y in p.pieces)


def crs_same(wkt, want):
    import c22
    return c22.same(wkt, want)
