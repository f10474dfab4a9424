"""C29: grid point files cover the model's nodes.

A family of configurations (grids, resolutions, blocks, origins, azimuths, topography, units) is run through the real
program as a user does: points of the ground surface first, elevations for them in the same order, then the points of the
blocks.  Every line of every file is assigned to a node of its grid; each node must appear exactly once, at its place.
The points are also looked up in a model file with the same geometry through the library."""
import itertools
import math

from create import *

SCRIPT = "geomodelgrids/scripts/generate_points.py"


class Conf:
    def __init__(self, dims, blocks, origin, azimuth, topo=None, units=None, offset=0.0):
        """dims: (x, y) intervals of the coarsest horizontal resolution unit; blocks: (name, res_horiz text, res_vert text, z_top, z_bot)."""
        self.dims, self.blocks, self.origin, self.azimuth, self.topo, self.units, self.offset = dims, blocks, origin, azimuth, topo, units, offset

    def text(self):
        d = [f"[geomodelgrids]\ndescription = Points of a model\nkey = test\n[coordsys]\ny_azimuth = {self.azimuth!r}\norigin_x = {self.origin[0]!r}\norigin_y = {self.origin[1]!r}",
             f"[domain]\ndim_x = {self.dims[0]}\ndim_y = {self.dims[1]}\ndim_z = {self.dims[2]}\nblocks = [{', '.join(b[0] for b in self.blocks)}]"]
        if self.topo:
            d.append("topography = ground.txt")
        if self.units:
            d.append("external_z_units = " + self.units)
        for name, h, v, zt, zb in self.blocks:
            d.append(f"[{name}]\nres_horiz = {h}\nres_vert = {v}\nz_top = {zt}\nz_bot = {zb}\nz_top_offset = {self.offset!r}")
        return "\n".join(d) + "\n"

    def scale(self):
        return 0.3048 if self.units in ("ft", "feet") else 1.0

    def grid(self, k):
        from fractions import Fraction as F
        name, h, v, zt, zb = self.blocks[k]
        n = [F(self.dims[0]) / F(h), F(self.dims[1]) / F(h), (F(zt) - F(zb)) / F(v)]
        return [1 + int(x) for x in n]

    def xy(self, k, i, j):
        h, az = float(self.blocks[k][1]), math.radians(self.azimuth)
        x, y = i * h, j * h
        return self.origin[0] + x * math.cos(az) + y * math.sin(az), self.origin[1] - x * math.sin(az) + y * math.cos(az)

    def ground(self, x, y):
        if not self.topo:
            return 0.0
        a = self.topo
        return a[0] + a[1] * (x - self.origin[0]) + a[2] * (y - self.origin[1]) + a[3] * (x - self.origin[0]) * (y - self.origin[1])

    def z(self, k, n, g):
        name, h, v, zt, zb = self.blocks[k]
        z, bot = float(zt) - n * float(v), -float(self.dims[2])
        if not self.topo:
            return z
        return bot + (g - bot) / -bot * (z - bot) + (self.offset if n == 0 else 0.0)


def family(quick):
    """Configurations; lengths are decimal texts, multiples of the resolutions."""
    out = []
    d = lambda *s: s  # noqa: E731
    grids = []
    for h in ("1000", "0.1", "0.3", "12.5", "0.7", "33.3") if quick else ("1000", "0.1", "0.3", "12.5", "0.7", "33.3", "1.1", "0.05", "7", "2.3", "0.6", "250"):
        from fractions import Fraction as F

        def m(n, h=h):
            x = F(h) * n
            return repr(float(x)) if x.denominator > 1 else str(int(x))
        for nx, ny in ((1, 1), (3, 2), (2, 5), (7, 3)) if quick else itertools.product((1, 2, 3, 6, 7, 11), (1, 2, 3, 5, 9)):
            for v, nz in (("0.1", 3), ("100", 4)) if quick else (("0.1", 3), ("0.1", 7), ("0.3", 6), ("100", 4), ("2.5", 1)):
                zb = repr(-float(F(v) * nz))
                grids.append(((m(nx), m(ny), zb[1:]), [("one", h, v, "0.0", zb)]))
        # two and three blocks
        for nx, ny in ((2, 4), (4, 2)) if quick else ((2, 4), (4, 2), (4, 4), (6, 2)):
            grids.append(((m(nx), m(ny), "90.0"), [("top", h, "10", "0.0", "-30.0"), ("bottom", m(2), "20", "-30.0", "-90.0")]))
            grids.append(((m(2 * nx), m(2 * ny), "90.0"), [("top", h, "7.5", "0", "-30"), ("mid", m(2), "10.0", "-30.0", "-60.0"), ("bottom", m(4), "15", "-60", "-90")]) if nx % 2 == 0 and ny % 2 == 0 else grids[-1])
    places = [((0.0, 0.0), 0.0), ((563000.0, -4181000.5), 330.0), ((-1000.25, 300.0), 45.0), ((10.0, 20.0), -90.0)]
    for k, (dims, blocks) in enumerate(grids):
        bot = float(dims[2])
        L_ = float(dims[0]) + float(dims[1])
        topos = [None, (0.0, 0.0, 0.0, 0.0), (bot / 8, bot / 16 / L_, -bot / 20 / L_, 0.0), (-bot / 10, 0.0, bot / 30 / L_, bot / 40 / L_ ** 2)]
        combos = list(itertools.product(places, topos, (None, "m", "ft", "feet"), (0.0, -bot / 1000)))
        for n, (pl, tp, u, off) in enumerate(combos):
            if quick and (n + 5 * k) % 16:
                continue
            if not quick and (n + k) % 16:
                continue
            out.append(Conf(dims, blocks, *pl, tp, u, off))
    return out


def compare(ctx, c, r):
    """None or what is wrong."""
    for x in r["results"]:
        if x != "OK":
            return f"fails with {x}"
    files = {"test-topo-xy.txt.gz": ("surface", 0)}
    files.update({f"test-{b[0]}-xyz.txt.gz": (b[0], k) for k, b in enumerate(c.blocks)})
    made = {f[5:] for f in r["listing"] if f.endswith(".gz")}
    if made != set(files):
        return f"files {sorted(made)} instead of {sorted(files)}"
    ca, sa = math.cos(math.radians(c.azimuth)), math.sin(math.radians(c.azimuth))
    written = {}
    for f, (name, k) in files.items():
        rows = r["read"]["data/" + f]
        n = c.grid(k)
        h = float(c.blocks[k][1])
        bot, sz = float(c.dims[2]), c.scale()
        if name == "surface":
            n = n[:2]
        if len(rows) != math.prod(n):
            return f"{f} has {len(rows)} points, grid has {n}"
        seen = set()
        step = round(h / float(c.blocks[0][1]))
        for row in rows:
            ctx.transitions += 1
            if len(row) != len(n):
                return f"{f}: {row} has {len(row)} coordinates"
            dx, dy = row[0] - c.origin[0], row[1] - c.origin[1]
            i, j = round((dx * ca - dy * sa) / h), round((dx * sa + dy * ca) / h)
            tol = 1e-8 * max(abs(row[0]), abs(row[1])) + 1e-9 if name == "surface" else 1e-11 * max(abs(row[0]), abs(row[1]), 1.0)
            x, y = c.xy(k, i, j)
            if abs(x - row[0]) > tol or abs(y - row[1]) > tol:
                return f"{f}: {row} is not at a node (nearest node {i}, {j} is at {x}, {y})"
            node = (i, j)
            if name == "surface":
                written[node] = (row[0], row[1])  # where elevations are asked for (rounded to the digits of the file)
            else:
                g = c.ground(*written.get((i * step, j * step), (x, y)))
                v, zt = float(c.blocks[k][2]), float(c.blocks[k][3])
                z = row[2] * sz
                near = min(range(n[2]), key=lambda q: abs(c.z(k, q, g) - z))
                if abs(c.z(k, near, g) - z) > 2e-6 * max(abs(z), abs(g), bot) + 1e-12 + (3e-8 * bot if name else 0):
                    return f"{f}: elevation {row[2]} of {node} in {c.units or 'm'} is not at a node (nearest is node {near} at {c.z(k, near, g) / sz})"
                node += (near,)
            if any(not 0 <= q < m for q, m in zip(node, n)):
                return f"{f}: {row} is node {node} outside the grid {n}"
            if node in seen:
                return f"{f}: node {node} appears twice"
            seen.add(node)
    return None


def lookup(ctx, c, r, path):
    """The points looked up in a model of the same geometry whose values are linear between its nodes."""
    blocks = []
    f = lambda i, j, z: 100.0 + 3 * i - 5 * j + 40.0 * z / float(c.dims[2])  # noqa: E731
    for k, (name, h, v, zt, zb) in enumerate(c.blocks):
        n = c.grid(k)
        i, j, q = np.meshgrid(np.arange(n[0]) * float(h), np.arange(n[1]) * float(h), float(zt) - np.arange(n[2]) * float(v), indexing="ij")
        blocks.append(BlockSpec(name, Axis(n[0], float(h)), Axis(n[1], float(h)), Axis(n[2], float(v)), float(zt), f(i / float(c.dims[0]), j / float(c.dims[1]), q)[..., None]))
    top = None
    if c.topo:
        n, h = c.grid(0), float(c.blocks[0][1])
        g = np.array([[c.ground(*c.xy(0, i, j)) for j in range(n[1])] for i in range(n[0])])
        top = SurfSpec(Axis(n[0], h), Axis(n[1], h), g)
    ModelSpec([float(d) for d in c.dims], blocks, origin=c.origin, azimuth=c.azimuth, values=("v",), units=("m",), top=top).write(path)
    pts, want = [], []
    for k, b in enumerate(c.blocks):
        for x, y, z in r["read"][f"data/test-{b[0]}-xyz.txt.gz"]:
            dx, dy = x - c.origin[0], y - c.origin[1]
            ca, sa = math.cos(math.radians(c.azimuth)), math.sin(math.radians(c.azimuth))
            i, j = (dx * ca - dy * sa) / float(c.dims[0]), (dx * sa + dy * ca) / float(c.dims[1])
            g = c.ground(x, y)
            q = min(range(c.grid(k)[2]), key=lambda m: abs(c.z(k, m, g) - z * c.scale()))
            pts.append((x, y, z * c.scale()))
            want.append(f(i, j, float(b[3]) - q * float(b[2])))
    return [T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L([path]), *L(["v"]))] + [T("q.query", "q", *p) for p in pts], pts, want


def check(ctx):
    py = creator(ctx)
    ctx.build("driver", "driver-fast")
    drv = ctx.driver(fast=True)
    fam = family(ctx.quick)
    scripts = []
    for n, c in enumerate(fam):
        runs = [["--model=m.cfg", "--points=groundsurf", "--data-dir=data"]]
        if c.topo:
            runs.append({"from": "data/test-topo-xy.txt.gz", "to": "data/ground.txt", "coef": list(c.topo) + list(c.origin), "scale": c.scale()})
        runs.append(["--data-dir", "data", "--points", "blocks", "--model", "m.cfg"])
        scripts.append([J("script", dir=str(ctx.work / f"p{n}"), script=SCRIPT, files={"m.cfg": c.text()}, runs=runs, read=["data/test-topo-xy.txt.gz"] + [f"data/test-{b[0]}-xyz.txt.gz" for b in c.blocks])])
    jobs = []
    for n, (c, a) in enumerate(zip(fam, py.run(scripts))):
        r = answer(a[0])
        ctx.traces += 1
        ctx.state((c.text(), c.topo))
        bad = compare(ctx, c, r)
        if bad:
            ctx.violation(f"{c.text()} {c.topo}", f"points of blocks {[b[:3] for b in c.blocks]}, domain {c.dims}, azimuth {c.azimuth}, topography {c.topo}, units {c.units}: {bad}", {"configuration": c.text(), "topography": c.topo, "problem": bad})
        elif c.offset <= 0.0 and (not ctx.quick or n % 3 == 0):
            path = str(ctx.work / f"m{n}.h5")
            jobs.append((c, path) + lookup(ctx, c, r, path))
    for (c, path, script, pts, want), r in zip(jobs, drv.run([j[2] for j in jobs])):
        ctx.traces += 1
        tol = 0.02
        for p, w, a in zip(pts, want, r[2:]):
            ctx.transitions += 1
            # points on the outside of the model may be outside by roundoff of the texts
            if a[0] != "OK" or (abs(float(a[-1]) - w) > tol * 40 and float(a[-1]) != NODATA):
                ctx.violation(f"lookup {c.text()} {p}", f"the model with blocks {[b[:3] for b in c.blocks]} gives {list(a)} at {p} of its points, expected {w}", {"script": script[:2] + [T("q.query", "q", *p)], "files": [path], "configuration": c.text()})
                break
        else:
            inside = sum(float(a[-1]) != NODATA for a in r[2:])
            ctx.notes["inside"] = ctx.notes.get("inside", 0) + inside
            ctx.notes["looked up"] = ctx.notes.get("looked up", 0) + len(pts)
    # command lines and configurations that cannot work
    c = fam[0]
    good = c.text()
    bad = [("points neither", good, ["--model=m.cfg", "--points=nothing"]), ("no model", good, ["--points=blocks"]), ("no points", good, ["--model=m.cfg"]), ("config missing", good, ["--model=n.cfg", "--points=blocks"]),
           ("unknown option", good, ["--model=m.cfg", "--points=blocks", "--what"]), ("units", good.replace("[one]", "external_z_units = km\n[one]"), ["--model=m.cfg", "--points=blocks"]),
           ("topography missing", good.replace("[one]", "topography = none.txt\n[one]"), ["--model=m.cfg", "--points=blocks"])]
    for key in ("y_azimuth", "origin_x", "dim_x", "dim_z", "blocks", "res_horiz", "res_vert", "z_top", "z_bot", "z_top_offset", "key"):
        bad.append((f"without {key}", "\n".join(x for x in good.split("\n") if not x.startswith(key + " ")), ["--model=m.cfg", "--points=blocks"]))
    for (what, text, argv), a in zip(bad, py.run([[J("script", dir=str(ctx.work / f"b{n}"), script=SCRIPT, files={"m.cfg": t}, runs=[v], read=[])] for n, (w, t, v) in enumerate(bad)])):
        r = answer(a[0])
        ctx.transitions += 1
        if r["results"][0] in ("OK", "EXIT 0") or any(x.endswith(".gz") for x in r["listing"]):
            ctx.violation(what, f"generate_points, {what}: {r['results'][0]}, files {r['listing']}", {"configuration": text, "argv": argv})
    # topography that does not fit the blocks
    for extra in (-1, 1, 2, 3):
        c = next(x for x in fam if x.topo and len(x.blocks) == 1)
        g = c.grid(0)
        n = g[0] * g[1] + extra
        lines = "\n".join("0 0 1" for _ in range(n)) + "\n"
        r = answer(py.one([J("script", dir=str(ctx.work / f"t{extra}"), script=SCRIPT, files={"m.cfg": c.text(), "ground.txt": lines}, runs=[["--model=m.cfg", "--points=blocks"]], read=[])])[0])
        ctx.transitions += 1
        if r["results"][0] == "OK":
            ctx.violation(f"topography with {n} points", f"topography with {n} points is accepted for a block with {g[:2]} points", {"configuration": c.text(), "points": n})
    ctx.sample(fam[1].text())
    ctx.notes.update(configurations=len(fam), rule="states = configurations and topographies; transitions = points of the files")
