"""C22: GeoTIFF rasters round-trip."""
import itertools
import os

import pyproj
from osgeo import gdal

from gmg import *

gdal.UseExceptions()
CRS = ["EPSG:4326", "EPSG:3311", "EPSG:26910", "EPSG:2229", "EPSG:4269", "EPSG:4979", "EPSG:26910+5703", "+proj=tmerc +datum=WGS84 +lon_0=-122 +lat_0=36 +k=0.9996 +units=m",
       "+proj=tmerc +datum=WGS84 +lon_0=-122 +lat_0=36 +k=0.9996 +units=m +type=crs", "+proj=longlat +datum=WGS84", "EPSG:3857", "EPSG:32733", "+proj=utm +zone=10 +datum=NAD83 +units=km"]
BBOX = [(0.0, 1.0, 0.0, 1.0), (-117.7, -117.3, 34.6, 34.8), (-10.5, -10.25, -3.0, 7.0), (500000.0, 500123.4, 4000000.0, 4000001.0), (-1e-3, 1e-3, -1e-6, 5e-6), (0.0, 0.3, -0.7, -0.1), (10.0, 20.0, -30.0, -10.0)]
LABELS = ["one=1000", "Vs=2.5", "", "two words", "d\u00e9j\u00e0 vu", "a<b>&\"c'", "x" * 300, "band"]
NODATAS = [NODATA, 0.0, -9999.0, 1e10, -1.5]
POINTS = {"geo": [(-120.5, 37.25), (-117.0, 34.0)]}


def f32(v):
    return float(np.float32(v))


def same_crs(wkt, want):
    d = want + " +type=crs" if "proj=" in want and "type=crs" not in want else want
    try:
        a, b = pyproj.CRS.from_user_input(wkt), pyproj.CRS.from_user_input(d)
        for p in POINTS["geo"]:
            ta = pyproj.Transformer.from_crs(pyproj.CRS("EPSG:4267").to_wkt(), a, always_xy=True).transform(*p)
            tb = pyproj.Transformer.from_crs(pyproj.CRS("EPSG:4267").to_wkt(), b, always_xy=True).transform(*p)
            if not all(abs(x - y) <= 1e-6 * max(1.0, abs(y)) for x, y in zip(ta, tb)):
                return False
        return [x.unit_name.replace("meter", "metre") for x in a.axis_info[:2]] == [x.unit_name.replace("meter", "metre") for x in b.axis_info[:2]] or abs(a.axis_info[0].unit_conversion_factor - b.axis_info[0].unit_conversion_factor) < 1e-9
    except pyproj.exceptions.ProjError:
        return False


_same = {}


def same(wkt, want):
    if (wkt, want) not in _same:
        _same[(wkt, want)] = same_crs(wkt, want)
    return _same[(wkt, want)]


def setup(g, size, labels, crs, bbox, nodata=None):
    r, c, b = size
    s = [T("g.size", g, r, c, b), T("g.labels", g, *L(labels)), T("g.crs", g, crs), T("g.bbox", g, *bbox)]
    if nodata is not None:
        s.append(T("g.nodata", g, nodata))
    return s


def near(a, b, scale):
    return abs(a - b) <= 1e-9 * scale


def compare(ans, size, labels, crs, bbox, vals):
    """Answer of g.get against what was written."""
    r, c, b = size
    if ans[0] != "OK":
        return f"{list(ans)[:3]}"
    if [int(x) for x in ans[1:4]] != [r, c, b]:
        return f"size {ans[1:4]}"
    n = int(ans[4])
    if list(ans[5:5 + n]) != list(labels):
        return f"labels {ans[5:5 + n]}, expected {list(labels)}"
    if not same(ans[5 + n], crs):
        return f"coordinate system {ans[5 + n][:200]!r}, expected {crs}"
    got = [float(x) for x in ans[6 + n:10 + n]]
    sx, sy = max(1e-12, abs(bbox[0]), abs(bbox[1])), max(1e-12, abs(bbox[2]), abs(bbox[3]))
    if not all(near(x, y, s) for x, y, s in zip(got, bbox, (sx, sx, sy, sy))):
        return f"bounding box {got}, expected {bbox}"
    if vals is not None:
        m = int(ans[10 + n])
        v = [float(x) for x in ans[11 + n:11 + n + m]]
        if len(v) != len(vals) or any(not (x == y or (x != x and y != y)) for x, y in zip(v, vals)):
            return f"values {v[:12]}, expected {vals[:12]}"
    return None


def outside(path, size, labels, crs, bbox, nodata, vals):
    """The file as other software reads it."""
    r, c, b = size
    try:
        d = gdal.Open(path)
    except RuntimeError as e:
        return f"cannot be opened: {e}"
    if (d.RasterYSize, d.RasterXSize, d.RasterCount) != (r, c, b):
        return "size"
    gt = d.GetGeoTransform()
    want = (bbox[0], (bbox[1] - bbox[0]) / c, 0.0, bbox[3], 0.0, -(bbox[3] - bbox[2]) / r)
    if not all(abs(x - y) <= 1e-9 * max(abs(y), 1e-9) for x, y in zip(gt, want)):
        return f"geographic transformation {gt}, expected {want}"
    if not same(d.GetProjection(), crs):
        return f"coordinate system {d.GetProjection()[:200]!r}, expected {crs}"
    for k in range(b):
        bd = d.GetRasterBand(k + 1)
        if bd.GetDescription() != labels[k]:
            return f"label of band {k} {bd.GetDescription()!r}"
        if bd.DataType != gdal.GDT_Float32 or bd.GetNoDataValue() is None or not near(bd.GetNoDataValue(), f32(nodata), abs(nodata)):
            return f"no-data value {bd.GetNoDataValue()} type {bd.DataType}"
        a = bd.ReadAsArray()
        if vals is not None and not np.array_equal(a.ravel(), np.array(vals[k * r * c:(k + 1) * r * c], dtype=np.float32), equal_nan=True):
            return f"values of band {k} {a.tolist()}"
    return None


def check(ctx):
    drv = ctx.driver()
    w = ctx.work
    n = [0]

    def path():
        n[0] += 1
        return str(w / f"r{n[0]}.tiff")

    # ---- every shape, box, coordinate system, label and no-data value
    M = 3 if ctx.quick else 7
    shapes = [(r, c, b) for r, c, b in itertools.product(range(1, M + 1), range(1, M + 1), (1, 2, 3))]
    if not ctx.quick:
        shapes += [(257, 3, 1), (1, 1000, 2), (300, 300, 1), (2, 2, 40)]
    else:
        shapes += [(300, 2, 1), (2, 1500, 1), (2100, 2, 1), (70, 70, 2), (2, 2, 20)]
    cases = []
    for s, bb in itertools.product(shapes, BBOX if not ctx.quick else BBOX[:5]):
        cases.append((s, [LABELS[k % 2] for k in range(s[2])], "EPSG:26910", bb, None))
    for crs, bb, s in itertools.product(CRS, BBOX, [(2, 3, 2)] if ctx.quick else [(1, 1, 1), (2, 3, 2), (5, 2, 1)]):
        cases.append((s, ["a", "b"][:s[2]], crs, bb, None))
    for la, lb in itertools.product(LABELS, LABELS):
        cases.append(((2, 1, 2), [la, lb], "EPSG:3311", BBOX[1], None))
    for nd, s, crs in itertools.product(NODATAS, [(1, 2, 1), (2, 2, 3)], CRS[:3]):
        cases.append((s, ["l"] * s[2], crs, BBOX[0], nd))
    scripts, meta = [], []
    for k, (s, lab, crs, bb, nd) in enumerate(cases):
        f = path()
        start = k % 97 - 50.25
        vals = [f32(start + i) for i in range(s[0] * s[1] * s[2])]
        scripts.append([T("g.new", "w")] + setup("w", s, lab, crs, bb, nd) + [T("g.create", "w", f), T("g.fill", "w", start), T("g.write", "w"), T("g.close", "w"), T("g.new", "r"), T("g.read", "r", f), T("g.get", "r")])
        meta.append((f, vals))
    for case, scr, (f, vals), ans in zip(cases, scripts, meta, drv.run(scripts)):
        s, lab, crs, bb, nd = case
        ctx.nstates += 1
        ctx.transitions += len(scr)
        ctx.traces += 1
        fail = next((f"step {scr[i].split(chr(9))[0]}: {list(a)}" for i, a in enumerate(ans) if a[0] != "OK"), None)
        bad = fail or compare(ans[-1], s, lab, crs, bb, vals) or outside(f, s, lab, crs, bb, NODATA if nd is None else nd, vals)
        if bad:
            ctx.violation(f"roundtrip {case}", f"raster of {s[0]} rows, {s[1]} columns, {s[2]} bands, {crs}, box {bb}, labels {[x[:20] for x in lab]}: {bad}", {"script": scr, "files": [f]})
        elif os.path.exists(f):
            os.unlink(f)

    # ---- all operation histories of one and two objects
    A = ((2, 3, 1), ["one=1"], "EPSG:3311", BBOX[2])
    B = ((1, 2, 2), ["p", "q"], "EPSG:4326", BBOX[1])
    base = {}
    for nm, cfg in (("f0", A), ("g0", B)):
        f = base[nm] = path()
        drv.one([T("g.new", "w")] + setup("w", *cfg) + [T("g.create", "w", f), T("g.fill", "w", 5.5), T("g.write", "w"), T("g.close", "w")])
    notiff = str(w / "not.tiff")
    open(notiff, "w").write("not an image")
    ops = ["sizeA", "sizeB", "size0", "labels1", "labels2", "create1", "create2", "createX", "fill", "write", "read0", "read1", "readX", "readM", "close", "crsX"]

    class Obj:
        """What one raster object is expected to hold."""
        def __init__(self):
            self.size, self.labels, self.crs, self.bbox, self.mode, self.path, self.buf, self.fill = (0, 0, 0), [], "", None, None, None, None, 100.5

    def apply(o, op, g, paths, files):
        """Returns (commands, expectations: OK, EXC or None for unspecified) or None when the outcome is not specified."""
        if op in ("sizeA", "sizeB"):
            cfg = A if op == "sizeA" else B
            if o.size != cfg[0]:
                o.buf = None
            o.size, o.labels, o.crs, o.bbox = cfg
            return setup(g, *cfg), ["OK"] * 4
        if op == "size0":
            return [T("g.size", g, 0, 1, 1)], ["EXC"]
        if op.startswith("labels"):
            lab = ["x", "y"][:int(op[-1])]
            if len(lab) != o.size[2]:
                return [T("g.labels", g, *L(lab))], ["EXC"]
            o.labels = lab
            return [T("g.labels", g, *L(lab))], ["OK"]
        if op == "crsX":
            o.crs = "EPSG:999999"
            return [T("g.crs", g, o.crs)], ["OK"]
        if op.startswith("create"):
            p = str(w / "no" / "dir.tiff") if op == "createX" else paths[int(op[-1])]
            if o.mode == "w" and o.path:
                files[o.path]["open"] = False
            o.mode = o.path = o.buf = None
            if op == "createX" or 0 in o.size or len(o.labels) != o.size[2] or not o.crs or o.crs == "EPSG:999999":
                if op != "createX" and p in files:
                    return None  # whether the old file survives is not specified
                return [T("g.create", g, p)], ["EXC"]
            if files.get(p, {}).get("open"):
                return None
            o.mode, o.path = "w", p
            files[p] = {"cfg": (o.size, list(o.labels), o.crs, o.bbox), "vals": None, "open": True}
            return [T("g.create", g, p)], ["OK"]
        if op == "fill":
            if 0 in o.size:
                return None
            o.fill += 1000.0
            n = o.size[0] * o.size[1] * o.size[2]
            o.buf = [f32(o.fill + i) for i in range(n)]
            return [T("g.fill", g, o.fill)], ["OK"]
        if op == "write":
            if o.mode != "w" or o.buf is None or files[o.path]["cfg"][0] != o.size:
                if o.mode == "w" and o.buf is not None:
                    return None  # size changed between create() and write(): not specified
                return [T("g.write", g)], ["EXC"]
            files[o.path]["vals"] = list(o.buf)
            return [T("g.write", g)], ["OK"]
        if op.startswith("read"):
            p = {"read0": base["f0"], "read1": paths[1], "readX": str(w / "missing.tiff"), "readM": notiff}[op]
            if o.mode == "w":
                files[o.path]["open"] = False
            o.mode = o.path = o.buf = None
            if p in files and files[p]["open"]:
                return None
            if op == "read0":
                o.size, o.labels, o.crs, o.bbox = A
                o.buf, o.mode = [5.5 + i for i in range(6)], "r"
                return [T("g.read", g, p)], ["OK"]
            if p in files:
                o.size, o.labels, o.crs, o.bbox = files[p]["cfg"]
                o.buf, o.mode = files[p]["vals"] or "any", "r"
                return [T("g.read", g, p)], ["OK"]
            return [T("g.read", g, p)], ["EXC"]
        if op == "close":
            if o.mode == "w":
                files[o.path]["open"] = False
            o.mode = o.path = o.buf = None
            return [T("g.close", g)], ["OK"]

    def history(k, seq):
        """seq of (object, op).  Returns (script, checks) or None."""
        objs = {"a": Obj(), "b": Obj()}
        used = sorted({g for g, _ in seq})
        paths = {g: {1: str(w / f"h{k}{g}1.tiff"), 2: str(w / f"h{k}{g}2.tiff")} for g in "ab"}
        files = {}
        scr = [T("x.rm", p) for g in used for p in paths[g].values()] + [T("g.new", g) for g in used]
        exp = [None] * (len(scr))
        for g, op in seq:
            r = apply(objs[g], op, g, paths[g], files)
            if r is None:
                return None
            scr += r[0]
            exp += [(e, f"{op} of object {g}", None) for e in r[1]]
        tail = []
        for g in used:
            o = objs[g]
            if o.bbox is not None and o.crs not in ("", "EPSG:999999") and o.buf not in (None, "any"):
                tail.append((T("g.get", g), ("OK", "get", (o.size, list(o.labels), o.crs, o.bbox, list(o.buf)))))
        for g in used:
            tail.append((T("g.close", g), ("OK", "close", None)))
        for p, fl in files.items():
            tail.append((T("g.new", "z"), None))
            tail.append((T("g.read", "z", p), ("OK", f"read {os.path.basename(p)}", None)))
            tail.append((T("g.get", "z"), ("OK", f"get {os.path.basename(p)}", fl["cfg"] + (fl["vals"],))))
            tail.append((T("g.close", "z"), None))
            tail.append((T("x.rm", p), None))
        return scr + [t[0] for t in tail], exp + [t[1] for t in tail]

    def run(hist, label):
        todo = []
        for seq in hist:
            h = history(len(todo) % 4096, seq)
            if h:
                todo.append((seq, h))
        for i in range(0, len(todo), 4096):
            part = todo[i:i + 4096]
            for (seq, (scr, exp)), ans in zip(part, drv.run([h[0] for _, h in part])):
                ctx.nstates += 1
                ctx.traces += 1
                ctx.transitions += len(scr)
                bad = None
                for s, e, a in zip(scr, exp, ans):
                    if a[0] in ("CRASH", "SKIP"):
                        bad = f"{s.split(chr(9))[0]}: {list(a)}"
                        break
                    if not e:
                        continue
                    if a[0] != e[0]:
                        bad = f"{e[1]}: {list(a)[:4]}, expected {e[0]}"
                        break
                    if e[2]:
                        bad = compare(a, *e[2])
                        if bad:
                            bad = f"{e[1]}: {bad}"
                            break
                if not bad and len(ans) > len(scr):
                    bad = str(ans[-1])
                if bad:
                    ctx.violation(f"history {seq}", f"{label}: {' '.join(f'{g}.{o}' for g, o in seq)}: {bad}", {"script": scr, "files": []})
        return len(todo)
    hist = []
    for pre, q, t in (((), 2, 4), (("sizeA",), 2, 4), (("sizeB", "create1"), 3, 3), (("sizeA", "create2", "fill"), 2, 4), (("sizeB", "create1", "fill", "write", "close"), 2, 3)):
        for d in range(1, (q if ctx.quick else t) + 1):
            for seq in itertools.product(ops, repeat=d):
                hist.append([("a", o) for o in pre + seq])
    one = run(hist, "one object")
    # two objects: every interleaving of two life cycles
    lives = [["sizeA", "create1", "fill", "write", "close"], ["read0", "close", "read0"], ["sizeB", "create1", "fill", "write", "create2", "fill", "write"], ["readX", "sizeA", "create1"], ["sizeA", "create1", "fill", "write", "close", "read1", "close"]]
    hist = []
    for la, lb in itertools.product(lives, lives):
        if ctx.quick and len(la) + len(lb) > 11:
            continue
        for pos in itertools.combinations(range(len(la) + len(lb)), len(la)):
            ia, ib, seq = iter(la), iter(lb), []
            for i in range(len(la) + len(lb)):
                seq.append(("a", next(ia)) if i in pos else ("b", next(ib)))
            hist.append(seq)
    two = run(hist, "two objects")

    # ---- a disk that fills up after any number of bytes
    full = 0
    large = ((40, 30, 2), ["p", "q"], "EPSG:4326", BBOX[1])
    for cfg in (A, B, large):
        f = path()
        mk = setup("w", *cfg)
        body = lambda f, lim: [T("g.new", "w")] + mk + [("" if lim is None else f"lim\t{lim}\t") + x for x in (T("g.create", "w", f), T("g.fill", "w", 7.5), T("g.write", "w"), T("g.close", "w"))]
        drv.one(body(f, None))
        size = os.path.getsize(f)
        limits = list(range(0, size + 2)) if not ctx.quick else sorted(set(range(0, size + 2, 5)) | set(range(size - 20, size + 2)))
        if cfg is large and ctx.quick:
            limits = limits[::40]
        tail = lambda f: [T("g.new", "r"), T("g.read", "r", f), T("g.get", "r"), T("x.rm", f)]
        scr = [body(str(w / f"lim{k % 64}-{k}.tiff"), k) + tail(str(w / f"lim{k % 64}-{k}.tiff")) for k in limits]
        vals = [7.5 + i for i in range(cfg[0][0] * cfg[0][1] * cfg[0][2])]
        for k, s, ans in zip(limits, scr, drv.run(scr)):
            ctx.nstates += 1
            ctx.traces += 1
            full += 1
            crash = next((list(a) for a in ans if a[0] in ("CRASH",)), None)
            nset = 1 + len(mk)
            steps = [a[0] for a in ans[nset:nset + 4]]
            complete = ans[nset + 5][0] == "OK" and compare(ans[nset + 6], *cfg, vals) is None
            bad = None
            if crash:
                bad = f"{crash}"
            elif "EXC" not in steps and not complete:
                bad = f"all steps succeed but the file is {'unreadable' if ans[nset + 5][0] != 'OK' else compare(ans[nset + 6], *cfg, vals)}"
            elif k >= size + 1 and "EXC" in steps:
                bad = f"steps {steps} although there is room"
            if bad:
                key = f"full disk {cfg[0]} {k}"
                if cfg is large and not crash and steps == ["OK"] * 4 and 600 <= k < size - 40 and ans[nset + 5][0] != "OK":
                    key = "full disk inside the values of the 40x30x2 raster"  # see known_findings.json
                ctx.violation(key, f"disk full after {k} of {size} bytes: {bad}", {"script": s, "files": []})
    ctx.sample("write 2x3 raster of 2 bands in EPSG:4326, close, read with a second object")
    ctx.notes.update(rule="states = (raster configurations) + (operation histories of one and two objects) + (truncation points of the written file)", histories_one_object=one, histories_two_objects=two, truncation_points=full, driver_commands=drv.commands)
