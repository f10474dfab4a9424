"""C23: geomodelgrids_info reports what the file holds, and its verification accepts exactly the valid models.

All layouts of a family (numbers of blocks, every mixture of uniform and variable axes, surfaces, coordinate systems,
numbers that need many digits) x all sets of options; every single defect of a finite list planted in several layouts;
all sequences of good and defective models up to a bound.  Oracle: the expected text computed from the model
specification, with numbers compared as numbers."""
import concurrent.futures
import copy
import functools
import itertools
import os
import re
import sys

import pyproj

from gmg import *
from apps import Runner, replay

sys.path.insert(0, str(VERIF / "checks"))
import c12
import c25

NUM = re.compile(r"[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|nan|inf)")


def g(v):
    return "%.12g" % v


def extent(ax):
    return ax.res * (ax.n - 1) if ax.coords is None else abs(ax.coords[-1] - ax.coords[0])


@functools.lru_cache(None)
def crs_units(crs):
    """Units of the axes, or None for an invalid system."""
    try:
        ax = pyproj.CRS.from_user_input(crs).axis_info
    except pyproj.exceptions.CRSError:
        return None
    u = [{"metre": "meter", "kilometre": "kilometer"}.get(a.unit_name, a.unit_name) for a in ax]
    return u + ["meter (assumed)"] * (3 - len(u))


@functools.lru_cache(None)
def to_wgs84(crs):
    return pyproj.Transformer.from_crs(crs, "EPSG:4326")


def bbox(s):
    t = math.radians(360.0 - s.azimuth)
    ca, sa = math.cos(t), math.sin(t)
    tr = to_wgs84(s.crs)
    return [tr.transform(s.origin[0] + dx * ca - dy * sa, s.origin[1] + dx * sa + dy * ca) for dx, dy in ((0, 0), (s.dims[0], 0), (s.dims[0], s.dims[1]), (0, s.dims[1]))]


def description(s):
    m = s.meta
    i = "    "
    out = [i + f"Title: {m['title']}", i + f"Id: {m['id']}", i + f"Description: {m['description']}", i + "Keywords: " + ", ".join(m["keywords"]), i + f"History: {m['history']}",
           i + f"Comment: {m['comment']}", i + f"Creator: {m['creator_name']}, {m['creator_institution']}, {m['creator_email']}", i + "Authors: " + "; ".join(m["authors"]), i + "References:"]
    out += [2 * i + r for r in m["references"]]
    out += [i + f"Acknowledgement: {m['acknowledgement']}", i + f"Repository: {m['repository_name']} {m['repository_url']}", i + f"DOI: {m['repository_doi']}", i + f"Version: {m['version']}", i + f"License: {m['license']}"]
    if m.get("auxiliary"):
        out += [i + f"Auxiliary information: {m['auxiliary']}"]
    out += [i + "Dimensions of model: " + ", ".join(f"{a}={g(v)}" for a, v in zip("xyz", s.dims))]
    out += [i + "Bounding box (WGS84): " + (" ".join("(%.12g, %.12g)" % tuple(p) for p in bbox(s)) if crs_units(s.crs) else "unknown")]
    return out


def coordsys(s):
    u = crs_units(s.crs) or ["unknown"] * 3
    i = "    "
    return [i + "Coordinate system:", 2 * i + f"CRS (PROJ, EPSG, WKT): {s.crs}", 2 * i + f"Coordinate system units: x={u[0]}, y={u[1]}, z={u[2]}",
            2 * i + f"Origin: x={g(s.origin[0])}, y={g(s.origin[1])}", 2 * i + f"Azimuth (degrees) of y axis from north: {g(s.azimuth)}"]


def values(s):
    i = "    "
    return [i + "Values stored in model:"] + [2 * i + f"{k}: {v} ({u})" for k, (v, u) in enumerate(zip(s.values, s.units))] + [2 * i + "Vertex-based data"]


def res(ax):
    return "variable" if ax.coords is not None else g(ax.res)


def blocks(s):
    i = "    "
    out = [i + "Surfaces"]
    for n, f in (("Top surface", s.top), ("Topography/bathymetry", s.topo)):
        out.append(2 * i + n + ":")
        out += [3 * i + "None"] if f is None else [3 * i + f"Number of points: x={f.x.n}, y={f.y.n}", 3 * i + f"Resolution: x={res(f.x)}, y={res(f.y)}"]
    out.append(i + f"Blocks ({len(s.blocks)})")
    for b in sorted(s.blocks, key=lambda b: -b.z_top):
        out += [2 * i + f"Block '{b.name}'", 3 * i + f"Resolution: x={res(b.x)}, y={res(b.y)}, z={res(b.z)}", 3 * i + f"Elevation of top of block in logical space: {g(b.z_top)}",
                3 * i + f"Number of points: x={b.x.n}, y={b.y.n}, z={b.z.n}", 3 * i + f"Dimensions: x={g(extent(b.x))}, y={g(extent(b.y))}, z={g(extent(b.z))}"]
    return out


SECTIONS = [("description", "-d", description), ("coordsys", "-c", coordsys), ("values", "-v", values), ("blocks", "-b", blocks)]


def verdicts(s):
    """What the verification has to find, from the definition: {item: [] or list of texts the failure must name}, None = not judged."""
    tol, out = 1e-6, {"metadata": []}
    u = crs_units(s.crs)
    out["model coordinate system"] = [s.crs[:20]] if u is None else [u[0], u[1]] if u[0] != u[1] else []

    def span(axes):
        return [a for a, ax, d in zip("xy", axes, s.dims) if not abs(extent(ax) - d) <= tol * abs(d)]
    for n, f in (("top surface", s.top), ("topography/bathymetry", s.topo)):
        if f is not None:
            out[f"surface '{n}'"] = [f"in the {a} dimension" for a in span((f.x, f.y))]
    if s.top and s.topo:
        pairs = list(zip((s.top.x, s.top.y), (s.topo.x, s.topo.y)))
        bad = [a for a, (p, q) in zip("xy", pairs) if p.coords is None and q.coords is None and abs(1 - p.res / q.res) > 1e-4]
        out["resolution of top surface"] = None if any((p.coords is None) != (q.coords is None) for p, q in pairs) else ["Resolution of top surface"] if bad else []
    bl = sorted(s.blocks, key=lambda b: -b.z_top)
    for b in bl:
        bad = [f"in the {a} dimension" for a in span((b.x, b.y))]
        if s.top:
            for ax, t in ((b.x, s.top.x), (b.y, s.top.y)):
                if ax.coords is None and t.coords is None and (round(ax.res / t.res) < 1 or abs(round(ax.res / t.res) * t.res - ax.res) > 1e-6):
                    bad.append("not an integer multiple")
        out[f"block '{b.name}'"] = bad
    v = []
    if not bl:
        v.append("not contain any blocks")
    else:
        if abs(bl[0].z_top) > 1e-4:
            v.append(f"Top block '{bl[0].name}' does not reach top")
        v += [f"between blocks '{p.name}'" for p, q in zip(bl, bl[1:]) if abs(p.z_bottom - q.z_top) > 1e-4]
        if abs(bl[-1].z_bottom + s.dims[2]) > 1e-4:
            v.append(f"Bottom block '{bl[-1].name}' does not reach bottom")
    out["blocks span vertical"] = v
    return out


def parse_verification(text):
    """[(item, ok, details)] of the verification printed."""
    out = []
    for l in text.split("\n"):
        m = re.match(r"        Verifying (.*?)\s*\.\.\.(OK|FAIL)?", l)
        if m:
            out.append([m.group(1), m.group(2) == "OK", "", l])
        elif out and l.strip():
            out[-1][2] += l + "\n"
    return out


def same(got, want, tol):
    if got == want:
        return True
    if NUM.sub("#", got) != NUM.sub("#", want):
        return False
    return all(x == y or close(float(x), float(y), tol, 0.0) for x, y in zip(NUM.findall(got), NUM.findall(want)))


def split_models(out, paths):
    """Output per model."""
    parts, pos = [], 0
    for i, p in enumerate(paths):
        h = f"Model: {p}\n"
        if not out.startswith(h, pos):
            return None
        start = pos + len(h)
        nxt = out.find(f"Model: {paths[i + 1]}\n", start) if i + 1 < len(paths) else len(out)
        if nxt < 0:
            return None
        parts.append(out[start:nxt])
        pos = nxt
    return parts


def compare_lines(got, want):
    gl, wl = got.split("\n"), "\n".join(want).split("\n")
    if gl and gl[-1] == "":
        gl.pop()
    for a, b in itertools.zip_longest(gl, wl, fillvalue="(nothing)"):
        if not same(a.rstrip(), b.rstrip(), 6e-6 if "Bounding box" in b else 1e-10):
            return a, b
    return None


# ---------------------------------------------------------------------------------------------------
def axis(kind, n, L, lo=0.0):
    """Axis with n nodes and extent L: 'u' uniform, 'v' variable coordinates."""
    if kind == "u":
        return Axis(n, L / (n - 1))
    c = [lo + L * (i / (n - 1)) ** 2 for i in range(n)]
    c[-1] = lo + L
    return Axis(coords=c)


def zaxis(kind, n, L, top):
    if kind == "u":
        return Axis(n, L / (n - 1))
    c = [top - L * (i / (n - 1)) ** 2 for i in range(n)]
    c[-1] = top - L
    return Axis(coords=c)


DIMS = [(60000.0, 120000.0, 45000.0), (100.0, 80.0, 60.0), (1234567.5, 7654321.25, 98765.4375), (0.7, 1.3, 2500.0), (3.0e7, 12.0, 1.0e-2 * 3)]


def layout(nb, kinds, dims, surf, skinds=("u", "u"), crs="EPSG:3311", origin=(200000.0, -400000.0), az=330.0, nval=2, names=None, **kw):
    """kinds: per axis pattern ('u'/'v'), alternated over blocks when three letters are followed by '*'."""
    X, Y, Z = dims
    cuts = [0.0, -Z] if nb == 1 else [0.0, -Z / 4, -Z] if nb == 2 else [0.0, -Z / 8, -Z / 2, -Z]
    bl = []
    for i in range(nb):
        k = kinds[:3] if not kinds.endswith("*") or i % 2 == 0 else "".join("uv"[c == "u"] for c in kinds[:3])
        nx, ny, nz = [(5, 9, 2), (3, 5, 3), (2, 3, 4)][i]
        shape = (nx, ny, nz, nval)
        bl.append(BlockSpec((names or ["top", "middle", "bottom"])[i], axis(k[0], nx, X, 7.0 * i), axis(k[1], ny, Y, -3.0 * i), zaxis(k[2], nz, cuts[i] - cuts[i + 1], cuts[i]), cuts[i], np.full(shape, 1.0 + i)))
    f = lambda h: SurfSpec(axis(skinds[0], 9, X), axis(skinds[1], 17, Y), np.full((9, 17), h))
    vn, vu = [("Vp", "m/s"), ("Density", "kg/m**3"), ("fault_block_id", "none")][:nval], None
    return ModelSpec(dims, bl, crs=crs, origin=origin, azimuth=az, values=[v for v, _ in vn], units=[u for _, u in vn], top=f(9.0) if "t" in surf else None, topo=f(3.0) if "b" in surf else None, **kw)


def good_models(quick):
    out = []
    pats = ["".join(p) for p in itertools.product("uv", repeat=3)]
    for nb in (1, 2, 3):
        for k in pats:
            for surf, sk in (("", "uu"), ("t", "uu"), ("tb", "vv"), ("tb", "uu"), ("b", "uv"), ("t", "vu")):
                if quick and (nb + pats.index(k)) % 2 and surf not in ("tb",):
                    continue
                out.append(layout(nb, k + "*" * (nb > 1), DIMS[0], surf, sk))
    origins = [(0.0, 0.0), (4184123.53125, -123456.789), (560000.001, 4121000.25), (1e-3, -1e7)]
    for dims, o, az, crs in itertools.product(DIMS, origins, (0.0, 37.5, -90.0, 359.999, 123.25, 215.5), ("EPSG:3311", "EPSG:26910", "EPSG:2227", "EPSG:26910+5703")):
        if (quick or az in (123.25, 215.5)) and (DIMS.index(dims) + origins.index(o)) % 2 or quick and az in (123.25, 215.5) and crs == "EPSG:26910+5703":
            continue
        out.append(layout(2, "uvu*", dims, "t", crs=crs, origin=o, az=az, nval=1 + len(crs) % 3))
    for crs, o in (("EPSG:4326", (37.25, -122.5)), ("EPSG:4269", (-35.0, 170.0)), ("EPSG:4326+5773", (37.25, -122.5)), ("+proj=utm +zone=10 +datum=WGS84", (5e5, 4e6)), (c25.FAMILY["wkt"], (1e5, -3e5)), (c25.FAMILY["bound"], (1e5, 2e5)), (c25.FAMILY["tmkm"], (1e3, 2e3))):
        out.append(layout(1, "uuu", (0.7, 1.3, 2500.0), "t", crs=crs, origin=o))
    txt = ["", " ", "%s {} \\n", "a: b", "x" * 3000, "caf\u00e9", "two\nlines", "[1, 2]"]
    for t in txt:
        for aux in ({}, {"auxiliary": t if t.strip() else '{"a": 1.5}'}):
            m = {k: (t if isinstance(v, str) else [t, "b", t]) for k, v in dict(META, **META_LISTS).items()}
            out.append(layout(1, "uuv", DIMS[1], "", meta=dict(m, **aux)))
    for n in (1, 2, 4):
        out.append(layout(1, "uuu", DIMS[1], "", meta={k: [f"{k} {i}" for i in range(n)] for k in META_LISTS}))
    # differences below the tolerance are accepted
    for rel in (1e-8, -3e-7):
        s = layout(3, "uvu*", DIMS[0], "tb")
        s.dims = [s.dims[0] * (1 + rel), s.dims[1] * (1 - rel), s.dims[2] + 3e-5]
        out.append(s)
    # names of blocks whose order differs from the order of elevation
    out.append(layout(3, "uuu", DIMS[0], "tb", names=["zz", "m", "a"]))
    out.append(layout(3, "vvv", DIMS[0], "tb", names=["b 1", "a'2", "block"]))
    return out


def geometry_defects(base):
    """(what, spec) with one thing wrong."""
    def mod(f):
        s = copy.deepcopy(base)
        f(s)
        return s

    def stretch(ax, k):
        return Axis(ax.n, ax.res * k) if ax.coords is None else Axis(coords=[ax.coords[0] + (c - ax.coords[0]) * k for c in ax.coords])

    def setax(o, a, ax, drop=None):
        setattr(o, a, ax)
        i = "xyz".index(a)
        shape = list(o.data.shape)
        shape[i] = ax.n
        o.data = np.resize(o.data, shape)
    out = []
    for i, a in enumerate("xyz"):
        for k in (0.5, 2.0, 1.0 + 1e-5, 1.0 - 1e-4, 0.0, -1.0, math.nan, math.inf):
            out.append((f"dim_{a} times {k}", mod(lambda s: s.dims.__setitem__(i, s.dims[i] * k))))
    objs = [(f"block {b.name}", lambda s, j=j: s.blocks[j], "xyz") for j, b in enumerate(base.blocks)]
    objs += [(n, lambda s, n=n: getattr(s, n), "xy") for n in ("top", "topo") if getattr(base, n)]
    for n, get, axes in objs:
        for a in axes:
            for k in (0.5, 2.0, 3.0, 1.0 + 1e-5, 0.9):
                out.append((f"{a} of {n} stretched by {k}", mod(lambda s: setattr(get(s), a, stretch(getattr(get(s), a), k)))))
            ax = getattr(get(base), a)
            if ax.coords is None:
                out.append((f"{a} of {n} one node more", mod(lambda s: setax(get(s), a, Axis(ax.n + 1, ax.res)))))
                out.append((f"{a} of {n} spans with one node more", mod(lambda s: setax(get(s), a, Axis(ax.n + 1, extent(ax) / ax.n)))))
                out.append((f"{a} of {n} spans with twice the intervals", mod(lambda s: setax(get(s), a, Axis(2 * ax.n - 1, ax.res / 2)))))
                out.append((f"{a} of {n} spans with 32 times the intervals", mod(lambda s: setax(get(s), a, Axis(32 * (ax.n - 1) + 1, ax.res / 32)))))
            else:
                sg = -1.0 if a == "z" else 1.0
                for w, c in (("first node moved", [ax.coords[0] - 5.0 * sg] + ax.coords[1:]), ("last node moved", ax.coords[:-1] + [ax.coords[-1] + 5.0 * sg]), ("shifted", [c + 5.0 for c in ax.coords]),
                             ("one node more", ax.coords + [ax.coords[-1] + 5.0 * sg]), ("another inner node", sorted(ax.coords + [0.7 * ax.coords[0] + 0.3 * ax.coords[-1]], reverse=a == "z"))):
                    def f(s, c=c):
                        setax(get(s), a, Axis(coords=c))
                        if a == "z":
                            get(s).z_top = c[0]
                    out.append((f"{a} of {n}: {w}", mod(f)))
            # other kind of axis with the same extent
            if a != "z":
                def other(s):
                    setax(get(s), a, axis("v" if ax.coords is None else "u", 3, extent(ax)))
                out.append((f"{a} of {n} of the other kind", mod(other)))
    for j, b in enumerate(base.blocks):
        if b.z.coords is None:
            for d in (1.0, -1.0, 1e-3, -2e-4, 5e-5, 5000.0, -5000.0):
                out.append((f"z_top of {b.name} moved by {d}", mod(lambda s: setattr(s.blocks[j], "z_top", s.blocks[j].z_top + d))))
        out.append((f"no block {b.name}", mod(lambda s: s.blocks.pop(j))))
        def dup(s):
            c = copy.deepcopy(s.blocks[j])
            c.name = "copy"
            s.blocks.append(c)
    out.append(("no blocks at all", mod(lambda s: s.blocks.clear())))
    for crs in ("EPSG:999999", "not a system", " ", c25.WKT_MIXED):
        out.append((f"crs {crs[:20]}", mod(lambda s: setattr(s, "crs", crs))))
    return out


def judge(ctx, s, text, desc, key, rep):
    """Verification of a model whose metadata are complete."""
    want = verdicts(s)
    got = parse_verification(text)
    names = [x[0] for x in got]
    left = dict(want)
    for item, ok, detail, line in got:
        k = next((k for k in left if item.startswith(k)), None)
        if k is None:
            ctx.violation(f"{key} extra", f"{desc}: the verification has an unexpected item {line!r}", rep)
            continue
        w = left.pop(k)
        ctx.transitions += 1
        if w is None:
            continue
        if ok != (not w):
            ctx.violation(f"{key} {k}", f"{desc}: verification says {line.strip()!r}, {'must fail naming ' + str(w) if w else 'must pass'}; {detail.strip()}", rep)
            continue
        for x in w:
            if x not in detail and x not in line:
                ctx.violation(f"{key} {k} names", f"{desc}: {line.strip()!r} fails for {w}, but the text is {detail.strip()!r}", rep)
                break
        stray = [l.strip() for l in detail.split("\n") if l.strip() in ("OK", "FAIL")]
        also = [x for x in re.findall(r"in the [xyz] dimension", detail) if x not in w] if k.split()[0] in ("block", "surface") and k != "blocks span vertical" else []
        if stray or also or (not w and detail.strip()):
            ctx.violation(f"{key} {k} stray", f"{desc}: {line.strip()!r} is followed by {detail.strip()!r}, expected {w or 'nothing'}", rep)
            continue
        if w:
            for lab, num, dom in re.findall(r"in the ([xy]) dimension \((?:surface|block)=(\S+), domain=(\S+)\)", detail):
                i = "xy".index(lab)
                o = next((b for b in s.blocks if k == f"block '{b.name}'"), None) or (s.top if "top surface" in k else s.topo)
                ax = (o.x, o.y)[i]
                same_dom = dom == "nan" if math.isnan(s.dims[i]) else close(float(dom), s.dims[i], 1e-10)
                if not (close(float(num), extent(ax), 1e-10) and same_dom):
                    block = k.startswith("block") and ax.coords is None and same_dom and close(float(num), ax.res * ax.n, 1e-10)
                    ctx.violation("extent of block in failure message" if block else f"{key} {k} numbers", f"{desc}: {line.strip()!r} says extent {num} and domain {dom}, they are {extent(ax)} and {s.dims[i]}", rep)
            for zb, zt in re.findall(r"zBottom=(\S+)\) and '.*?' \(zTop=(\S+?)\)", detail):
                bl = sorted(s.blocks, key=lambda b: -b.z_top)
                if not any(close(float(zb), p.z_bottom, 1e-10) and close(float(zt), q.z_top, 1e-10) for p, q in zip(bl, bl[1:])):
                    ctx.violation(f"{key} {k} gap", f"{desc}: {detail.strip()!r} does not describe a gap of the model", rep)
    if left:
        ctx.violation(f"{key} missing", f"{desc}: the verification lacks {sorted(left)}; has {names}", rep)


def sections(text):
    """Split the text after the verification: returns (verification text, rest)."""
    if text.startswith("    Verification\n"):
        i = re.search(r"\n    (?=\S)", text)
        return (text[:i.start() + 1], text[i.start() + 1:]) if i else (text, "")
    return "", text


def check(ctx):
    drv = ctx.driver()
    run = Runner(ctx, drv)
    models = good_models(ctx.quick)
    paths = [s.write(str(ctx.work / f"good{i}.h5"), strings="vlen" if any(v == "" or not str(v).isascii() for v in s.meta.values()) or " " in str(s.meta["title"])[:1] else "fixed") for i, s in enumerate(models)]
    # 1. everything, for every layout
    jobs = [("info", ["--all", f"--models={p}"]) for p in paths]
    for s, p, j, (rc, out, err, _) in zip(models, paths, jobs, run(jobs)):
        ctx.nstates += 1
        ctx.traces += 1
        desc = f"model {os.path.basename(p)} ({len(s.blocks)} blocks, dims {s.dims}, crs {s.crs[:40]})"
        rep = dict(replay(j), files=[p])
        parts = split_models(out or "", [p]) if rc == 0 else None
        if not parts:
            ctx.violation(f"good {p} rc", f"{desc}: geomodelgrids_info --all: exit code {rc}, stderr {err!r}", rep)
            continue
        ver, rest = sections(parts[0])
        judge(ctx, s, ver, desc, f"good {os.path.basename(p)}", rep)
        d = compare_lines(rest, [l for _, _, f in SECTIONS for l in f(s)])
        ctx.transitions += rest.count("\n")
        if d:
            ctx.violation(f"good {os.path.basename(p)} text", f"{desc}: prints {d[0]!r}, expected {d[1]!r}", rep)
    # 2. every set of options, in two orders of giving them
    sel = [0, len(models) // 2, len(models) - 1]
    jobs, want = [], []
    for i in sel:
        for k in range(1, 6):
            for opts in itertools.permutations(["description", "coordsys", "values", "blocks", "verify"], k):
                if ctx.quick and k > 2 and opts != tuple(sorted(opts)) and opts != tuple(sorted(opts, reverse=True)):
                    continue
                for short in (False, True):
                    flags = [dict((n, f) for n, f, _ in SECTIONS).get(o) if short and o != "verify" else f"--{o}" for o in opts]
                    jobs.append(("info", flags + [f"--models={paths[i]}"] if len(opts) % 2 else [f"--models={paths[i]}"] + flags))
                    want.append((i, opts))
    for (i, opts), j, (rc, out, err, _) in zip(want, jobs, run(jobs)):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += 1
        s = models[i]
        rep = dict(replay(j), files=[paths[i]])
        parts = split_models(out or "", [paths[i]]) if rc == 0 else None
        if not parts:
            ctx.violation(f"options {opts} rc", f"options {j[1]}: exit code {rc}, {err!r}", rep)
            continue
        ver, rest = sections(parts[0])
        if bool(ver) != ("verify" in opts):
            ctx.violation(f"options {opts} verify", f"options {j[1]}: verification is {'printed' if ver else 'missing'}", rep)
        elif ver:
            judge(ctx, s, ver, f"options {j[1]}", f"options {opts}", rep)
        d = compare_lines(rest, [l for n, _, f in SECTIONS if n in opts for l in f(s)])
        if d and (rest or any(n in opts for n, _, _ in SECTIONS)):
            ctx.violation(f"options {opts} text", f"options {j[1]}: prints {d[0]!r}, expected {d[1]!r}", rep)
    # 3. defects
    bases = [layout(3, "uuu", DIMS[0], "tb"), layout(3, "vvv", DIMS[0], "tb", "vv"), layout(2, "uvu*", DIMS[0], "t", "uv"), layout(2, "uuv*", DIMS[0], "", az=0.0), layout(1, "uuu", DIMS[2], "b")]
    if not ctx.quick:
        bases += [layout(nb, k + "*", DIMS[2], surf, sk) for nb in (1, 3) for k in ("uuu", "vuv", "uvv") for surf, sk in (("tb", "uu"), ("tb", "vv"), ("b", "uu"))]
    jobs, want = [], []
    for bi, base in enumerate(bases):
        for di, (what, s) in enumerate(geometry_defects(base)):
            p = str(ctx.work / f"bad{bi}_{di}.h5")
            jobs.append(("info", ["--all" if di % 2 else "--verify", f"--models={p}"]))
            want.append((bi, what, s, p, di % 2))
    nfail = 0
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        list(ex.map(write, [(s, p) for _, _, s, p, _ in want], chunksize=32))
    for (bi, what, s, p, al), j, (rc, out, err, _) in zip(want, jobs, run(jobs)):
        ctx.nstates += 1
        ctx.traces += 1
        rep = dict(replay(j), files=[p])
        desc = f"layout {bi} with {what}"
        parts = split_models(out or "", [p]) if rc == 0 else None
        if not parts:
            ctx.violation(f"defect {bi} {what} rc", f"{desc}: geomodelgrids_info: exit code {rc}, {err!r}", rep)
            continue
        ver, rest = sections(parts[0])
        nfail += any(v for v in verdicts(s).values())
        judge(ctx, s, ver, desc, f"defect {bi} {what}", rep)
        if al and all(math.isfinite(x) for x in s.dims):
            d = compare_lines(rest, [l for _, _, f in SECTIONS for l in f(s)])
            if d:
                ctx.violation(f"defect {bi} {what} text", f"{desc}: prints {d[0]!r}, expected {d[1]!r}", rep)
    # 4. defective metadata: the verification fails, names the defect, and the program reports what is there and goes on
    good = layout(1, "uuu", DIMS[1], "t")
    gp = good.write(str(ctx.work / "after.h5"))
    jobs, want = [], []
    for kind in ("uniform", "variable", "mixed", "bare"):
        spec = c12.spec_for(kind)
        base = spec.write(str(ctx.work / f"m_{kind}.h5"))
        ds = [(n, msgs, f) for n, msgs, f in c12.defects(spec)] + [(n, None, f) for n, f in c12.structural(spec)]
        for k, (n, msgs, f) in enumerate(ds):
            p = c12.make((base, str(ctx.work / f"m_{kind}{k}.h5"), [f]))
            for mode in ("--all", "--verify", "-dcvb") if not ctx.quick else ("--all", "-dcvb") if k % 2 else ("--verify", "--all"):
                jobs.append(("info", [mode, f"--models={p},{gp}"]))
                want.append((kind, n, msgs, p, mode, spec))
    for (kind, n, msgs, p, mode, spec), j, (rc, out, err, _) in zip(want, jobs, run(jobs)):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += 1
        rep = dict(replay(j), files=[p, gp])
        desc = f"{kind} model with defect {n!r}, {mode}"
        parts = split_models(out or "", [p, gp]) if rc == 0 else None
        if not parts:
            ctx.violation(f"metadata {kind} {n} {mode} rc", f"{desc}, followed by a good model: exit code {rc}, stderr {err!r}, output {(out or '')[-300:]!r}", rep)
            continue
        t = parts[0]
        if mode == "-dcvb":
            bad = "WARNING" not in t
            detail = t.split("    Title:")[0]
        else:
            ver = parse_verification(sections(t)[0])
            bad = not ver or ver[0][0] != "metadata" or ver[0][1]
            detail = ver[0][2] if ver else ""
        names = [x for alt in msgs or [] for x in alt]
        if bad or (names and not any(x in detail for x in names)) or not detail.strip():
            ctx.violation(f"metadata {kind} {n} {mode}", f"{desc}: the defect is not reported: {detail!r}", rep)
        # the description that is there
        if mode != "--verify" and n.startswith("no /"):
            for l in description(dict_spec(spec, n[4:])):
                if "Bounding box" not in l and "Dimensions" not in l and not any(same(l.rstrip(), x.rstrip(), 1e-10) for x in t.split("\n")):
                    ctx.violation(f"metadata {kind} {n} text", f"{desc}: {l!r} is not in the output", rep)
                    break
        ver, rest = sections(parts[1])
        if mode != "-dcvb":
            judge(ctx, good, ver, f"good model after {desc}", f"after {kind} {n}", rep)
        d = compare_lines(rest, [l for _, _, f in SECTIONS for l in f(good)]) if mode != "--verify" else None
        if d:
            ctx.violation(f"after {kind} {n} text", f"good model after {desc}: prints {d[0]!r}, expected {d[1]!r}", rep)
    # 5. sequences of models
    bad1 = c12.make((paths[0], str(ctx.work / "seq_bad1.h5"), [lambda h5: [h5.attrs.__delitem__(a) for a in list(h5.attrs)]]))
    s2 = copy.deepcopy(good)
    s2.crs = "EPSG:999999"
    fam = [paths[0], paths[len(paths) // 2], gp, bad1, s2.write(str(ctx.work / "seq_bad2.h5"))]
    # the text PROJ adds to the message depends on earlier calls
    norm = lambda t: re.sub(r"(Error creating CRS from '.*?'\.)\n.*\n", r"\1\n", t or "")
    single = {}
    for opt in ("--all", "-dcvb", "--verify", "--values"):
        for f, (rc, out, err, _) in zip(fam, run([("info", [opt, f"--models={f}"]) for f in fam])):
            single[opt, f] = norm(out)
    seqs = [q for k in (2, 3) for q in itertools.product(fam, repeat=k)]
    jobs = [("info", [opt, "--models=" + ",".join(q)]) for q in seqs for opt in ("--all", "-dcvb", "--verify", "--values")]
    for j, (rc, out, err, _) in zip(jobs, run(jobs)):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += 1
        q = j[1][1][9:].split(",")
        w = "".join(single[j[1][0], f] for f in q)
        if rc != 0 or norm(out) != w:
            ctx.violation(f"sequence {j[1][0]} {[os.path.basename(f) for f in q]}", f"{j[1][0]} of {[os.path.basename(f) for f in q]}: exit code {rc}; the output is not that of the single models one after the other: {(out or '')[:600]!r}", dict(replay(j), files=q))
    ctx.sample("layout of 3 uniform blocks, y of block middle spans with one node more: not an integer multiple of the top surface resolution")
    ctx.notes.update(rule="states = (file, options, preceding files)", defective_models=nfail, driver_commands=drv.commands)


def write(job):
    return job[0].write(job[1])


def dict_spec(spec, missing):
    """Specification with the missing root attribute empty (what the program can print)."""
    s = copy.deepcopy(spec)
    if missing in s.meta:
        s.meta[missing] = [] if isinstance(s.meta[missing], (list, tuple)) else ""
    if missing == "crs":
        s.crs = "EPSG:3311"
    return s
