"""C28: the way a model file is stored does not matter.

One model is written in every combination of physical forms (number type and byte order of the datasets; contiguous, chunked,
compressed, filtered, resizable; kind of text; number type of the attributes; order of objects and attributes, file format
version, attribute storage, links) and read by the real library: description and answers must be identical in every form."""
import concurrent.futures
import itertools
import multiprocessing

import h5py
import numpy as np

from gmg import *

np.seterr(all="ignore")

NUM = {"f8": "<f8", "f8be": ">f8", "f4": "<f4", "f4be": ">f4", "i2": "<i2", "i4be": ">i4", "i8": "<i8", "u4": None, "f2": "<f2"}
STORE = {
    "contiguous": {}, "chunk1": dict(chunks=1), "chunk2": dict(chunks=2), "chunkall": dict(chunks=99), "gzip": dict(chunks=2, compression="gzip"), "gzipshuffle": dict(chunks=3, compression="gzip", shuffle=True),
    "fletcher": dict(chunks=2, fletcher32=True), "resizable": dict(chunks=2, resizable=True), "compact": dict(compact=True), "early": dict(early=True),
}
TEXT = ["fixed", "nullpad", "nullterm", "spacepad", "fixedutf8", "vlenascii", "vlenutf8"]
ATTR = ["f8", "f8be", "f4", "i4", "i8be"]
ORDER = ["file", "reversed", "tracked", "latest", "dense", "userblock", "softlink", "external", "extra"]


def text_type(kind, width):
    t = h5py.h5t.C_S1.copy()
    pad = {"fixed": 0, "nullpad": 9, "nullterm": 1, "spacepad": 5, "fixedutf8": 3}[kind]
    t.set_size(max(1, width + pad))
    t.set_strpad({"nullterm": h5py.h5t.STR_NULLTERM, "spacepad": h5py.h5t.STR_SPACEPAD}.get(kind, h5py.h5t.STR_NULLPAD))
    if kind == "fixedutf8":
        t.set_cset(h5py.h5t.CSET_UTF8)
    return t


def put_text(obj, name, value, kind):
    items = [value] if isinstance(value, str) else list(value)
    raw = [v.encode() for v in items]
    if kind.startswith("vlen"):
        obj.attrs.create(name, value, dtype=h5py.string_dtype("ascii" if kind == "vlenascii" and all(v.isascii() for v in items) else "utf-8"))
        return
    t = text_type(kind, max(len(r) for r in raw))
    space = h5py.h5s.create(h5py.h5s.SCALAR) if isinstance(value, str) else h5py.h5s.create_simple((len(items),))
    a = h5py.h5a.create(obj.id, name.encode(), t, space)
    w = t.get_size()
    fill = b" " if kind == "spacepad" else b"\0"
    arr = np.array([r.ljust(w, fill) for r in raw], dtype=f"S{w}")
    a.write(arr.reshape(()) if isinstance(value, str) else arr, mtype=t)


def write(spec, path, form):
    num, store, text, attr, order = form
    st = dict(STORE[store])
    kw = {}
    if order in ("latest", "dense"):
        kw["libver"] = "latest"
    if order == "userblock":
        kw["userblock_size"] = 512
    track = order == "tracked"
    with h5py.File(path, "w", track_order=track, **kw) as h5:
        def attributes(obj, items):
            items = list(items)
            if order in ("reversed", "latest"):
                items.reverse()
            if order in ("dense", "extra"):
                for i in range(12 if order == "dense" else 2):
                    obj.attrs.create(f"aa_extra_{i}", float(i))
            for k, v in items:
                if isinstance(v, str) or (isinstance(v, (list, tuple)) and isinstance(v[0], str)):
                    put_text(obj, k, v, text)
                else:
                    dt = {"f8": "<f8", "f8be": ">f8", "f4": "<f4", "i4": "<i4", "i8be": ">i8"}[attr]
                    arr = np.array(v)
                    dt = dt if np.array_equal(arr.astype(dt).astype("f8"), arr.astype("f8")) else "<f8"
                    obj.attrs.create(k, arr.astype(dt), dtype=dt)

        def dataset(group, name, data, attrs):
            dt = np.dtype(NUM[num] or "<u4")
            if not np.array_equal(data.astype(dt).astype("f8"), data):
                dt = np.dtype(dt.byteorder.replace("=", "<").replace("|", "<") + ("f8" if dt.itemsize > 4 or dt.kind != "f" else "f4"))
            dcpl = h5py.h5p.create(h5py.h5p.DATASET_CREATE)
            maxshape = None
            if "chunks" in st:
                dcpl.set_chunk(tuple(max(1, min(st["chunks"], s)) for s in data.shape))
                if st.get("shuffle"):
                    dcpl.set_shuffle()
                if st.get("compression") == "gzip":
                    dcpl.set_deflate(4)


                if st.get("fletcher32"):
                    dcpl.set_fletcher32()
                if st.get("resizable"):
                    maxshape = tuple([h5py.h5s.UNLIMITED] * data.ndim)
            if st.get("compact"):
                dcpl.set_layout(h5py.h5d.COMPACT)
            if st.get("early"):
                dcpl.set_alloc_time(h5py.h5d.ALLOC_TIME_EARLY)
            if track:
                dcpl.set_attr_creation_order(h5py.h5p.CRT_ORDER_TRACKED | h5py.h5p.CRT_ORDER_INDEXED)
            dest, dname = group, name
            if order == "softlink":
                dest = h5.require_group("storage" + group.name)
            space = h5py.h5s.create_simple(data.shape, maxshape)
            if order == "external" and group.name == "/blocks":
                other = h5py.File(f"{path}.{len(group)}.part", "w")
                d = h5py.Dataset(h5py.h5d.create(other.id, b"values", h5py.h5t.py_create(dt), space, dcpl))
                d[...] = data.astype(dt)
                attributes(d, attrs)
                other.close()
                group[name] = h5py.ExternalLink(f"{path}.{len(group)}.part", "/values")
                return
            d = h5py.Dataset(h5py.h5d.create(dest.id, dname.encode(), h5py.h5t.py_create(dt), space, dcpl))
            d[...] = data.astype(dt)
            attributes(d, attrs)
            if order == "softlink":
                group[name] = h5py.SoftLink(d.name)

        glob = [(k, v) for k, v in spec.meta.items()] + [("data_values", spec.values), ("data_units", spec.units), ("data_layout", spec.layout), ("crs", spec.crs), ("origin_x", spec.origin[0]), ("origin_y", spec.origin[1]),
                                                        ("y_azimuth", spec.azimuth), ("dim_x", spec.dims[0]), ("dim_y", spec.dims[1]), ("dim_z", spec.dims[2])]

        def axes(o, names):
            return [(f"{a}_resolution", ax.res) if ax.coords is None else (f"{a}_coordinates", ax.coords) for a, ax in zip("xyz", [getattr(o, n) for n in names])]

        def blocks():
            g = h5.create_group("blocks", track_order=track)
            bl = list(spec.blocks)
            if order in ("reversed", "tracked", "softlink"):
                bl.reverse()
            for b in bl:
                dataset(g, b.name, b.data, axes(b, "xyz") + [("z_top", b.z_top)])

        def surfaces():
            g = h5.create_group("surfaces", track_order=track)
            ss = [("top_surface", spec.top), ("topography_bathymetry", spec.topo)]
            if order in ("reversed", "tracked"):
                ss.reverse()
            for n, s in ss:
                if s is not None:
                    dataset(g, n, s.data.reshape(s.x.n, s.y.n, 1), axes(s, "xy"))
        if order in ("reversed", "latest"):
            blocks()
            surfaces()
            attributes(h5, glob)
        else:
            attributes(h5, glob)
            surfaces()
            blocks()
        if order == "extra":
            h5.create_group("auxiliary").create_dataset("notes", data=np.arange(3))
            h5["surfaces"].create_dataset("another_surface", data=np.zeros((2, 2, 1)))
    return path


SPECS = {}


def specs():
    rng = np.random.default_rng(28)
    d = lambda *s: rng.integers(0, 2000, size=s).astype(float)
    n1 = d(4, 3, 3, 3)
    n1[3, 2, 2, 1] = NODATA
    a = ModelSpec((300.0, 200.0, 160.0), [BlockSpec("zz upper", Axis(4, 100.0), Axis(3, 100.0), Axis(3, 20.0), 0.0, d(4, 3, 3, 3)),
                                         BlockSpec("middle-1", Axis(coords=(0.0, 60.0, 300.0)), Axis(2, 200.0), Axis(coords=(-40.0, -56.0, -100.0)), -40.0, d(3, 2, 3, 3)),
                                         BlockSpec("Aa_lower", Axis(2, 300.0), Axis(coords=(-10.0, 190.0)), Axis(2, 60.0), -100.0, d(2, 2, 2, 3))],
                  origin=(40.0, -70.0), azimuth=30.0, values=("Vp", "density", "a longer name"), units=("m/s", "kg/m**3", "none"),
                  top=SurfSpec(Axis(4, 100.0), Axis(3, 100.0), d(4, 3) / 100 // 1), topo=SurfSpec(Axis(coords=(0.0, 200.0, 300.0)), Axis(2, 200.0), -d(3, 2) / 100 // 1),
                  meta={"keywords": ["one", "a much longer keyword, with a comma", "x"], "auxiliary": "{\"key\": 1}", "description": "Two\nlines."})
    b = ModelSpec((300.0, 200.0, 40.0), [BlockSpec("only", Axis(4, 100.0), Axis(3, 100.0), Axis(3, 20.0), 0.0, n1)], values=("Vp", "density", "q"), units=("m/s", "kg/m**3", "none"), azimuth=0.0)
    long = "b" * 300
    c = ModelSpec((300.0, 200.0, 40.0), [BlockSpec(long + "2", Axis(4, 100.0), Axis(3, 100.0), Axis(2, 20.0), -20.0, d(4, 3, 2, 1)), BlockSpec(long + "1", Axis(2, 300.0), Axis(2, 200.0), Axis(2, 20.0), 0.0, d(2, 2, 2, 1))],
                  values=("Vp",), units=("m/s",), azimuth=0.0, meta={"history": "h" * 3000, "keywords": ["k" * 500], "authors": ["Müller, Zoë", "é"], "title": "Modèle"})
    return {"a": a, "b": b, "c": c}


def _write(job):
    name, path, form = job
    if not SPECS:
        SPECS.update(specs())
    return write(SPECS[name], path, form)


def by_name(resp):
    """Answer of m.blocks without the order of the blocks."""
    names = {b.name for s in SPECS.values() for b in s.blocks}
    parts = [[]]
    for x in resp[2:]:
        if x in names or (x[:100] == "b" * 100):
            parts.append([])
        parts[-1].append(x)
    return list(resp[:2]) + sum(sorted(parts), [])


def points(spec):
    r = Ref(spec)
    out = []
    for fx in (0.0, 0.3, 1.0):
        for fy in (0.0, 0.55, 1.0):
            for fz in (0.0, 0.1, 0.25, 0.3, 0.5, 0.625, 0.9, 1.0):
                xl, yl = fx * spec.dims[0], fy * spec.dims[1]
                x, y = r.world(xl, yl)
                zt = r.elev_local("top", xl, yl)
                out.append((x, y, zt + fz * (-spec.dims[2] - zt)))
    return out + [(1.0e+6, 0.0, 0.0), (*r.world(0.0, 0.0), 5000.0)]


def check(ctx):
    drv = ctx.driver()
    w = ctx.work
    SPECS.update(specs())
    base = ("f8", "contiguous", "fixed", "f8", "file")
    dims = [list(NUM), list(STORE), TEXT, ATTR, ORDER]
    forms = set()
    if ctx.quick:
        for i, j in itertools.combinations(range(5), 2):   # every pair of forms, the others as in the base
            for u in dims[i]:
                for v in dims[j]:
                    f = list(base)
                    f[i], f[j] = u, v
                    forms.add(tuple(f))
        one = [f for f in sorted(forms) if sum(x != y for x, y in zip(f, base)) <= 1]
        jobs = [("a", f) for f in sorted(forms)] + [(n, f) for n in ("b", "c") for f in one]
    else:
        forms = set(itertools.product(*dims))
        few = set()
        for i, j, k in itertools.combinations(range(5), 3):
            for u, v, x in itertools.product(dims[i], dims[j], dims[k]):
                f = list(base)
                f[i], f[j], f[k] = u, v, x
                few.add(tuple(f))
        jobs = [("a", f) for f in sorted(forms)] + [(n, f) for n in ("b", "c") for f in sorted(few)]
    pts = {n: points(s) for n, s in SPECS.items()}

    def script(n, path):
        s = SPECS[n]
        Q = [T("q.query", "q", *p) for p in pts[n]]
        return ([T("m.new", "m"), T("m.open", "m", path), T("m.load", "m"), T("m.meta", "m"), T("m.info", "m"), T("m.blocks", "m"), T("m.surfaces", "m"), T("m.del", "m"), T("q.new", "q"), T("q.init", "q", s.crs, *L([path]), *L(reversed(s.values)))]
                + Q + [T("q.top", "q", *p[:2]) for p in pts[n][::8]] + [T("q.topo", "q", *p[:2]) for p in pts[n][::8]] + [T("q.squash", "q", "topo")] + Q[::5])
    want = {}
    for n in SPECS:
        p = str(w / f"{n}-base.h5")
        write(SPECS[n], p, base)
        want[n] = [list(v) for v in drv.one(script(n, p))]
        # the base form against the reference
        bad = [v for v in want[n] if v[0] != "OK"]
        if bad:
            ctx.violation(f"{n} base", f"model {n} in the base form: {bad[0]}", {"script": script(n, p), "files": [p]})
        ref = Ref(SPECS[n])
        for q, v in zip(pts[n], want[n][10:]):
            xl, yl = ref.local(*q[:2])
            if v[0] != "OK" or not ref.inside_xy(xl, yl, -1e-6):
                continue
            zl = ref.zlogical(xl, yl, q[2])
            exp = [e[::-1] for e, _ in ref.query_local(xl, yl, zl)]
            got = [float(x) for x in v[-len(SPECS[n].values):]]
            if exp and -SPECS[n].dims[2] + 1e-6 < zl < -1e-6 and not any(all(close(g, e, 1e-7, 1e-6) or is_nodata(g) and is_nodata(e) for g, e in zip(got, ex)) for ex in exp):
                ctx.violation(f"{n} base {q}", f"model {n} in the base form at {q}: {got}, expected one of {[list(e) for e in exp]}", {"script": script(n, p), "files": [p]})
    batch = 400
    ex = concurrent.futures.ProcessPoolExecutor(8, mp_context=multiprocessing.get_context("fork"))
    for k in range(0, len(jobs), batch):
        part = jobs[k:k + batch]
        paths = [str(w / f"m{i}.h5") for i in range(len(part))]
        list(ex.map(_write, [(n, p, f) for (n, f), p in zip(part, paths)], chunksize=10))
        if k == 0 and "GMG_KEEP" in os.environ:
            shutil.copyfile(paths[0], "/tmp/keep.h5")
        for (n, f), p, r in zip(part, paths, drv.run([script(n, p) for (n, f), p in zip(part, paths)])):
            ctx.traces += 1
            ctx.nstates += 1
            s = script(n, p)
            ctx.transitions += len(s)
            for c, v, e in zip(s, r, want[n]):
                if c == s[5]:
                    v, e = by_name(v), by_name(e)
                if [x.replace(p, "PATH") for x in v] != [x.replace(str(w / f"{n}-base.h5"), "PATH") for x in e]:
                    g = [(x, y) for x, y in zip(v, e) if x != y][:4]
                    ctx.violation(f"{n} {f}", f"model {n} stored as {f}: {c!r} answers {g or (list(v), list(e))} instead of as in the base form", {"script": s, "files": [p]})
                    break
    ex.shutdown()
    shapes(ctx, drv)
    ctx.sample("blocks as gzip-compressed big-endian single precision in resizable chunks, text as space-padded strings, attributes in reverse order")
    ctx.notes.update(rule="states = (model, physical form)", forms=len(jobs), driver_commands=drv.commands)


def shapes(ctx, drv):
    """Chunk shapes that do not divide the grid, times read windows and read-cache settings."""
    w = ctx.work
    rng = np.random.default_rng(3)
    shape = (5, 4, 3)
    spec = ModelSpec((400.0, 300.0, 200.0), [BlockSpec("b", Axis(5, 100.0), Axis(4, 100.0), Axis(3, 100.0), 0.0, rng.integers(0, 999, size=shape + (2,)).astype(float))])
    plain = spec.write(str(w / "plain.h5"))
    cs = list(itertools.product((1, 2, 3, 5), (1, 3, 4), (1, 2, 3), (1, 2)))
    if ctx.quick:
        cs = cs[::5]
    idx = [(x, y, z) for x in (0.0, 0.5, 1.75, 3.0, 4.0) for y in (0.0, 1.25, 2.5, 3.0) for z in (0.0, 0.75, 1.0, 2.0)]
    caches = [None, (0, 1, 0.0), (100, 7, 1.0), (1 << 20, 521, 0.5)]
    wins = [(2, 2, 2, 2), (3, 2, 3, 2), (5, 4, 3, 2)]

    def script(p, cache, win):
        s = [T("h.new", "h")] + ([T("h.cache", "h", *cache)] if cache else []) + [T("h.open", "h", p), T("hs.new", "s", "h", "/blocks/b", *win)]
        return s + [T("hs.interp", "s", 2, *i) for i in idx]
    scripts, metas = [], []
    for j, c in enumerate(cs):
        p = spec.write(str(w / f"c{j}.h5"), dtype=("<f4", ">f8")[j % 2], chunks=c, compression=(None, "gzip")[j // 2 % 2])
        for cache in caches:
            for win in wins:
                scripts.append(script(p, cache, win))
                metas.append((c, cache, win, p))
    k = len(idx)
    want = [list(v) for v in drv.one(script(plain, None, wins[-1]))[-k:]]
    for (c, cache, win, p), s, r in zip(metas, scripts, drv.run(scripts)):
        ctx.nstates += 1
        ctx.traces += 1
        ctx.transitions += k
        bad = [(i, list(v), e) for i, v, e in zip(idx, r[-k:], want) if list(v) != e]
        if bad:
            ctx.violation(f"chunks {c} cache {cache} window {win}", f"chunks {c}, cache {cache}, window {win}: at {bad[0][0]} {bad[0][1]} instead of {bad[0][2]}", {"script": s, "files": [p]})
