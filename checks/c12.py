"""C12: model metadata is read faithfully or rejected naming every defect.

Every single defect and every pair of defects (missing attribute, coordinate list of the wrong length, dataset of the
wrong shape, ...) of a finite list is planted in files of several layouts and loaded by the real code.  Defect-free
variants must load, and every accessor must return what the file holds."""
import concurrent.futures
import itertools
import shutil

import h5py
import numpy as np

from gmg import *

ROOT = ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement", "authors", "references",
        "repository_name", "repository_url", "repository_doi", "version", "license", "data_values", "data_units", "data_layout", "dim_x", "dim_y", "dim_z", "crs", "origin_x", "origin_y", "y_azimuth"]


def spec_for(kind):
    V = lambda *c: Axis(coords=c)
    rng = np.random.default_rng(5)
    d = lambda *s: rng.integers(0, 99, size=s + (2,)).astype(float)
    U1 = BlockSpec("upper", Axis(3, 50.0), Axis(2, 80.0), Axis(2, 30.0), 0.0, d(3, 2, 2))
    V1 = BlockSpec("upper", V(-7.0, 0.5, 93.0), V(1.0, 81.0), V(0.0, -30.0), 0.0, d(3, 2, 2))
    U2 = BlockSpec("lower", Axis(2, 100.0), Axis(3, 40.0), Axis(4, 10.0), -30.0, d(2, 3, 4))
    V2 = BlockSpec("lower", V(0.0, 100.0), V(0.0, 11.0, 80.0), V(-30.0, -31.0, -55.5, -60.0), -30.0, d(2, 3, 4))
    M2 = BlockSpec("lower", Axis(2, 100.0), V(3.0, 14.0, 83.0), Axis(4, 10.0), -30.0, d(2, 3, 4))
    su, sv = SurfSpec(Axis(3, 50.0), Axis(2, 80.0), rng.integers(5, 9, (3, 2)).astype(float)), SurfSpec(V(2.0, 102.0), V(0.0, 7.0, 80.0), rng.integers(1, 4, (2, 3)).astype(float))
    if kind == "many":
        # names are in another order than elevations; 1 to 12 blocks are all different for a sort
        bl, top = [], 0.0
        for n, h in zip(["m", "c" * 70, "z", "a" * 300, "k k", "d" * 63, "D", "0", "d" * 64, "x" * 127, "j" * 255, "b"], [1, 2, 1, 3, 1, 1, 1, 2, 1, 1, 1, 1]):
            bl.append(BlockSpec(n, Axis(2, 100.0), Axis(2, 80.0), Axis(h + 1, 7.5), top, d(2, 2, h + 1)))
            top -= 7.5 * h
        return ModelSpec((100.0, 80.0, -top), origin=(1.0, 2.0), azimuth=10.0, values=("Vp", "density"), units=("m/s", "kg/m**3"), blocks=bl, meta={"auxiliary": '{"key": "' + "v" * 20000 + '"}'})
    kw = {"uniform": dict(blocks=[U1, U2], top=su), "variable": dict(blocks=[V1, V2], top=sv, topo=sv), "mixed": dict(blocks=[V1, M2], top=su, topo=sv), "bare": dict(blocks=[U1, V2])}[kind]
    return ModelSpec((100.0, 80.0, 60.0), origin=(123.25, -4.5), azimuth=331.5, values=("Vp", "density"), units=("m/s", "kg/m**3"),
                     meta={"auxiliary": '{"key": 1}'} if kind in ("mixed", "bare") else None, **kw)


def dsets(spec):
    out = [(f"blocks/{b.name}", {"x": b.x, "y": b.y, "z": b.z}) for b in spec.blocks]
    return out + [(f"surfaces/{n}", {"x": s.x, "y": s.y}) for n, s in (("top_surface", spec.top), ("topography_bathymetry", spec.topo)) if s is not None]


def defects(spec):
    """(id, [strings the message must contain (any of each tuple)], apply(h5))"""
    out = []
    for a in ROOT:
        out.append((f"no /{a}", [(f"/{a}",)], lambda h5, a=a: h5.attrs.__delitem__(a)))
    out.append(("cell layout", [("layout",)], lambda h5: h5.attrs.modify("data_layout", np.bytes_(b"cell"))))
    for path, axes in dsets(spec):
        for a, ax in axes.items():
            nm = f"{a}_coordinates" if ax.coords else f"{a}_resolution"
            out.append((f"no {path}:{nm}", [(f"{path}/{nm}",)], lambda h5, p=path, nm=nm: h5[p].attrs.__delitem__(nm)))
            if ax.coords:
                more = list(ax.coords) + [ax.coords[-1] * 2 + (-1 if a == "z" else 1)]
                out.append((f"longer {path}:{nm}", [(path,)], lambda h5, p=path, nm=nm, v=more: h5[p].attrs.create(nm, np.array(v))))
                out.append((f"shorter {path}:{nm}", [(path,)], lambda h5, p=path, nm=nm, v=list(ax.coords)[:-1]: h5[p].attrs.create(nm, np.array(v))))
        if "z" in axes and not axes["z"].coords:
            out.append((f"no {path}:z_top", [(f"{path}/z_top",)], lambda h5, p=path: h5[p].attrs.__delitem__("z_top")))
    return out


def structural(spec):
    """Defects that are rejected without listing the others."""
    def reshape(h5, p, shape):
        at = dict(h5[p].attrs)
        d = h5[p][...]
        del h5[p]
        n = h5.create_dataset(p, data=np.resize(d, shape))
        for k, v in at.items():
            n.attrs[k] = v
    b0 = spec.blocks[0]
    s0 = b0.data.shape
    out = [("no blocks", lambda h5: h5.__delitem__("blocks")),
           ("scalar keywords", lambda h5: h5.attrs.create("keywords", np.bytes_(b"one"))),
           ("2-D authors", lambda h5: h5.attrs.create("authors", np.array([[b"a", b"b"], [b"c", b"d"]]))),
           ("flat block", lambda h5: reshape(h5, "blocks/upper", s0[:3])),
           ("5-D block", lambda h5: reshape(h5, "blocks/lower", s0 + (1,))),
           ("block lacks a value", lambda h5: reshape(h5, "blocks/upper", s0[:3] + (1,))),
           ("block has extra value", lambda h5: reshape(h5, "blocks/lower", s0[:3] + (3,)) if not spec.blocks[1].x.coords and 0 else reshape(h5, "blocks/upper", s0[:3] + (3,))),
           ("more names than values", lambda h5: (h5.attrs.create("data_values", np.array([b"a", b"b", b"c"])), h5.attrs.create("data_units", np.array([b"a", b"b", b"c"])))),
           ("fewer units than names", lambda h5: h5.attrs.create("data_units", np.array([b"m"]))),
           ("resolution zero", None), ("resolution negative", None)]
    for n, v in (("resolution zero", 0.0), ("resolution negative", -5.0), ("resolution nan", np.nan), ("resolution minus inf", -np.inf)):
        for path, axes in dsets(spec):
            for a, ax in axes.items():
                if not ax.coords:
                    out.append((f"{n} {path} {a}", lambda h5, p=path, a=a, v=v: h5[p].attrs.modify(f"{a}_resolution", v)))
    if spec.top is not None:
        out.append(("flat surface", lambda h5: reshape(h5, "surfaces/top_surface", spec.top.data.shape[:2])))
    for path, axes in dsets(spec):
        for a, ax in axes.items():
            if ax.coords:
                out.append((f"scalar {path}:{a}_coordinates", lambda h5, p=path, a=a: h5[p].attrs.create(f"{a}_coordinates", 3.0)))
    return [o for o in out if o[1]]


def never_written(h5, name, is_list):
    """A variable-length string attribute that was created but not written reads as null strings."""
    if name in h5.attrs:
        del h5.attrs[name]
    space = h5py.h5s.create_simple((2,)) if is_list else h5py.h5s.create(h5py.h5s.SCALAR)
    h5py.h5a.create(h5.id, name.encode(), h5py.h5t.py_create(h5py.string_dtype(), logical=True), space)


def make(job):
    base, path, fns = job
    shutil.copyfile(base, path)
    with h5py.File(path, "a") as h5:
        for f in fns:
            f(h5)
    return path


JOBS = []


def make_i(i):
    return make(JOBS[i])


def seq(items, i):
    n = int(items[i])
    return list(items[i + 1:i + 1 + n]), i + 1 + n


def check(ctx):
    drv = ctx.driver()
    kinds = ["uniform", "variable", "mixed", "bare"]
    jobs, want, bases = [], [], {}
    for kind in kinds:
        spec = spec_for(kind)
        base = bases[kind] = spec.write(str(ctx.work / f"{kind}.h5"))
        ds = defects(spec)
        combos = [(d,) for d in ds]
        if kind == "mixed" or not ctx.quick:
            combos += [c for c in itertools.combinations(ds, 2)]
        if kind == "mixed" and not ctx.quick:
            combos += list(itertools.combinations(ds, 3))
        st = structural(spec)
        for c in combos:
            names = [d[0] for d in c]
            attrs = [n.split(" ", 1)[1] for n in names]
            if len(set(attrs)) < len(attrs) or (("cell layout" in names) and ("no /data_layout" in names)):
                continue  # two changes of the same attribute
            jobs.append((base, str(ctx.work / f"d{len(jobs)}.h5"), [d[2] for d in c]))
            want.append((kind, names, [x for d in c for x in d[1]]))
        for n, f in st:
            jobs.append((base, str(ctx.work / f"d{len(jobs)}.h5"), [f]))
            want.append((kind, [n], None))
    JOBS[:] = jobs
    with concurrent.futures.ProcessPoolExecutor(8) as ex:
        list(ex.map(make_i, range(len(jobs)), chunksize=64))
    scripts = []
    for i, j in enumerate(jobs):
        s = [T("m.new", "m"), T("m.open", "m", j[1]), T("m.load", "m")]
        if i % 2:
            # an object that failed to load can be used for another file
            s += [T("m.open", "m", bases[kinds[i // 2 % 4]]), T("m.load", "m"), T("m.meta", "m"), T("m.blocks", "m"), T("m.surfaces", "m"), T("m.info", "m")]
        scripts.append(s)
    ref = {k: drv.one([T("m.new", "m"), T("m.open", "m", b), T("m.load", "m"), T("m.meta", "m"), T("m.blocks", "m"), T("m.surfaces", "m"), T("m.info", "m")]) for k, b in bases.items()}
    for i, ((kind, names, msgs), j, s, r) in enumerate(zip(want, jobs, scripts, drv.run(scripts))):
        ctx.traces += 1
        ctx.transitions += 1
        ctx.nstates += 1
        a = r[2]
        desc = f"{kind} model with defects {names}"
        if a[0] != "EXC" or not a[2]:
            ctx.violation(f"{kind} {names}", f"{desc}: must be rejected, loading gave {list(a)}", {"script": s[:3], "files": [j[1]]})
            continue
        for alt in msgs or []:
            if alt[0].endswith("/z_top") and f"no {alt[0][:-6]}:z_resolution" in names:
                continue  # with z_coordinates instead of the missing z_resolution, z_top is not required
            if not any(x in a[2] for x in alt):
                ctx.violation(f"{kind} {names} {alt}", f"{desc}: the message does not name {alt}: {a[2]!r}", {"script": s[:3], "files": [j[1]]})
                break
        if msgs and not any("no " in n and f"/{x}" in n for n in names for x in ()):
            # nothing that is present may be reported missing
            for a0 in ROOT:
                if f"    /{a0}\n" in a[2] and f"no /{a0}" not in names:
                    ctx.violation(f"{kind} {names} extra {a0}", f"{desc}: the message also names /{a0}: {a[2]!r}", {"script": s[:3], "files": [j[1]]})
                    break
        if len(s) > 3:
            for x, y, c in zip(r[3:], ref[kinds[i // 2 % 4]][1:], s[3:]):
                ctx.transitions += 1
                if list(x) != list(y):
                    ctx.violation(f"{kind} {names} reuse", f"{desc}: after the failure, loading a good file with the same object: {c} gave {list(x)}, a fresh object {list(y)}", {"script": s, "files": [j[1], bases[kinds[i // 2 % 4]]]})
                    break
    faithful(ctx, drv)
    reload(ctx, drv, bases)
    ctx.sample("mixed model without /dim_y and with one coordinate too many in blocks/lower:y_coordinates")
    ctx.notes.update(rule="states = (layout, set of defects)", driver_commands=drv.commands)


def reload(ctx, drv, bases):
    """One object loads several files, one after the other, closed in between or not, used in between or not."""
    probe = [T("m.meta", "m"), T("m.info", "m"), T("m.blocks", "m"), T("m.surfaces", "m"), T("m.init", "m")]
    for x, y in ((0.0, 0.0), (30.0, 20.0), (50.0, 79.0)):
        t = math.radians(331.5)
        wx, wy = 123.25 + x * math.cos(t) + y * math.sin(t), -4.5 - x * math.sin(t) + y * math.cos(t)
        probe += [T("m.top", "m", wx, wy), T("m.topo", "m", wx, wy)] + [c for z in (-0.5, -29.0, -45.5) for c in (T("m.contains", "m", wx, wy, z), T("m.query", "m", wx, wy, z))]
    load = lambda k: [T("m.open", "m", bases[k]), T("m.load", "m")]
    fresh = {k: drv.one([T("m.new", "m"), T("m.crs", "m", "EPSG:3311")] + load(k) + probe)[-len(probe):] for k in bases}
    scripts, want = [], []
    for n in (2, 3):
        for ks in itertools.product(bases, repeat=n):
            for use in itertools.product((0, 1, 2), repeat=n - 1):
                s = [T("m.new", "m"), T("m.crs", "m", "EPSG:3311")]
                for k, u in zip(ks, use + (0,)):
                    # used or not; closed or opened again without closing
                    s += load(k) + (probe if u else []) + ([T("m.close", "m")] if u < 2 else [])
                if s[-1] == T("m.close", "m"):
                    s.pop()
                scripts.append(s + probe)
                want.append((ks, use))
    for (ks, use), s, r in zip(want, scripts, drv.run(scripts)):
        ctx.traces += 1
        ctx.nstates += 1
        for c, x, y in zip(probe, r[-len(probe):], fresh[ks[-1]]):
            ctx.transitions += 1
            if list(x) != list(y):
                ctx.violation(f"reload {ks} {use}", f"one object loads {ks} ({use}: 1, 2 = used before the next, 2 = not closed): then {c} gave {list(x)[:12]}, a fresh object {list(y)[:12]}", {"script": s, "files": list(bases.values())})
                break


def faithful(ctx, drv):
    """Accessors return what the file holds, for all layouts, optional parts and awkward texts."""
    texts = ["plain", " ", "", "with \"quotes\" and 'more'", "two\nlines", "caf\u00e9 \u6771\u4eac", "x" * 3000, "tab\there", "trailing  ", "%s %d {0}", "[section]", "a,b;c"]
    cases = []
    for kind in ["uniform", "variable", "mixed", "bare", "many"]:
        for i, t in enumerate(texts):
            for strings in ("fixed", "padded", "vlen", "vascii"):
                if t == "" and strings == "fixed" or strings == "vascii" and not t.isascii():
                    continue
                if ctx.quick and kind not in ("mixed", "bare", "many"):
                    continue
                s = spec_for(kind)
                keys = list(META)
                s.meta = {k: (texts[(i + n) % len(texts)] if strings not in ("vascii",) or texts[(i + n) % len(texts)].isascii() else "ascii") for n, k in enumerate(keys)}
                if strings == "fixed":
                    s.meta = {k: v or "x" for k, v in s.meta.items()}
                lists = [["one"], ["a", "longer text", "b"], ["x y", "z" * 200], ["\u00e9", "e"] if strings != "vascii" else ["e", "ee"]]
                for n, k in enumerate(META_LISTS):
                    s.meta[k] = lists[(i + n) % len(lists)]
                if i % 2:
                    s.meta["auxiliary"] = '{"a": [1, 2]}' if i % 4 == 1 else '{"a": "' + "v" * 20000 + '"}'
                s.crs = ["EPSG:3311", "EPSG:4326", "+proj=tmerc +lat_0=35 +lon_0=-118", 'PROJCRS["x"]'][i % 4]
                s.azimuth, s.origin, s.dims = [0.0, -90.0, 359.999, 1e-7][i % 4], [1e7 + i, -0.125 * i], [100.0 + i, 1e-3, 6e5]
                if kind == "many":
                    s.blocks = s.blocks[:1 + i]
                if i % 3 == 1:
                    s.values, s.units = ["Vp", "\u00e9t\u00e9" if strings != "vascii" else "ete"], ["m/s", "kg/m**3"]
                p = s.write(str(ctx.work / f"f{len(cases)}.h5"), strings=strings)
                if strings == "vlen" and i % 3 == 0:
                    with h5py.File(p, "a") as h5:
                        for nm in ("comment", "keywords"):
                            never_written(h5, nm, nm in META_LISTS)
                    s.meta.update(comment="", keywords=["", ""])
                cases.append((kind, t, strings, s, p))
    scripts = [[T("m.new", "m"), T("m.open", "m", c[4]), T("m.load", "m"), T("m.meta", "m"), T("m.info", "m"), T("m.blocks", "m"), T("m.surfaces", "m")] for c in cases]
    for (kind, t, strings, s, p), sc, r in zip(cases, scripts, drv.run(scripts)):
        ctx.traces += 1
        ctx.nstates += 1
        desc = f"{kind} model, text {t[:30]!r} stored as {strings}"
        if not r[2].ok:
            ctx.violation(f"faithful {kind} {t[:10]} {strings}", f"{desc}: valid model rejected: {list(r[2])}", {"script": sc, "files": [p]})
            continue
        probs = []

        def expect(what, got, exp):
            ctx.transitions += 1
            same = got == exp if isinstance(exp, (str, list)) else close(float(got), exp, 1e-12, 0)
            if not same:
                probs.append(f"{what} is {got!r}, the file holds {exp!r}")
        m = r[3]
        v, i = seq(m, 1)
        u, i = seq(m, i)
        expect("value names", v, s.values)
        expect("units", u, s.units)
        i += 1
        for w, e in zip(["dims", "dim x", "dim y", "dim z", "origin", "origin x", "origin y", "azimuth"], [3.0] + s.dims + [2.0] + s.origin + [s.azimuth]):
            expect(w, m[i], float(e))
            i += 1
        expect("crs", m[i], s.crs)
        m = r[4]
        i = 1
        for k in ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement", "authors", "references",
                  "repository_name", "repository_url", "repository_doi", "version", "license", "auxiliary"]:
            if k in META_LISTS:
                g, i = seq(m, i)
                expect(k, g, s.meta[k])
            else:
                expect(k, m[i], s.meta.get(k, ""))
                i += 1
        m, i = r[5], 2
        expect("number of blocks", m[1], str(len(s.blocks)))
        for b in sorted(s.blocks, key=lambda b: -b.z_top):
            i = axes(expect, m, i, b.name, [b.x, b.y, b.z], b)
        m, i = r[6], 1
        for n, sf in (("top", s.top), ("topography", s.topo)):
            expect(f"presence of {n}", m[i], "1" if sf is not None else "0")
            i += 1
            if sf is not None:
                i = axes(expect, m, i, None, [sf.x, sf.y], None)
        if probs:
            ctx.violation(f"faithful {kind} {t[:10]} {strings}", f"{desc}: {probs[:3]}", {"script": sc, "files": [p]})


def axes(expect, m, i, name, axs, b):
    if name:
        expect("block name", m[i], name)
        i += 1
    for ax in axs:
        expect(f"{name} size", m[i], str(ax.n))
        i += 1
    if b:
        expect(f"{name} values", m[i], str(b.data.shape[3]))
        i += 1
    for ax in axs:
        if ax.coords is None:
            expect(f"{name} resolution", m[i], float(ax.res))
        i += 1
    if b:
        expect(f"{name} z_top", m[i], b.z_top)
        expect(f"{name} z_bottom", m[i + 1], b.z_bottom)
        i += 2
    for ax in axs:
        if ax.coords is None:
            expect(f"{name} coordinates", m[i], "0")
            i += 1
        else:
            expect(f"{name} coordinates", m[i], str(ax.n))
            i += 1
            for c in ax.coords:
                expect(f"{name} coordinate", m[i], float(c))
                i += 1
    return i
