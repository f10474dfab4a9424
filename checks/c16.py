"""C16: a created model, queried, gives back the data source.

The family of configurations of C15 x several batch sizes is written by the real creation application and read by the
real library: metadata, surface elevations at every surface node, and values at every node of every block, at the
world coordinates that the data source was given for it (independently computed)."""
import sys

from create import *
from c15 import text

sys.path.insert(0, str(VERIF / "lib"))
import field  # noqa: E402


def script(path, cm, inside):
    """Commands and what to expect of each: (command, kind, expected)."""
    out = [(T("q.new", "q"), None, None), (T("q.init", "q", cm.crs, *L([path]), *L(cm.values)), None, None)]
    out += [(T("m.new", "m"), None, None), (T("m.crs", "m", cm.crs), None, None), (T("m.open", "m", path), None, None), (T("m.load", "m"), None, None), (T("m.init", "m"), None, None)]
    out.append((T("m.meta", "m"), "meta", None))
    out.append((T("m.info", "m"), "info", None))
    out.append((T("m.blocks", "m"), "blocks", None))
    out.append((T("m.surfaces", "m"), "surfaces", None))
    for which, s, fn in (("top", cm.top, field.top), ("topo", cm.topo, field.topo)):
        if s:
            x, y = cm.surf_xy(s)
            ns = nudge(cm, s, inside)
            xn, yn = cm.world(*ns)
            for i in np.ndindex(x.shape):
                out.append((T("q.top", "q", xn[i], yn[i]) if which == "top" else T("m.topo", "m", xn[i], yn[i]), which, float(fn(x[i], y[i]))))
    for b in cm.blocks:
        p = cm.points(b)
        m = cm.points(b, mirrored=True)
        at = nudged_points(cm, b, inside)
        for i in np.ndindex(*b.dims()):
            v = field.values(*[np.array([c]) for c in p[i]], len(cm.values))[0]
            vm = field.values(*[np.array([c]) for c in m[i]], len(cm.values))[0] if b.z.kind == "v" else None
            out.append((T("q.query", "q", *at[i]), "block", (b.name, i, v, vm)))
    return out


def axes(ax, elevations=False):
    """Resolutions and coordinates of axes as reported by the library."""
    res = [float(a.res) if a.kind == "u" else None for a in ax]
    xyz = [[] if a.kind == "u" else sorted(map(float, a.listed), reverse=elevations and k == 2) for k, a in enumerate(ax)]
    return res, xyz


def read_axes(f, k, n, elevations=False):
    """Dimensions, resolutions and coordinates at position k of the fields of an answer, as in putBlock and putSurface of the driver; next position."""
    dims = [int(x) for x in f[k:k + n]]
    k += n
    nv = None
    if elevations:
        nv, k = int(f[k]), k + 1
    res = [float(x) for x in f[k:k + n]]
    k += n
    ends = None
    if elevations:
        ends, k = [float(x) for x in f[k:k + 2]], k + 2
    coords = []
    for _ in range(n):
        m = int(f[k])
        coords.append([float(x) for x in f[k + 1:k + 1 + max(m, 0)]])
        k += 1 + max(m, 0)
    return (dims, nv, res, ends, coords), k


def same_axes(got, ax, elevations=False):
    dims, _, res, _, coords = got
    want_res, want_xyz = axes(ax, elevations)
    return (dims == [a.n for a in ax] and all(w is None or abs(r - w) <= 1e-12 * abs(w) for r, w in zip(res, want_res))
            and all(len(c) == len(w) and all(abs(x - y) <= 1e-12 * abs(y) for x, y in zip(c, w)) for c, w in zip(coords, want_xyz)))


def nudge(cm, s, inside):
    """Local coordinates of the nodes, moved into the domain by a small amount on its boundary."""
    xs, ys = s[0].nodes(), s[1].nodes()
    if inside:
        xs = np.clip(xs, inside * cm.dim[0], (1 - inside) * cm.dim[0])
        ys = np.clip(ys, inside * cm.dim[1], (1 - inside) * cm.dim[1])
    return np.meshgrid(xs, ys, indexing="ij")


def interface(cm, b):
    """Logical elevations of the layers of nodes, those at an interface with another block moved into the block."""
    zs = b.zlogical().copy()
    span = zs[0] - zs[-1]
    if b is not cm.blocks[0]:
        zs[0] -= 1e-7 * span
    if b is not cm.blocks[-1]:
        zs[-1] += 1e-7 * span
    return zs


def nudged_points(cm, b, inside):
    """World coordinates of the nodes in the model (without the offset of the top points)."""
    xs, ys, zs = b.x.nodes(), b.y.nodes(), b.zlogical()
    if inside:
        xs = np.clip(xs, inside * cm.dim[0], (1 - inside) * cm.dim[0])
        ys = np.clip(ys, inside * cm.dim[1], (1 - inside) * cm.dim[1])
        span = zs[0] - zs[-1]
        zs = np.clip(zs, zs[-1] + inside * span, zs[0] - inside * span)
    else:
        zs = interface(cm, b)
    xl, yl, zl = np.meshgrid(xs, ys, zs, indexing="ij")
    x, y = cm.world(xl, yl)
    if cm.top:
        xs0, ys0, _ = np.meshgrid(b.x.nodes(), b.y.nodes(), zs, indexing="ij")
        x0, y0 = cm.world(xs0, ys0)
        t = field.top(x0, y0).astype(np.float32).astype(float)
        zl = -cm.dim_z + (t + cm.dim_z) / cm.dim_z * (zl + cm.dim_z)
    return np.stack([x, y, zl], axis=-1)


def holes_near(cm, b, i):
    """Is there a no-data value at a neighbour of node i (the answer at a nudged position may then be no-data)?"""
    p = cm.points(b)
    m = cm.points(b, mirrored=True)
    sl = tuple(slice(max(0, k - 1), k + 2) for k in i)
    return any((field.values(q[sl][..., 0], q[sl][..., 1], q[sl][..., 2], 1) == NODATA).any() for q in (p, m))


def check(ctx):
    drv = creator(ctx)
    cpp = Drv(ctx.paths["driver"])
    cms = [(cm, 0.0) for cm in family(ctx.quick, exact=True)] + [(cm, 1e-7) for cm in family(ctx.quick)]
    jobs = []
    for n, (cm, inside) in enumerate(cms):
        cm.base.update({"title": f"Title {n}", "description": "Zürich & Ñandú; 100 %% of it", "keywords": "[é, two words]" if n % 2 else "one"})
        if cm.top is None and n % 5 == 0:
            cm.base.update(authors="[Übel, A. | Müller]", comment="", history="")
        for batch in ([None, 7] if ctx.quick else [None, 1, 4, 7, 11]):
            d = str(ctx.work / f"m{n}-{batch}")
            jobs.append((n, cm, inside, batch, {"dir": d, "configs": {"m.cfg": cm.config(batch=batch)}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}]}))
    res = drv.run([[J("create", **j)] for *_, j in jobs])
    scripts, todo = [], []
    for (n, cm, inside, batch, j), r in zip(jobs, res):
        a = answer(r[0])["steps"][0]["result"]
        ctx.transitions += 1
        if a != "OK":
            ctx.violation(f"{n} {batch}", f"batch size {batch}: creation fails with {a} ({cm.describe()})", {"configuration": text(j["configs"]["m.cfg"])})
            continue
        s = script(j["dir"] + "/model.h5", cm, inside)
        scripts.append([c for c, _, _ in s])
        todo.append((n, cm, inside, batch, j, s))
    for (n, cm, inside, batch, j, s), ans in zip(todo, cpp.run(scripts)):
        ctx.state((n, batch))
        blocks = {b.name: b for b in cm.blocks}

        def bad(what, cmd, key=None):
            ctx.violation(key or f"{n} {batch}", f"batch size {batch}: {what} ({cm.describe()})", {"configuration": text(j["configs"]["m.cfg"]), "script": [s[0][0], s[1][0], cmd], "files": [j["dir"] + "/model.h5"]})
        for (cmd, kind, want), a in zip(s, ans):
            ctx.transitions += 1
            if not a.ok:
                bad(f"{cmd.split(chr(9))[0]}: {list(a)}", cmd)
                break
            if kind == "meta":
                f = [str(len(cm.values)), *cm.values, str(len(cm.units)), *cm.units]
                g = list(a[1:])
                k = len(f)
                nums = [float(x) for x in g[k + 2:k + 5] + g[k + 6:k + 9]]
                if g[:k] != f or g[-1] != cm.crs or not np.allclose(nums, [*cm.dim, cm.dim_z, *cm.origin, cm.azimuth]):
                    bad(f"metadata read as {g}", cmd)
            elif kind == "info":
                d = domain_attrs(cm)
                f = []
                for key in ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement", "authors", "references",
                            "repository_name", "repository_url", "repository_doi", "version", "license"]:
                    v = d[key]
                    v = v.replace("%%", "%") if isinstance(v, str) else v
                    f += [str(len(v))] + v if isinstance(v, list) else [v]
                if list(a[1:-1]) != f:
                    k = [x != y for x, y in zip(list(a[1:-1]) + [None], f + [None])].index(True)
                    bad(f"description read as {a[1 + k]!r} instead of {f[k]!r}", cmd)
            elif kind == "blocks":
                f, k, seen = list(a[1:]), 1, {}
                for _ in range(int(f[0])):
                    name = f[k]
                    seen[name], k = read_axes(f, k + 1, 3, True)
                for b in cm.blocks:
                    g = seen.get(b.name)
                    if g is None or g[1] != len(cm.values) or not same_axes(g, (b.x, b.y, b.z), True) or not np.allclose(g[3], [b.z_top, b.zlogical()[-1]], rtol=1e-12, atol=1e-12):
                        bad(f"block {b.name} read as {g}", cmd)
                        break
                if len(seen) != len(cm.blocks):
                    bad(f"blocks {sorted(seen)}", cmd)
            elif kind == "surfaces":
                f, k = list(a[1:]), 0
                for what, sf in (("top", cm.top), ("topo", cm.topo)):
                    there, k, g = int(f[k]), k + 1, None
                    if there:
                        g, k = read_axes(f, k, 2)
                    if bool(there) != bool(sf) or (sf and not same_axes(g, sf)):
                        bad(f"{what} read as {g}", cmd)
            elif kind in ("top", "topo"):
                if not close(a.f(1), want, 1e-5, 2e-5):
                    bad(f"elevation of {kind} is {a[1]} instead of {want}", cmd)
            elif kind == "block":
                name, i, v, vm = want
                err, got = int(a[1]), [float(x) for x in a[2:2 + len(v)]]
                b = blocks[name]
                if (inside or interface(cm, b)[i[2]] != b.zlogical()[i[2]]) and holes_near(cm, b, i):
                    continue
                if matches(err, got, v):
                    continue
                if vm is not None and matches(err, got, vm):
                    bad(f"block {name} node {i}: values of the mirrored point", cmd, "points mirrored about block top")
                    continue
                bad(f"block {name} node {i}: {err} {got} instead of {v.tolist()}", cmd)
        ctx.traces += 1
    ctx.sample(todo[3][1].describe())
    ctx.notes["rule"] = "family of configurations x batch sizes; every node of every surface and block is queried"
    ctx.assumptions += ["stored values have single precision", "x and y coordinates of variable axes start at 0 and span the domain"]


def matches(err, got, v):
    if (v == NODATA).any():
        return all(g < -9e19 if w == NODATA else close(g, w, 1e-5, 2e-4) for g, w in zip(got, v))
    return err == 0 and all(close(g, w, 1e-5, 2e-4) for g, w in zip(got, v))
