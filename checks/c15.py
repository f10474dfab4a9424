"""C15: the stored model does not depend on the batch size.

A family of configurations (all kinds of axes x kinds of surfaces, several blocks, offsets, azimuths) x all batch
sizes from 1 to more than the largest grid, and none: the real application runs with a data source that records the
points it is given.  Oracle: grid nodes computed independently; files compared item by item."""
import sys

from create import *

sys.path.insert(0, str(VERIF / "lib"))


def rows(a):
    """Rows sorted, for comparison as multisets."""
    a = np.round(a, 6) + 0.0
    return a[np.lexsort(a.T[::-1])]


def same(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=0, atol=2e-5)


def judge_points(cm, calls, batch):
    """None, or (key, text)."""
    got = {}
    for kind, blk, rng, shape, flat in calls:
        p = np.array(flat).reshape(shape)
        got.setdefault((kind, blk), []).append((rng, p))
    for kind, s in (("top_surface", cm.top), ("topography_bathymetry", cm.topo)):
        g = got.pop((kind, None), [])
        if not s:
            if g:
                return None, f"points for {kind} though there is none"
            continue
        x, y = cm.surf_xy(s)
        want = np.stack([x.ravel(), y.ravel()], axis=-1)
        have = np.concatenate([p[:, :, :2].reshape(-1, 2) for _, p in g]) if g else np.zeros((0, 2))
        if not same(rows(have), rows(want)):
            return None, f"points for {kind}: {len(have)} instead of the {len(want)} grid nodes, or at other positions"
    finding = None
    for b in cm.blocks:
        want = cm.points(b)
        mirror = cm.points(b, mirrored=True)
        seen = np.zeros(b.dims(), dtype=int)
        g = got.pop(("block", b.name), [])
        for rng, p in g:
            rng = rng or [(0, n) for n in b.dims()]
            sl = tuple(slice(*r) for r in rng)
            if p.shape[:3] != want[sl].shape[:3]:
                return None, f"block {b.name}: batch {rng} has points of shape {p.shape}"
            if p.size > 3 * (batch or 10 ** 9):
                return None, f"block {b.name}: {p.size // 3} points in a batch of {batch}"
            seen[sl] += 1
            if not same(p, want[sl]):
                if b.z.kind == "v" and same(p, mirror[sl]):
                    finding = ("points mirrored about block top", f"block {b.name} with vertical coordinates {b.z.listed}: points at elevations z_top - z instead of z")
                    continue
                k = np.argwhere(np.abs(p - want[sl]) > 2e-5)[0]
                return None, f"block {b.name}, batch {rng}: point {list(map(int, k[:3]))} of the batch at {p[tuple(k[:3])].tolist()} instead of {want[sl][tuple(k[:3])].tolist()}"
        if (seen != 1).any():
            return None, f"block {b.name}: point {np.argwhere(seen != 1)[0].tolist()} asked for {int(seen[tuple(np.argwhere(seen != 1)[0])])} times"
        if cm.topo:
            import field
            x, y = want[:, :, 0, 0], want[:, :, 0, 1]
            t = field.topo(x, y).astype(np.float32)
            for rng, p in got.pop(("depth", b.name), []):
                sl = tuple(slice(*r) for r in (rng or [(0, n) for n in b.dims()])[:2])
                if p.shape != t[sl].shape or not np.allclose(p, t[sl], atol=1e-5):
                    return None, f"block {b.name}: elevations of topography for batch {rng} are {p.tolist()} instead of {t[sl].tolist()}"
    if got:
        return None, f"unexpected requests {list(got)}"
    return finding


def expected_file(cm, finding):
    """Contents implied by the configuration (float32 values)."""
    import field
    out = {}
    for name, s, fn in (("top_surface", cm.top, field.top), ("topography_bathymetry", cm.topo, field.topo)):
        if s:
            out["surfaces/" + name] = (cm.surf_attrs(s), [s[0].n, s[1].n, 1], fn(*cm.surf_xy(s)).ravel())
    for b in cm.blocks:
        p = cm.points(b, mirrored=bool(finding) and b.z.kind == "v")
        out["blocks/" + b.name] = (cm.block_attrs(b), list(b.dims()) + [len(cm.values)], field.values(p[..., 0], p[..., 1], p[..., 2], len(cm.values)).ravel())
    return out


def near(a, b):
    if isinstance(b, list) and isinstance(a, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return abs(a - b) <= 1e-12 * abs(b)
    return a == b


def judge_file(cm, d, finding):
    if d is None:
        return "no file"
    for k, v in domain_attrs(cm).items():
        if k not in ("filename", "data_source") and not near(d["/"]["attrs"].get(k), v):
            return f"attribute {k} is {d['/']['attrs'].get(k)!r} instead of {v!r}"
    want = expected_file(cm, finding)
    have = {k for k in d if k.count("/") == 1 and k != "/"}
    if have != set(want):
        return f"datasets {sorted(have)} instead of {sorted(want)}"
    for k, (attrs, shape, data) in want.items():
        e = d[k]
        if e["shape"] != shape:
            return f"{k}: shape {e['shape']} instead of {shape}"
        if set(e["attrs"]) != set(attrs) or any(not near(e["attrs"][a], attrs[a]) for a in attrs):
            return f"{k}: attributes {e['attrs']} instead of {attrs}"
        h = np.array(e["data"], dtype=float)
        bad = (np.abs(h - data) > 2e-4 * np.maximum(1.0, np.abs(data) * 1e-2))
        if bad.any() and not (finding and False):
            i = int(np.argmax(bad))
            return f"{k}: value {np.unravel_index(i, shape)} is {h[i]} instead of {data[i]}"
    return None


def check(ctx):
    drv = creator(ctx)
    jobs = []
    for n, cm in enumerate(family(ctx.quick)):
        cm.probe = {"depth": "yes"} if cm.topo else None
        total = cm.npoints()
        sizes = [None] + list(range(1, total + 2)) + ([10 ** 7] if not ctx.quick else [])
        if ctx.quick:
            sizes = [None, 1] + sorted(set(range(2, total + 2, 2 + n % 3)) | {total - 1, total, total + 1})
        for batch in sizes:
            d = str(ctx.work / f"m{n}-{batch}")
            jobs.append((n, cm, batch, {"dir": d, "configs": {"m.cfg": cm.config(batch=batch)}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}], "dump": "model.h5", "calls": True}))
    ref = {}
    for (n, cm, batch, j), r in zip(jobs, drv.run([[J("create", **j)] for _, _, _, j in jobs])):
        a = answer(r[0])
        ctx.transitions += 1
        ctx.state((n, batch))
        s = a["steps"][0]
        replay = {"configuration": text(j["configs"]["m.cfg"]), "batch": batch, "result": s["result"]}

        def bad(what, key=None):
            ctx.violation(key or f"{n} {batch}", f"batch size {batch}: {what} ({cm.describe()})", replay)
        if s["result"] != "OK":
            bad("creation fails with " + s["result"])
            continue
        f = judge_points(cm, s["calls"], batch)
        if f:
            bad(f[1], f[0])
            if not f[0]:
                continue
        w = judge_file(cm, a["dump"], f)
        if w:
            bad(w)
            continue
        if batch is None:
            ref[n] = a["dump"]
        elif n in ref and a["dump"] != ref[n]:
            diff = [k for k in set(a["dump"]) | set(ref[n]) if a["dump"].get(k) != ref[n].get(k)]
            bad(f"file differs from the one created without batches in {diff}")
        ctx.traces += 1
    ctx.sample(jobs[5][1].describe() + f", batch size {jobs[5][2]}")
    ctx.notes["configurations"] = len(ref)
    ctx.assumptions += ["x and y coordinates of variable axes start at 0 and span the domain", "h5py"]


def text(c):
    return "\n".join([f"[{s}]\n" + "\n".join(f"{k} = {v}" for k, v in kv.items()) + "\n" for s, kv in c.items()])
