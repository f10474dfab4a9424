"""C20: geomodelgrids_borehole samples exactly the requested depth range."""
from fractions import Fraction

from apps import *


def check(ctx):
    drv = ctx.driver()
    fast = Drv(_fast(ctx))
    run, runf = Runner(ctx, drv), Runner(ctx, fast)
    A, B, a, b = family(ctx.work)
    NF = ModelSpec((100.0, 80.0, 60.0), [BlockSpec("up", Axis(2, 100.0), Axis(2, 80.0), Axis(3, 30.0), 0.0, np.arange(24.0).reshape(2, 2, 3, 2))], origin=(1000.0, -400000.0))
    c = NF.write(str(ctx.work / "C.h5"))
    deep = str(ctx.work / "D.h5")
    ModelSpec((100.0, 80.0, 40000.0), [BlockSpec("up", Axis(2, 100.0), Axis(2, 80.0), Axis(2, 40000.0), 0.0, np.arange(8.0).reshape(2, 2, 2, 1) * 100)], values=("v",), units=("m",), origin=(0.0, -400000.0), top=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[100.0, 200.0], [150.0, 50.0]]))).write(deep)

    # ground surface at and around multiples of the resolution, above, at and below zero
    eps = (0.0, 1e-6, 1e-3, 4e-3, 0.02, 0.1, 0.25, 0.5) if ctx.quick else (0.0, 1e-9, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3, 2e-3, 4e-3, 8e-3, 0.02, 0.05, 0.1, 0.25, 0.4, 0.5)
    grounds = sorted({(dz, float(dz) * (k + s * e)) for dz in ("100", "7") for k in (-2, 0, 1, 5) for e in eps for s in (-1, 1)})
    groundfile = [str(ctx.work / f"G{i}.h5") for i in range(len(grounds))]
    for f, (dz, g) in zip(groundfile, grounds):
        ModelSpec((100.0, 80.0, 4000.0), [BlockSpec("up", Axis(2, 100.0), Axis(2, 80.0), Axis(2, 4000.0), 0.0, np.arange(8.0).reshape(2, 2, 2, 1) * 100)], values=("v",), units=("m",), origin=(0.0, -400000.0), top=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.full((2, 2), g))).write(f)

    def cases():
        """(description, models, values, location, crs, dz, max depth): dz and depth are decimal texts or None for the default."""
        out = []
        C = "EPSG:3311"
        loc = "30.0,-399960.0"
        dzs = ["0.1", "0.3", "0.7", "1", "2.5", "0.05", "1.1", "10", "33.3", "0.125", "1e-1", "3.0e0", "0.6", "1.4", "0.01", "7.3"]
        ms = list(range(0, 25)) + [29, 30, 43, 57, 58, 100, 115] if ctx.quick else list(range(0, 260))
        for dz in dzs:
            q = Fraction(dz)
            for m in ms:
                out.append(("multiple", [a], ["one"], loc, C, dz, dec(m * q)))
            for m in (0, 1, 2, 7) if ctx.quick else range(0, 40):
                for f in ("0.01", "0.5", "0.99", "0.9995", "0.9999"):
                    out.append(("between", [a], ["one"], loc, C, dz, dec((m + Fraction(f)) * q)))
        for dz, n in (("0.7", 5285), ("0.1", 3000), ("0.01", 5999), ("1.1", 4000)) + ((() if ctx.quick else (("0.3", 100000), ("0.007", 50000), ("33.3", 3000)))):
            out.append(("many", [deep], ["v"], loc, C, dz, dec(n * Fraction(dz))))
        for dz, dd in ((None, None), ("5", None), (None, "60"), ("1000", None), (None, "5"), ("500", "33000"), ("123.4567", "30000"), ("10", "1000"), ("60", "59.9"), ("60", "60")):
            for models, vals in (([a], ["two", "one"]), ([deep], ["v"])):
                out.append(("defaults", models, vals, loc, C, dz, dd))
        for models in ([a], [b], [a, b], [b, a], [c]):
            for vals in (["one"], ["two", "one"]):
                for lc in ("30.0,-399960.0", "0,-400000", "100.0,-399920.0", "1030.0,-399960.0", "150,-400000", "62.5,-399950"):
                    for dz, dd in (("7.5", "75"), ("10", "60"), ("30", "70")):
                        out.append(("location", models, vals, lc, C, dz, dd))
        for i, (dz, g) in enumerate(grounds):
            out.append((f"ground {g!r}", [groundfile[i]], ["v"], loc, C, dz, "1000" if dz == "100" else "70"))
        for lc in ("37.0,-120.0", "34.40,-119.9990", "34.3997,-119.9995", "34.3990,-119.9993"):
            out.append(("geographic", [a, b], ["one", "two"], lc, None, "10", "60"))
        return out

    def dec(q):
        n = q * 10**12
        s = f"{int(n) // 10**12}.{int(n) % 10**12:012d}".rstrip("0").rstrip(".")
        assert Fraction(s) == q, (s, q)
        return s
    cs = cases()
    # elevations of the ground and the answers of the library
    keys = {}
    for d, models, vals, lc, crs, dz, dd in cs:
        keys.setdefault((tuple(models), tuple(vals), lc, crs), []).append((dz, dd))

    def depths(dz, dd):
        dz, dd = Fraction(dz or "10"), Fraction(dd or "5000")
        return [i * dz for i in range(int(dd / dz) + 1)]
    pre = lambda k: [T("q.new", "q"), T("q.init", "q", k[3] or "EPSG:4326", *L(k[0]), *L(k[1]))]
    xy = lambda k: [float(v) for v in k[2].split(",")]
    tops = {k: r[-1] for k, r in zip(keys, drv.run([pre(k) + [T("q.top", "q", *xy(k))] for k in keys]))}
    answers = {}
    for k, r in zip(keys, drv.run([pre(k) + [T("q.query", "q", *xy(k), ground(tops[k]) - float(z)) for z in sorted({z for c_ in keys[k] for z in depths(*c_)})] for k in keys])):
        zs = sorted({z for c_ in keys[k] for z in depths(*c_)})
        answers[k] = dict(zip(zs, r[2:]))
    jobs = [("borehole", [f"--models={','.join(m)}", f"--values={','.join(v)}", f"--location={lc}"] + ([f"--points-coordsys={crs}"] if crs else []) + ([f"--dz={dz}"] if dz else []) + ([f"--max-depth={dd}"] if dd else []) + ["--output={OUT}"]) for d, m, v, lc, crs, dz, dd in cs]
    heavy = [i for i, c_ in enumerate(cs) if c_[0] in ("multiple", "between", "many")]
    res = [None] * len(jobs)
    light = [i for i in range(len(jobs)) if cs[i][0] not in ("multiple", "between", "many")]
    for runner, ids in ((runf, heavy), (run, light)):
        for i, r in zip(ids, runner([jobs[i] for i in ids])):
            res[i] = r
    for case, job, (rc, so, se, out) in zip(cs, jobs, res):
        d, m, v, lc, crs, dz, dd = case
        k = (tuple(m), tuple(v), lc, crs)
        ctx.nstates += 1
        ctx.traces += 1
        bad = None
        top = tops[k]
        if top[0] != "OK":
            bad = f"library answers {list(top)}"
        elif float(top[1]) == NODATA:
            if rc in (0, 96, 99) or rc > 255 or not (so + se).strip():
                bad = f"location outside the models: exit status {rc}, {so!r} {se!r}"
        elif rc != 0 or out is None:
            bad = f"exit status {rc} {se[-200:]!r}"
        else:
            g = float(top[1])
            zs = depths(dz, dd)
            rows = [[float(x) for x in ln.split()] for ln in out.split("\n") if ln and not ln.startswith("#")]
            head = out.split("\n")[:2]
            if not head[0].startswith("# ") or not all(x in head[0] for x in job[1][:-1]) or head[1][1:].split() != ["Elevation", "Depth"] + v:
                bad = f"header {head}"
            elif len(rows) != len(zs):
                bad = f"{len(rows)} depths, expected {len(zs)} (last depth {rows[-1][1] if rows else None})"
            for row, z in zip(rows, zs) if not bad else ():
                ctx.transitions += 1
                ans = answers[k][z]
                want = [g - float(z), float(z)] + [float(x) for x in ans[-len(v):]]
                tol = [2e-6, 2e-6] + [0] * len(v)
                if ans[0] != "OK" or any(abs(x - y) > t + 1e-6 * max(abs(x), abs(y)) for x, y, t in zip(row, want, tol)) or len(row) != len(want):
                    bad = f"at depth {float(z)}: {row}, expected {want}"
                    break
        if bad:
            ctx.violation(f"borehole {case}", f"borehole at {lc} in {[os.path.basename(x) for x in m]} dz {dz} max depth {dd}: {bad}", replay(job, m))
    # refused
    good = {"models": a, "values": "one", "location": "30,-399960", "points-coordsys": "EPSG:3311", "output": "{OUT}"}
    for tag, extra in [(f"{o} {v}", {o: v}) for o, vs in (("dz", ("0", "-1", "abc", "nan", "1x", "", "inf")), ("max-depth", ("-1", "abc", "nan", "5x", "")), ("location", ("1", "1,", "a,b", "1,2x", "", "nan,nan", "1,2,3")), ("output", ("/dev/full", str(ctx.work / "no" / "dir")))) for v in vs]:
        job = ("borehole", [f"--{o}={v}" for o, v in {**good, **extra}.items()])
        rc, so, se, out = run([job])[0]
        ctx.nstates += 1
        ctx.traces += 1
        if rc in (0, 96, 99) or rc > 255 or not (se or so).strip():
            ctx.violation(f"borehole refuse {tag}", f"borehole with {tag}: exit status {rc}, message {(se or '')[-200:]!r}, expected to be refused", replay(job, [a]))
    ctx.sample("dz 0.1, maximum depth 0.3: depths 0, 0.1, 0.2, 0.3")
    ctx.notes.update(rule="states = (models, values, location, resolution, maximum depth)", driver_commands=drv.commands + fast.commands)


def ground(top):
    g = float(top[1])
    return g - 1.0e-6 if g != 0.0 else g


def _fast(ctx):
    return ctx.build("driver", "driver-fast")["driver-fast"]
