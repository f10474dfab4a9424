"""C09: a query object survives every order of calls.

All call sequences up to a bound over initialize (valid, several models, failing in every way), queries, elevation
queries, settings and finalize are executed on one object, through the C++ and the C interface, each followed by the same
probes.  Reference: a state machine (not initialized, or initialized with a configuration) plus fresh objects."""
import itertools

import numpy as np

from gmg import *


def check(ctx):
    drv = ctx.driver()
    w = ctx.work

    def model(tag, base, x0, crs="EPSG:3311", values=("one", "two"), units=("m", "m/s"), top=None, depth=100.0):
        rng = np.random.default_rng(base)
        data = base + rng.integers(0, 50, size=(3, 3, 3, len(values))).astype(float)
        spec = ModelSpec((100.0, 100.0, depth), [BlockSpec("b", Axis(3, 50.0), Axis(3, 50.0), Axis(3, depth / 2), 0.0, data)], crs=crs, origin=(x0, 0.0), values=list(values), units=list(units),
                         top=None if top is None else SurfSpec(Axis(2, 100.0), Axis(2, 100.0), np.array(top, float)))
        return spec.write(str(w / f"{tag}.h5"))
    A = model("A", 1000, 0.0, top=[[10, 20], [15, 5]])
    B = model("B", 2000, 50.0, values=("two", "three", "one"), units=("m/s", "none", "m"))
    U = model("U", 3000, 0.0, units=("km", "m/s"))
    (w / "N.h5").write_text("this is not a model file")
    import h5py
    with h5py.File(w / "M.h5", "w") as h5:
        h5.attrs["title"] = "no metadata"
    M, N, X = str(w / "M.h5"), str(w / "N.h5"), str(w / "missing.h5")
    C = "EPSG:3311"
    C20 = "+proj=aea +lat_0=0 +lon_0=-120 +lat_1=34 +lat_2=40.5 +x_0=20 +y_0=-4000000 +datum=NAD83 +units=m +type=crs"
    inits = {
        "iA": ([A], ["one", "TWO"], C), "iB": ([B], ["three", "one", "two"], C), "iAB": ([A, B], ["two"], C), "iBA": ([B, A], ["one"], C),
        "iAshift": ([A], ["one", "TWO"], C20), "iAswap": ([A], ["TWO", "one"], C),
        "xMissing": ([X], ["one"], C), "xSecond": ([A, X], ["one"], C), "xValue": ([A], ["one", "nope"], C), "xValue2": ([A, B], ["three"], C), "xUnits": ([A, U], ["one"], C),
        "xNotModel": ([N], ["one"], C), "xMeta": ([A, M], ["two"], C), "xCRS": ([A], ["one"], "EPSG:999999"), "xCRS2": ([B], ["one"], "gibberish"),
    }
    ops = list(inits) + ["qin", "qout", "top", "topo", "min", "topo!", "none!", "fin", "qnull"]
    if ctx.quick:
        ops = [o for o in ops if o not in ("xCRS2", "topo", "iBA", "xValue2")]

    def cmd(o, i):
        if o in inits:
            m, v, c = inits[o]
            return T(i + ".init", "o", c, *L(m), *L(v))
        return {"qin": T(i + ".query", "o", 60.0, 30.0, -20.0), "qout": T(i + ".query", "o", 60.0, 30.0, -200.0), "qB": T(i + ".query", "o", 130.0, 30.0, -5.0), "top": T(i + ".top", "o", 60.0, 30.0),
                "topo": T(i + ".topo", "o", 60.0, 30.0), "min": T(i + ".minelev", "o", -50.0), "topo!": T(i + ".squash", "o", "topo"), "none!": T(i + ".squash", "o", "none"),
                "fin": T(i + ".final", "o"), "qnull": T(i + ".qnull", "o", 60.0, 30.0, -20.0)}[o]
    probes = ["qin", "qB", "top", "qout", "topo"]
    depth = 3 if ctx.quick else 4
    # answers of fresh objects for every configuration and setting reachable
    fresh, fk = {}, []
    for cfg in [o for o in inits if o[0] == "i"]:
        for mode, zmin in itertools.product(("none", "top", "topo"), (0.0, -50.0)):
            for o in ("qin", "qout", "qB", "top", "topo"):
                fk.append((cfg, mode, zmin, o))
    fs = []
    for cfg, mode, zmin, o in fk:
        s = [T("q.new", "o"), cmd(cfg, "q")]
        if zmin:
            s.append(T("q.minelev", "o", zmin))
        fs.append(s + [T("q.squash", "o", mode), cmd(o, "q")])
    for k, r in zip(fk, drv.run(fs)):
        fresh[k] = list(r[-1])
        if not r[1].ok:
            ctx.violation(f"fresh {k}", f"a fresh object fails: {list(r[1])}", {"script": fs[0], "files": [A, B]})
            return
    seqs = [s for k in range(0, 4) for s in itertools.product(ops, repeat=k)]
    if depth == 4:
        core = ["iA", "iB", "iAB", "xSecond", "xValue", "xUnits", "xMeta", "xCRS", "qin", "top", "min", "fin"]
        seqs += list(itertools.product(core, repeat=4))
    # another coordinate system of the points matters next to an initialize that differs in nothing else
    seqs = [s for s in seqs if "iAshift" not in s or len(s) < 3 or "iA" in s]
    scripts, jobs = [], []
    for n, sq in enumerate(seqs):
        for i in ("q", "c"):
            if i == "c" and len(sq) >= 3 and n % (4 if ctx.quick else 6):
                continue
            full = list(sq) + probes + (["fin", "qin"] if n % 2 else [])
            s = [T(i + ".new", "o")]
            for o in full:
                if i == "c":
                    s.append(T("c.reset", "o"))
                s.append(cmd(o, i))
            if n % 3 == 0:
                s.append(T(i + ".del", "o"))
            scripts.append(s)
            jobs.append((sq, i, full))
    for (sq, i, full), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.traces += 1
        cfg, mode, zmin = None, "none", 0.0
        for k, o in enumerate(full):
            ctx.transitions += 1
            ctx.state((cfg, mode, zmin, o, sq, i) if len(sq) < 2 else (cfg, mode, zmin, sq[-2:], o, i))
            pos = 1 + (2 * k + 1 if i == "c" else k)
            a = r[pos]
            good, want = True, "no failure"
            if o in inits:
                if o[0] == "i":
                    good, cfg, want = (a.ok and (i == "q" or a[1] == "0")), o, "success"
                else:
                    # a rejected initialize leaves the object uninitialized
                    good, cfg, want = (a[0] == "EXC" and a[2] != "" if i == "q" else a.ok and a[1] == str(ERROR)), None, "an error"
            elif o in ("min", "topo!", "none!", "fin"):
                good = a.ok
                if o == "min":
                    zmin, mode = -50.0, "top" if mode == "none" else mode
                elif o == "fin":
                    cfg = None
                else:
                    mode = o[:-1]
            elif o == "qnull":
                good, want = a.ok and a[1] == str(ERROR), "an error status"
            elif cfg is None:
                if o[0] == "q":
                    want = "an error status, or a warning, and no values"
                    good = a.ok and a[1] in (str(ERROR), str(WARNING)) and all(float(v) in (NODATA, 7777.0) for v in a[2:])
                else:
                    want = "no-data"
                    good = a.ok and float(a[1]) == NODATA
            else:
                f = fresh[cfg, mode, zmin, o]
                want = f"{f} as from a fresh object"
                good = list(a) == f
            if not good:
                ctx.violation(f"{i} {sq} {k}", f"calls {full[:k + 1]} through {'C++' if i == 'q' else 'C'}: {o} gave {list(a)}, expected {want}", {"script": s[:pos + 1], "files": [A, B, U, M, N]})
                break
        else:
            if len(r) > len(s) or r[-1][0] != "OK":
                ctx.violation(f"{i} {sq} end", f"calls {full} through {i}, then destruction: {list(r[-1])}", {"script": s, "files": [A, B, U, M, N]})
    ctx.sample("initialize(A), initialize(A, missing file), query, query, query, top, query, topo")
    ctx.notes.update(rule="states = (configuration, settings, last calls, call)", driver_commands=drv.commands)
