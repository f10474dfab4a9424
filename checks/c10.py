"""C10: the C, C++ and Python interfaces agree.

The same operation sequences are executed through the three interfaces side by side and compared answer by answer; so are
model objects (C++ and Python) through every order of calls, and every form of point array accepted or refused by Python."""
import itertools
import os

import numpy as np

from gmg import *


def models(ctx):
    w = ctx.work
    V = lambda *c: Axis(coords=c)
    rng = np.random.default_rng(10)
    d = lambda *s: rng.integers(0, 999, size=s).astype(float) / 8
    nod = d(3, 2, 3, 2)
    nod[1, 0, 1, 0] = NODATA
    A = ModelSpec((100.0, 80.0, 60.0), [BlockSpec("up", Axis(3, 50.0), Axis(2, 80.0), Axis(3, 15.0), 0.0, nod), BlockSpec("low", Axis(2, 100.0), Axis(3, 40.0), Axis(2, 30.0), -30.0, d(2, 3, 2, 2))],
                  origin=(10.0, -5.0), azimuth=30.0, values=("one", "two"), units=("m", "m/s"), top=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[10.0, 20.0], [15.0, 5.0]])),
                  topo=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[2.0, -4.0], [15.0, 1.0]])), meta={"auxiliary": '{"a": "\u00e9"}', "title": "T\u00fcr"})
    B = ModelSpec((200.0, 200.0, 60.0), [BlockSpec("b", V(0.0, 3.0, 200.0), V(-1.0, 199.0), V(0.0, -60.0), 0.0, d(3, 2, 2, 3))], origin=(-40.0, -80.0), values=("two", "three", "one"), units=("m/s", "none", "m"))
    G = ModelSpec((1000.0, 1000.0, 100.0), [BlockSpec("b", Axis(2, 1000.0), Axis(2, 1000.0), Axis(2, 100.0), 0.0, d(2, 2, 2, 1))], values=("one",), units=("m",), crs="EPSG:26910", origin=(500000.0, 4000000.0))
    out = {n: s.write(str(w / f"{n}.h5")) for n, s in (("A", A), ("B", B), ("G", G))}
    out["M"] = A.write(str(w / "M.h5"), skip=("/:dim_x", "/blocks/low:z_top"))
    out["S"] = A.write(str(w / "S.h5"), skip=("/surfaces/top_surface:x_resolution",))
    (w / "N.h5").write_text("not a model")
    out["N"], out["X"] = str(w / "N.h5"), str(w / "missing.h5")
    return out, {"A": A, "B": B, "G": G}


def check(ctx):
    drv = ctx.driver()
    ctx.build("driver", "python-asan")
    asan = subprocess.run(["gcc", "-print-file-name=libasan.so"], capture_output=True, text=True, check=True).stdout.strip()
    py = Drv(str(VERIF / "lib" / "pydrv.py"), env={"GMG_STAGE": ctx.paths["stage-asan"], "LD_PRELOAD": asan + " libstdc++.so.6"})
    M, specs = models(ctx)
    C = "EPSG:3311"
    R = Ref(specs["A"])
    pin, pnod, pout = (50.0, 30.0, -5.0), (49.0, 3.0, -12.0), (5000.0, 5000.0, 0.0)
    wx = lambda p: R.world(p[0], p[1]) + (p[2],)

    # ---- query objects
    ops = {
        "iA": ("init", [M["A"]], ["two", "one"], C), "iBA": ("init", [M["B"], M["A"]], ["ONE"], C), "iG": ("init", [M["G"]], ["one"], "EPSG:4326"),
        "xMissing": ("init", [M["A"], M["X"]], ["one"], C), "xValue": ("init", [M["A"]], ["nope"], C), "xMeta": ("init", [M["M"]], ["one"], C), "xCRS": ("init", [M["A"]], ["one"], "EPSG:999999"),
        "none": ("init", [], ["one"], C), "novalue": ("init", [M["A"]], [], C),
        "qin": ("query", *wx(pin)), "qnod": ("query", *wx(pnod)), "qout": ("query", *pout), "qair": ("query", *wx((50.0, 30.0, 500.0))), "qnan": ("query", "nan", 1.0, 1.0), "qll": ("query", 36.145, -122.99, -10.0),
        "top": ("top", *wx(pin)[:2]), "topo": ("topo", *wx(pin)[:2]), "topout": ("top", 1e6, 1e6), "topoout": ("topo", 1e6, 0.0),
        "min": ("minelev", -20.0), "sqtopo": ("squash", "topo"), "sqtop": ("squash", "top"), "sqnone": ("squash", "none"), "fin": ("final",), "reset": ("reset",),
    }

    def cmd(i, o, q="q"):
        a = ops[o]
        if a[0] == "init":
            return T(f"{i}.init", q, a[3], *L(a[1]), *L(a[2]))
        return T(f"{i}.{a[0]}", q, *a[1:])
    depth = 3 if ctx.quick else 4
    probes = ["qin", "qout", "top"]
    first = ["iA", "iBA", "xMeta", "qin", "fin"]
    if ctx.quick:
        seqs = [sq for n in range(1, depth + 1) for sq in itertools.product(ops, repeat=n) if n < 3 or sq[0] in first]
    else:
        core = [o for o in ops if o not in ("novalue", "topoout", "qair", "xValue", "qll", "sqtop", "topo", "iG")]
        seqs = [sq for n in range(1, 4) for sq in itertools.product(ops, repeat=n)] + [("iA",) + sq for sq in itertools.product(core, repeat=3)]
    scr = {}
    for i in "qc":
        scr[i] = []
        for sq in seqs:
            s = [T(f"{i}.new", "q")]
            for o in list(sq) + probes:
                s += [cmd(i, o), T(f"{i}.err", "q")]
            scr[i].append(s)
    rc = drv.run(scr["q"])
    rC = drv.run(scr["c"])
    rp = py.run(scr["q"])
    for sq, s, a, c, p, sc in zip(seqs, scr["q"], rc, rC, rp, scr["c"]):
        ctx.traces += 3
        ctx.nstates += 1
        ctx.transitions += 3 * len(s)
        prob = compare(list(sq) + probes, ops, a[1:], c[1:], p[1:])
        if not prob and len(a) + len(c) + len(p) > 3 * len(s):
            prob = f"destruction failed: {a[len(s):]}{c[len(s):]}{p[len(s):]}"
        if prob:
            ctx.violation(f"query {sq}", f"operations {list(sq) + probes}: {prob}", {"script": s, "script_c": sc, "files": [M[k] for k in "ABGM"]})
    ctx.sample("initialize A, query outside, initialize with missing file, query: same answers through C++, C and Python")
    points(ctx, drv, py, M, specs, R)
    model_objects(ctx, drv, py, M, specs, R)
    null_handles(ctx, drv)
    ctx.notes.update(rule="states = operation sequences and (model, point, array form) tuples", driver_commands=drv.commands + py.commands)


def compare(sq, ops, a, c, p):
    """Answers of C++ (a), C (c) and Python (p); every operation is followed by the handler's status."""
    status = 0  # expected status in C: the latest failure decides
    for k, o in enumerate(sq):
        x, xe, y, ye, z, ze = a[2 * k], a[2 * k + 1], c[2 * k], c[2 * k + 1], p[2 * k], p[2 * k + 1]
        kind = ops[o][0]
        for who, r in (("C++", x), ("C", y), ("Python", z)):
            if r[0] in ("CRASH", "SKIP"):
                return f"step {k} ({o}) through {who}: {list(r)}"
        if y[0] != "OK":
            return f"step {k} ({o}) through C: {list(y)}"
        # C++ versus Python
        if x[0] == "EXC" or kind == "query" and x[1] == "2":
            if z[0] != "EXC" or not z[2]:
                return f"step {k} ({o}): C++ {list(x)}, Python {list(z)}"
            if x[0] == "EXC" and z[2] != x[2]:
                return f"step {k} ({o}): message C++ {x[2]!r}, Python {z[2]!r}"
            if x[0] == "EXC" and not x[2]:
                return f"step {k} ({o}): C++ exception without message"
            status = 2
        elif list(x) != list(z):
            return f"step {k} ({o}): C++ {list(x)}, Python {list(z)}"
        if xe[:2] != ze[:2]:
            return f"status after step {k} ({o}): C++ {list(xe)}, Python {list(ze)}"
        # C++ versus C
        if kind == "reset":
            status = 0
        if kind == "query":
            if x[0] == "OK" and x[1] == "1":
                status = 1
            if x[0] == "OK" and (x[2:] != y[2:] if x[1] != "2" else any(float(v) not in (7777.0, NODATA) for v in y[2:])):
                return f"step {k} ({o}): values C++ {list(x)}, C {list(y)}"
            if y[1] != str(status):
                return f"step {k} ({o}): C++ {list(x)}, C returns status {y[1]}, expected {status}"
        elif kind in ("top", "topo"):
            if x[0] == "OK" and float(x[1]) == NODATA:
                status = 1
            if float(y[1]) != (float(x[1]) if x[0] == "OK" else NODATA):
                return f"step {k} ({o}): elevation C++ {list(x)}, C {list(y)}"
        elif kind == "init":
            if y[1] != str(status):
                return f"step {k} ({o}): C++ {list(x)}, C returns status {y[1]}, expected {status}"
        elif kind in ("minelev", "squash", "final") and y[1] != str(status):
            return f"step {k} ({o}): C returns status {y[1]}, expected {status}"
        if ye[1] != str(status) or (status == 0) != (ye[2] == ""):
            return f"after step {k} ({o}): C status and message {list(ye)}, expected status {status}"
        if x[0] == "EXC" and x[2] not in ye[2]:
            return f"after step {k} ({o}): C message {ye[2]!r} does not hold the reason {x[2]!r}"
    return None


def points(ctx, drv, py, M, specs, R):
    """A lattice of points over every model and setting, one by one and as arrays of every form."""
    good = ["plain", "list", "fortran", "strided", "reversed", "big", "readonly", "tuple"]
    bad = ["1d", "3d", "wide", "narrow", "0d", "transposed", "text", "none"]
    xs = [-1.0, 0.0, 1e-7, 24.0, 50.0, 99.0, 100.0, 101.0] if ctx.quick else [-1.0, 0.0, 1e-9, 1e-7, 10.0, 24.0, 49.999, 50.0, 75.0, 99.0, 100.0, 100.0 + 1e-8, 101.0]
    zs = [20.0, 5.0, 0.0, -15.0, -29.0, -30.0, -60.0, -61.0]
    P = [R.world(x, y) + (z,) for x in xs for y in xs for z in zs]
    sets = [("A", [M["A"]], ["two", "one"]), ("BA", [M["B"], M["A"]], ["one", "two"]), ("AB", [M["A"], M["B"]], ["two"])]
    settings = [[], [("minelev", -20.0)], [("squash", "topo"), ("minelev", -25.0)], [("minelev", -20.0), ("squash", "none")]]
    for name, ms, vs in sets:
        for st in settings:
            head = lambda i: [T(f"{i}.new", "q"), T(f"{i}.init", "q", "EPSG:3311", *L(ms), *L(vs))] + [T(f"{i}.{a}", "q", b) for a, b in st]
            n = len(head("q"))
            body = lambda i: [T(f"{i}.query", "q", *p) for p in P] + [T(f"{i}.{k}", "q", *p[:2]) for p in P[::len(zs)] for k in ("top", "topo")]
            a, y = drv.one(head("q") + body("q"))[n:], drv.one(head("c") + body("c"))[n:]
            np_ = len(P)
            pys = []
            for form in good:
                f = lambda x: T(x) if not isinstance(x, tuple) else x
                pys.append([T("q.many", "q", "query", form, len(P), *[v for p in P for v in p])] + [T("q.many", "q", k, form, len(P[::len(zs)]), *[v for p in P[::len(zs)] for v in p[:2]]) for k in ("top", "topo")])
            for form in bad:
                pys.append([T("q.many", "q", k, form, 2, *[v for p in P[:2] for v in (p if k == "query" else p[:2])]) for k in ("query", "top", "topo")])
            empty = [T("q.many", "q", k, "plain", 0) for k in ("query", "top", "topo")]
            z = py.run([head("q") + s for s in pys + [empty, body("q")]])
            single = z[-1][n:]
            for i, (p, r, s, t) in enumerate(zip([q for q in P] + [(q, k) for q in P[::len(zs)] for k in ("top", "topo")], a, y, single)):
                ctx.nstates += 1
                ctx.transitions += 3
                same = list(r) == list(t) and (r[2:] == s[2:] if i < np_ else float(r[1]) == float(s[1]))
                if not same:
                    ctx.violation(f"points {name} {st} {p}", f"models {name}, settings {st}, point {p}: C++ {list(r)}, C {list(s)}, Python {list(t)}", {"script": head("q") + body("q")[i:i + 1], "files": ms})
                    break
            flat = [str((np_, len(vs))), str((np_,))] + [v for r in a[:np_] for v in r[1:]]
            for form, r in zip(good, z):
                ctx.transitions += 3
                for what, got, exp in [("query", r[n], flat)] + [(k, r[n + 1 + j], [str((len(P) // len(zs),))] + [q[1] for q in a[np_ + j::2]]) for j, k in enumerate(("top", "topo"))]:
                    if got[1:] != exp:
                        j = next((j for j, (u, v) in enumerate(zip(got[1:], exp)) if u != v), None)
                        ctx.violation(f"array {name} {st} {form} {what}", f"models {name}, settings {st}: Python {what} of an array ({form}) differs from C++ at item {j}: {list(got)[:1 + (j or 0)][-3:]} {got[0]}", {"form": form})
            for form, r in zip(bad, z[len(good):]):
                for what, got in zip(("query", "top", "topo"), r[n:]):
                    ctx.transitions += 1
                    if got[0] != "EXC" or not got[2]:
                        ctx.violation(f"bad array {name} {form} {what}", f"Python {what} of points with wrong shape ({form}) must raise an exception, got {list(got)[:6]}", {"form": form})
            for what, got in zip(("query", "top", "topo"), z[-2][n:]):
                if got[0] != "OK" or got[1] != (str((0, len(vs))) if what == "query" else str((0,))):
                    ctx.violation(f"empty array {name} {what}", f"Python {what} of no points gave {list(got)}", {"form": "empty"})
    # arrays of other number types are converted
    for name, ms, vs in sets[:1]:
        s = [T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L(ms), *L(vs))]
        ip = [(x, y, z) for x in range(10, 100, 20) for y in range(-60, 60, 20) for z in (0, -7, -40)]
        a = drv.one(s + [T("q.query", "q", *p) for p in ip])[2:]
        z = py.one(s + [T("q.many", "q", "query", f, len(ip), *[v for p in ip for v in p]) for f in ("f4", "int", "int32")])[2:]
        for f, r in zip(("f4", "int", "int32"), z):
            if r[3:] != [v for q in a for v in q[1:]]:
                ctx.violation(f"array type {f}", f"Python query of {f} points differs from C++: {list(r)[:8]}", {"form": f})


def model_objects(ctx, drv, py, M, specs, R):
    """Every order of calls on a model object, C++ and Python side by side."""
    p, o = R.world(50.0, 30.0) + (-5.0,), (5000.0, 5000.0, 0.0)
    ops = {
        "crs": ("crs", "EPSG:3311"), "badcrs": ("crs", "EPSG:999999"), "openA": ("open", M["A"]), "openB": ("open", M["B"]), "openX": ("open", M["X"]), "openM": ("open", M["M"]), "openS": ("open", M["S"]), "load": ("load",),
        "init": ("init",), "close": ("close",), "meta": ("meta",), "info": ("info",), "in?": ("contains", *p), "out?": ("contains", *o), "query": ("query", *p), "qout": ("query", *o), "top": ("top", *p[:2]), "topo": ("topo", *p[:2]),
    }
    depth = 4 if ctx.quick else 5
    setup = ["crs", "openA", "load", "init"]
    alpha = [k for k in ops if k not in (("meta", "info", "out?", "topo", "openS", "badcrs", "openX") if ctx.quick else ("openX", "badcrs"))]
    probes = ["meta", "info", "in?", "query", "top", "topo"]
    # from a fresh object and from each stage of a normal setup
    starts = [setup[:k] for k in range(5)] + [setup + ["query", "close"]]
    seqs = []
    for st in starts:
        for n in range(0, (3 if ctx.quick else 4)):
            seqs += [tuple(st) + sq for sq in itertools.product(ops if n < 3 else alpha, repeat=n)]
    seqs = sorted(set(seqs))
    scripts = [[T("m.new", "m")] + [T("m." + ops[x][0], "m", *ops[x][1:]) for x in list(sq) + probes] for sq in seqs]
    ra, rp = drv.run(scripts), py.run(scripts)
    full = {}
    for k in "AB":
        full[k] = drv.one([T("m.new", "m")] + [T("m." + ops[x][0], "m", *(ops[x][1:] if x != "openA" else (M[k],))) for x in setup + probes])[5:]
    for sq, s, a, z in zip(seqs, scripts, ra, rp):
        ctx.traces += 2
        ctx.nstates += 1
        ctx.transitions += 2 * len(s)
        # state: which file is open / loaded / ready for queries; None = nothing, "?" = not predicted
        opened = loaded = ready = None
        crs = None
        prob = None
        for x, r, t in zip(list(sq) + probes, a[1:], z[1:]):
            if r[0] in ("CRASH", "SKIP") or t[0] in ("CRASH", "SKIP"):
                prob = f"{x}: C++ {list(r)}, Python {list(t)}"
            elif r[0] == "EXC" and (t[0] != "EXC" or r[2] != t[2] or not r[2]) or r[0] == "OK" and list(r) != list(t):
                prob = f"{x}: C++ {list(r)[:8]}, Python {list(t)[:8]}"
            if prob:
                break
            if x in ("crs", "badcrs"):
                crs = x
            elif x.startswith("open"):
                loaded = ready = None
                opened = x[4] if r[0] == "OK" else None
                if (r[0] == "OK") != (x != "openX"):
                    prob = f"{x}: {list(r)}"
            elif x == "load":
                want = opened in ("A", "B")
                ready = None
                loaded = opened if want else None
                if (r[0] == "OK") != want:
                    prob = f"load with open file {opened}: {list(r)}"
            elif x == "init":
                want = loaded is not None and crs != "badcrs"
                ready = (loaded if crs else "WGS84") if want else None
                if (r[0] == "OK") != want:
                    prob = f"initialize with loaded file {loaded} and {crs}: {list(r)}"
            elif x == "close":
                opened = loaded = ready = None
            elif x in ("in?", "out?", "query", "qout", "top", "topo"):
                if ready is None or x == "qout":
                    if r[0] != "EXC":
                        prob = f"{x} on a model that is not ready: {list(r)}"
                elif ready == "WGS84":
                    pass  # the point is somewhere else
                elif x == "out?":
                    if list(r) != ["OK", "0"]:
                        prob = f"{x}: {list(r)}"
                elif list(r) != list(full[ready][probes.index(x)]):
                    prob = f"{x} on model {ready}: {list(r)}, expected {list(full[ready][probes.index(x)])}"
            elif x in ("meta", "info") and loaded and list(r) != list(full[loaded][probes.index(x)]):
                prob = f"{x} of model {loaded}: {list(r)}, expected {list(full[loaded][probes.index(x)])}"
            if prob:
                break
        if not prob and len(a) + len(z) > 2 * len(s):
            prob = f"destruction failed: {a[len(s):]} {z[len(s):]}"
        if prob:
            ctx.violation(f"model {sq}", f"model object, operations {list(sq) + probes}: {prob}", {"script": s, "files": [M[k] for k in "ABMS"]})
    # array forms of the model object
    pts = [R.world(x, y) + (z,) for x in (0.0, 30.0, 99.0) for y in (1.0, 79.0) for z in (0.0, -5.0, -31.0)]
    hd = [T("m.new", "m")] + [T("m." + ops[x][0], "m", *ops[x][1:]) for x in setup]
    for k in ("query", "top", "topo", "contains"):
        nd = 2 if k in ("top", "topo") else 3
        a = drv.one(hd + [T(f"m.{k}", "m", *q[:nd]) for q in pts])[5:]
        exp = [float(v) for r in a for v in (r[2:] if k == "query" else r[1:])]
        for form in ("plain", "list", "fortran", "strided", "1d", "3d", "wide", "narrow", "0d", "text"):
            ctx.transitions += 1
            r = py.one(hd + [T("m.many", "m", k, form, len(pts), *[v for q in pts for v in q[:nd]])])[5]
            if form in ("plain", "list", "fortran", "strided"):
                ok = r[0] == "OK" and [float(v) if v not in ("True", "False") else float(v == "True") for v in r[2:]] == exp
            else:
                ok = r[0] == "EXC" and r[2]
            if not ok:
                ctx.violation(f"model array {k} {form}", f"Python Model.{k} of an array ({form}): {list(r)[:8]}, C++ {exp[:6]}", {"script": hd})


def null_handles(ctx, drv):
    r = drv.one([T("c.null")])[0]
    exp = ["OK"] + ["2"] * 5
    if r[:6] != exp or float(r[6]) != NODATA or float(r[7]) != NODATA or r[8] != "1":
        ctx.violation("null handles", f"C functions with a NULL handle answer {list(r)}", {"script": [T("c.null")]})
    ctx.transitions += 10
