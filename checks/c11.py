"""C11: a failed read is reported and never yields or leaves wrong data.

For a set of histories, every position at which a storage-library call is made is made to fail (once, or from then on
until a later point), on the real code under AddressSanitizer.  Every answer given while the failure is active must be the
failure-free answer or an error; once reads succeed again every answer must be the failure-free one (or, after a failed
initialize, that of an object that is not initialized) and a new initialize must work."""
import itertools

import h5py
import numpy as np

from gmg import *

SENT = (NODATA, 7777.0)


def runs(ctx, drv, name, pre, ops, files, judge, probes, modes):
    """ops: list of (kind, command).  First a fault-free run with counting, then one run per fault."""
    base = drv.one(pre + [T("f.zero")] + [x for _, c in ops for x in (c, T("f.count"))] + [c for _, c in probes])
    if any(a[0] != "OK" for a in base):
        bad = [i for i, a in enumerate(base) if a[0] != "OK"][0]
        if True:
            ctx.violation(f"{name} faultfree", f"{name}: fails without any fault: {list(base[bad])}", {"script": pre + [c for _, c in ops], "files": files})
            return
    n0 = len(pre) + 1
    answers = [list(base[n0 + 2 * i]) for i in range(len(ops))]
    panswers = [list(a) for a in base[n0 + 2 * len(ops):]]
    last = base[n0 + 2 * len(ops) - 1]
    counts = {last[2 + 2 * i]: int(last[3 + 2 * i]) for i in range(int(last[1]))}
    cum = []
    for i in range(len(ops)):
        c = base[n0 + 2 * i + 1]
        cum.append({c[2 + 2 * j]: int(c[3 + 2 * j]) for j in range(int(c[1]))})
    jobs, scripts = [], []
    for fn, total in sorted(counts.items()):
        for nth in range(1, total + 1):
            hitop = next(i for i in range(len(ops)) if cum[i].get(fn, 0) >= nth)
            for persist, span in modes:
                end = hitop + span
                if end >= len(ops) and span:
                    end = len(ops) - 1
                    if (persist, "end") in [(j[2], j[5]) for j in jobs[-6:] if j[0] == fn and j[1] == nth]:
                        continue
                s = pre + [T("f.set", fn, nth, persist)]
                for i, (_, c) in enumerate(ops):
                    s.append(c)
                    if i == end:
                        s.append(T("f.clear"))
                s += [c for _, c in probes]
                scripts.append(s)
                jobs.append((fn, nth, persist, hitop, end, "end" if end == len(ops) - 1 else span))
    for (fn, nth, persist, hitop, end, _), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.traces += 1
        k, p = judge(), len(pre) + 1
        desc = f"{name}: {fn} fails at its call {nth} ({'from then on until after' if persist else 'once, during'} operation {end}: {ops[end][1]})".replace("\t", " ")
        for i, ((kind, c), want) in enumerate(list(zip(ops, answers)) + list(zip(probes, panswers))):
            a = r[p]
            ctx.transitions += 1
            ctx.nstates += 1
            err = k.step(kind, a, want, hitop <= i <= end)
            if err:
                ctx.violation(f"{name} {fn} {nth} {persist} {end} {i}", f"{desc}; then {c} gave {list(a)} (without failure: {want}): {err}", {"script": s[:p + 1], "files": files})
                break
            p += 2 if i == end else 1
        else:
            if len(r) > len(s):
                ctx.violation(f"{name} {fn} {nth} {persist} {end} del", f"{desc}; destruction: {list(r[-1])}", {"script": s, "files": files})


class QJudge:
    """State of a query object: initialized with the last initialize or not."""
    def __init__(self, c=False):
        self.init, self.c = False, c

    def iserr(self, a):
        if self.c:
            return a.ok and a[1] == str(ERROR) and all(float(v) in SENT for v in a[2:])
        return a[0] == "EXC" and a[2] != ""

    def step(self, kind, a, want, active):
        if kind == "set":
            return None if a.ok else "must not fail"
        if kind == "init":
            if list(a) == want:
                self.init = True
                return None
            self.init = False
            if active and self.iserr(a):
                return None
            return "neither success nor an error"
        if kind == "final":
            self.init = False
            return None if a.ok else "must not fail"
        if not self.init:
            if kind == "err":
                return None if a.ok else "must not fail"
            if kind == "query":
                return None if a.ok and a[1] in ("1", "2") and all(float(v) in SENT for v in a[2:]) else "not initialized: expected an error or warning and no values"
            return None if a.ok and float(a[1]) == NODATA else "not initialized: expected no-data"
        if kind == "elev":
            self.ok = True
        if list(a) == want:
            return None
        if active:
            if kind == "err":
                return None if a.ok and (a[1] == str(ERROR) and a[2] or self.ok) else "the failure is not reported"
            if self.c and kind == "elev" and a.ok and float(a[1]) == NODATA:
                self.ok = False
                return None  # the handler's status, read next, tells
            if self.iserr(a):
                return None
            return "neither the answer nor an error"
        if kind == "err":
            return None  # sticky status of an earlier error
        return "wrong answer although reads succeed again"


class HJudge:
    """Blocks, surfaces and windows: state = which objects are open."""
    def __init__(self):
        self.good = True

    def step(self, kind, a, want, active):
        if list(a) == want:
            return None
        if active and a[0] == "EXC" and a[2] != "":
            return None
        return "neither the answer nor an error" if active else "wrong answer although reads succeed again"


def check(ctx):
    drv = ctx.driver()
    w = ctx.work
    rng = np.random.default_rng(2)

    def model(tag, n, x0, base, top, topo, variable, values, strings):
        nx, ny, nz = n
        ax = (lambda k, r, d=1: Axis(coords=[d * i * r for i in range(k)])) if variable else (lambda k, r, d=1: Axis(k, r))
        data = base + rng.integers(0, 1000, size=(nx, ny, nz, len(values))).astype(float)
        sf = lambda on: SurfSpec(ax(nx, 10.0), ax(ny, 10.0), rng.integers(1, 9, size=(nx, ny)).astype(float)) if on else None
        half = BlockSpec("zlow", ax(nx, 10.0), ax(ny, 10.0), Axis(coords=[-10.0 * (nz - 1), -10.0 * nz]) if variable else Axis(2, 10.0), -10.0 * (nz - 1),
                         base + rng.integers(0, 1000, size=(nx, ny, 2, len(values))).astype(float))
        spec = ModelSpec((10.0 * (nx - 1), 10.0 * (ny - 1), 10.0 * nz), [BlockSpec("a", ax(nx, 10.0), ax(ny, 10.0), ax(nz, 10.0, -1), 0.0, data), half], origin=(x0, 0.0),
                         values=values, units=["m"] * len(values), top=sf(top), topo=SurfSpec(ax(nx, 10.0), ax(ny, 10.0), rng.integers(-9, 0, size=(nx, ny)).astype(float)) if topo else None)
        return spec.write(str(w / f"{tag}.h5"), strings=strings)
    A = model("A", (150, 3, 3), 0.0, 10000, True, True, False, ["one", "two"], "fixed")
    B = model("B", (2, 140, 2), 1000.0, 30000, True, False, True, ["two", "three"], "vlen")
    Z = model("Z", (3, 2, 2), 0.0, 50000, False, False, False, ["two"], "fixed")
    C = "EPSG:3311"

    # 1. whole objects, both interfaces
    near, far, low = (15.0, 11.0, -7.0), (1484.0, 11.0, -7.0), (700.0, 5.0, -29.0)
    inB1, inB2 = (1005.0, 15.0, -3.0), (1005.0, 1380.0, -3.0)
    for iface in ("q", "c"):
        q = lambda p: ("query", T(iface + ".query", "o", *p))
        el = lambda s, p: ("elev", T(f"{iface}.{s}", "o", *p[:2]))
        init = lambda m, v: ("init", T(iface + ".init", "o", C, *L(m), *L(v)))
        rs = [("set", T("c.reset", "o"))] if iface == "c" else []

        def wrap(ops):
            out = []
            for k, c in ops:
                out += rs + [(k, c)]
                if iface == "c" and k == "elev":
                    out.append(("err", T("c.err", "o")))
            return out
        hist = {
            "uniform model": [init([A], ["one", "two"]), q(near), q(far), el("top", far), q(near), q(low), el("topo", near), el("top", near), q(far)],
            "variable model": [init([B], ["two"]), q(inB1), q(inB2), el("top", inB2), q(inB1), el("topo", inB1)],
            "two models, twice": [init([A, B], ["two"]), q(inB2), q(near), el("top", far), ("final", T(iface + ".final", "o")), init([B, A], ["two"]), q(far), q(inB1), el("topo", inB2)],
            "no surfaces": [init([Z], ["two"]), q((5.0, 5.0, -5.0)), el("top", (5.0, 5.0)), init([A], ["two"]), q(near)],
        }
        hist["squashing"] = [("set", T(iface + ".minelev", "o", -20.0))] + hist["uniform model"][:5] + [("set", T(iface + ".squash", "o", "topo"))] + hist["uniform model"][5:]
        modes = [(0, 0), (1, 1)] if ctx.quick else [(0, 0), (1, 0), (1, 1), (1, 2), (1, 4), (1, 99)]
        for hn, ops in hist.items():
            if ctx.quick and iface == "c" and hn in ("variable model", "squashing"):
                continue
            probes = []
            for k, c in ops[1:]:
                if k in ("query", "elev"):
                    probes.append((k, c))
            # later queries; then a new initialize and the same again.  Probes must be answerable in the final configuration.
            lastinit = max(i for i, (k, _) in enumerate(ops) if k == "init")
            tail = [o for o in ops[lastinit + 1:] if o[0] in ("query", "elev")]
            runs(ctx, drv, f"{hn} through {iface}", [T(iface + ".new", "o")], wrap(ops), [A, B, Z], lambda: QJudge(iface == "c"),
                 wrap(tail + tail[::-1] + [ops[lastinit]] + tail), modes)

    # 2. windows of blocks and surfaces: all histories of three positions in different windows
    path = str(w / "win.h5")
    with h5py.File(path, "w") as h5:
        d = h5.create_dataset("blocks/b", data=rng.permutation(9 * 3 * 2 * 2).reshape(9, 3, 2, 2).astype(float))
        d.attrs.update(x_resolution=1.0, y_resolution=1.0, z_resolution=1.0, z_top=0.0)
        d = h5.create_dataset("surfaces/top_surface", data=rng.permutation(9 * 5).reshape(9, 5, 1).astype(float))
        d.attrs.update(x_resolution=1.0, y_resolution=1.0)
    pos = [(0.5, 0.5, -0.5), (4.5, 1.5, -0.25), (8.0, 2.0, -1.0)] + ([] if ctx.quick else [(2.5, 0.25, -0.5), (6.75, 1.0, 0.0)])
    for seq in itertools.product(range(len(pos)), repeat=3):
        pre = [T("h.new", "h"), T("h.open", "h", path), T("b.new", "b", "b"), T("b.load", "b", "h"), T("b.slab", "b", 3, 2, 2), T("b.open", "b", "h"),
               T("s.new", "s", "top_surface"), T("s.load", "s", "h"), T("s.slab", "s", 3, 3), T("s.open", "s", "h")]
        ops = [("q", c) for i in seq for c in (T("b.query", "b", *pos[i]), T("s.query", "s", *pos[i][:2]))]
        probes = [("q", c) for i in list(range(len(pos))) + [0] for c in (T("b.query", "b", *pos[i]), T("s.query", "s", *pos[i][:2]))]
        probes = probes if seq[0] % 2 else probes[::-1]
        runs(ctx, drv, f"windows at {[pos[i] for i in seq]}", pre, ops, [path], HJudge, probes, [(0, 0), (1, 1), (1, 3)])
    # nothing was read yet when the failure occurs
    ctx.sample("initialize(A) with the 7th H5Aread failing from then on until after the next query, then queries, initialize, queries")
    ctx.notes.update(rule="states = (history, fault, operation) judged", driver_commands=drv.commands)
    ctx.assumptions += ["failures are injected in the storage-library calls that read from the file; in-memory calls are assumed to work"]
