"""C08: values are matched by name, in the requested order, ignoring case.

All ordered selections (with repetition) of value names up to a bound, spelled in several cases, against all ordered
selections of up to three models that store their values in different orders, spellings and units."""
import itertools

import numpy as np

from gmg import *

# name -> list of (value name, unit); constants are 100*model + index of the value in ALPHA
ALPHA = ["vp", "vs", "density", "fault_block_id", "v"]
MODELS = {
    "a": [("Vp", "m/s"), ("Vs", "m/s"), ("Density", "kg/m**3"), ("fault_block_id", "none"), ("v", "m")],
    "b": [("v", "M"), ("density", "KG/M**3"), ("VS", "m/s"), ("VP", "M/S"), ("Fault_Block_ID", "None")],   # other order and spelling
    "c": [("vs", "m/s"), ("vp", "m/s")],                                                                  # lacks some
    "d": [("density", "g/cm**3"), ("vp", "km/s"), ("vs", "m/s"), ("v", "m"), ("fault_block_id", "none")],    # other units
    "e": [("vs", "m/s"), ("v", "km"), ("density", "kg/m**3")],
}
REQUESTS = ["Vs", "VP", "density", "v", "faUlt_block_ID", "", "vq", "Vs "]


def check(ctx):
    drv = ctx.driver()
    names = sorted(MODELS)
    paths = {}
    for i, n in enumerate(names):
        data = np.empty((2, 2, 2, len(MODELS[n])))
        for k, (v, u) in enumerate(MODELS[n]):
            data[..., k] = 100.0 * (i + 1) + ALPHA.index(v.lower())
        # model i covers x in [100 i, 100 i + 100]; plus a common strip y in [0, 10] for all of them
        spec = ModelSpec((100.0, 50.0, 20.0), [BlockSpec("blk", Axis(2, 100.0), Axis(2, 50.0), Axis(2, 20.0), 0.0, data)], origin=(100.0 * i, 0.0),
                         values=[v for v, _ in MODELS[n]], units=[u for _, u in MODELS[n]])
        paths[n] = spec.write(str(ctx.work / f"{n}.h5"), strings=["fixed", "padded", "vlen", "fixed", "vascii"][i])
    kmax = 2 if ctx.quick else 3
    reqs = [r for k in range(1, 4) for r in itertools.product(REQUESTS[:5], repeat=k)]
    reqs += [tuple(REQUESTS[:5]), tuple(REQUESTS[4::-1])] + [tuple(ALPHA[p] for p in perm) for perm in itertools.permutations(range(5))]
    reqs += [r for bad in REQUESTS[5:] for k in (0, 1, 2) for g in itertools.product(REQUESTS[:2], repeat=k) for r in {(bad,) + g, g + (bad,)}]
    sels = [s for k in range(1, kmax + 1) for s in itertools.product(names, repeat=k)]
    if ctx.quick:
        sels += [("a", "b", "a"), ("b", "a", "c"), ("c", "b", "a"), ("a", "c", "d"), ("b", "a", "d"), ("a", "b", "e"), ("e", "b", "a"), ("d", "d", "c")]
    scripts, jobs = [], []
    for sel in sels:
        for rq in reqs:
            low = [q.lower() for q in rq]
            lack = [(m, q) for m in sel for q in low if q not in [v.lower() for v, _ in MODELS[m]]]
            clash = []
            for q in low:
                us = [dict((v.lower(), u.lower()) for v, u in MODELS[m]).get(q) for m in sel]
                if len(set(us)) > 1:
                    clash.append((q, us))
            want = "lack" if lack else "clash" if clash else "ok"
            s = [T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L([paths[m] for m in sel]), *L(rq))]
            pts = [100.0 * names.index(m) + 50.0 for m in sorted(set(sel))]
            if want == "ok":
                s += [T("q.names", "q")] + [T("q.query", "q", x, 5.0, -10.0) for x in pts] + [T("q.query", "q", 5000.0, 0.0, -10.0)]
            scripts.append(s)
            jobs.append((sel, rq, low, want, lack, clash, sorted(set(sel))))
    for (sel, rq, low, want, lack, clash, ms), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.traces += 1
        ctx.nstates += 1
        ctx.transitions += 1
        fl = [paths[m] for m in sel]
        desc = f"models {[(m, MODELS[m]) for m in sel]}, requested {rq}"
        if want != "ok":
            msg = r[1][2] if r[1][0] == "EXC" else ""
            good = r[1][0] == "EXC" and msg and any(q in msg.lower() for q in [q for _, q in lack] + [q for q, _ in clash])
            if not good:
                ctx.violation(f"{sel} {rq}", f"{desc}: must be rejected ({lack or clash}), initialize gave {list(r[1])}", {"script": s, "files": fl})
            continue
        if not r[1].ok:
            ctx.violation(f"{sel} {rq}", f"{desc}: initialize gave {list(r[1])}", {"script": s, "files": fl})
            continue
        for i, m in enumerate(ms):
            a = r[3 + i]
            ctx.transitions += 1
            w = [100.0 * (names.index(m) + 1) + ALPHA.index(q) for q in low]
            if not (a.ok and a[1] == "0" and len(a) == 2 + len(w) and all(close(float(x), y) for x, y in zip(a[2:], w))):
                ctx.violation(f"{sel} {rq} {m}", f"{desc}: in model {m} expected {w}, got {list(a)}", {"script": s[:2] + [s[3 + i]], "files": fl})
        a = r[3 + len(ms)]
        if not (a.ok and a[1] == "1" and [float(x) for x in a[2:]] == [NODATA] * len(rq)):
            ctx.violation(f"{sel} {rq} out", f"{desc}: outside all models got {list(a)}", {"script": s[:2] + [s[-1]], "files": fl})
    many(ctx, drv)
    ctx.sample("models (a, b), requested ('Vs', 'faUlt_block_ID', 'VP')")
    ctx.notes.update(rule="states = (ordered selection of models, request)", driver_commands=drv.commands)


LONG = ["density_of_saturated_rock", "density_of_saturated_rocks", "density_of_saturated_soil", "density_of_saturated_", "Density_Of_Dry_Rock", "q", "qs", "qsw", "quality", "Qp", "vp-fast", "vp_fast", "vp fast", "vp.fast", "0", "00", "x" * 300, "x" * 299 + "y"]


def many(ctx, drv):
    """Many and long names that share beginnings and ends: every name, every ordered pair and the whole list in several orders."""
    K = len(LONG)
    orders = [list(range(K)), list(range(K))[::-1], sorted(range(K), key=lambda i: (i * 7) % K)]
    paths = []
    for i, o in enumerate(orders):
        names = [LONG[k].upper() if (k + i) % 2 else LONG[k] for k in o]
        if i == 1:
            names = names[:-2]  # lacks the first two
            o = o[:-2]
        data = np.empty((3, 2, 2, len(o)))
        for k, v in enumerate(o):
            data[..., k] = 1000.0 * (i + 1) + 10 * v + np.arange(3).reshape(3, 1, 1)
        paths.append(ModelSpec((100.0, 50.0, 20.0), [BlockSpec("blk", Axis(3, 50.0), Axis(2, 50.0), Axis(2, 20.0), 0.0, data)], origin=(100.0 * i, 0.0), values=names, units=["m"] * len(o)).write(str(ctx.work / f"many{i}.h5"), strings=["fixed", "padded", "vlen"][i]))
    reqs = [(a,) for a in range(K)] + list(itertools.product(range(K), repeat=2)) + [tuple(range(K)), tuple(range(K))[::-1], tuple(range(2, K))] + [tuple((s * j) % K for j in range(K)) for s in (5, 11)]
    scripts, jobs = [], []
    for sel in ((0,), (1,), (2,), (0, 2), (2, 0), (0, 1), (1, 2, 0)):
        for rq in reqs:
            names = [LONG[k].swapcase() if j % 2 else LONG[k] for j, k in enumerate(rq)]
            s = [T("q.new", "q"), T("q.init", "q", "EPSG:3311", *L([paths[m] for m in sel]), *L(names))] + [T("q.query", "q", 100.0 * m + x, 5.0, -10.0) for m in sel for x in (25.0, 100.0 if m == 2 else 50.0)]
            scripts.append(s)
            jobs.append((sel, rq, names))
    for (sel, rq, names), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.traces += 1
        ctx.nstates += 1
        lack = 1 in sel and [LONG[k] for k in rq if k < 2]
        rep = {"script": s, "files": [paths[m] for m in sel]}
        if lack:
            ctx.transitions += 1
            if not (r[1][0] == "EXC" and any(q.lower() in r[1][2].lower() for q in lack)):
                ctx.violation(f"many {sel} {rq}", f"models {sel} of {len(orders)}, requested {names}: must be rejected ({lack}), initialize gave {list(r[1])}", rep)
            continue
        for (m, x), a in zip([(m, x) for m in sel for x in (25.0, 100.0 if m == 2 else 50.0)], r[2:]):
            ctx.transitions += 1
            w = [1000.0 * (m + 1) + 10 * k + x / 50.0 for k in rq]
            if not (r[1].ok and a.ok and a[1] == "0" and len(a) == 2 + len(w) and all(close(float(g), e) for g, e in zip(a[2:], w))):
                ctx.violation(f"many {sel} {rq} {m}", f"models {sel}, requested {names}: in model {m} at x={x} expected {w}, got {list(r[1])} {list(a)}", rep)
                break
