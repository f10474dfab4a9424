"""C27: independent objects do not influence each other.

All interleavings of bounded operation sequences of two and three objects (queries through C++ and C, model objects,
windows of blocks, on the same and on different files) run on the real code; each object must give exactly the answers it
gives when used alone."""
import itertools
from concurrent.futures import ThreadPoolExecutor

import numpy as np

from gmg import *


def interleavings(lens):
    """All orders in which sequences of the given lengths can be merged."""
    def rec(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                for r in rec(left[:i] + (n - 1,) + left[i + 1:]):
                    yield (i,) + r
    return list(rec(tuple(lens)))


def check(ctx):
    drv = ctx.driver()
    w = ctx.work
    V = lambda *c: Axis(coords=c)
    rng = np.random.default_rng(27)
    d = lambda *s: rng.integers(0, 999, size=s).astype(float) / 8
    A = ModelSpec((100.0, 80.0, 60.0), [BlockSpec("up", Axis(3, 50.0), Axis(2, 80.0), Axis(3, 15.0), 0.0, d(3, 2, 3, 2)), BlockSpec("low", Axis(2, 100.0), Axis(3, 40.0), Axis(2, 30.0), -30.0, d(2, 3, 2, 2))],
                  top=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[10.0, 20.0], [15.0, 5.0]])), topo=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[2.0, -4.0], [15.0, 1.0]])))
    B = ModelSpec((200.0, 200.0, 60.0), [BlockSpec("up", V(0.0, 3.0, 200.0), V(-1.0, 199.0), V(0.0, -60.0), 0.0, d(3, 2, 2, 2))], origin=(-40.0, -80.0), azimuth=10.0, values=("two", "one"), units=("m/s", "m"))
    # the axes of D have the numbers of points of those of B, at other places
    D = ModelSpec((200.0, 200.0, 60.0), [BlockSpec("up", V(0.0, 150.0, 200.0), V(-20.0, 220.0), V(0.0, -60.0), 0.0, d(3, 2, 2, 2))], origin=(-40.0, -80.0), azimuth=10.0, values=("two", "one"), units=("m/s", "m"),
                  top=SurfSpec(V(0.0, 70.0, 200.0), V(-1.0, 120.0, 200.0), d(3, 3)))
    # only the vertical axes of E and F are variable
    E, F = [ModelSpec((200.0, 200.0, 60.0), [BlockSpec("up", Axis(3, 100.0), Axis(2, 200.0), V(0.0, zm, -60.0), 0.0, d(3, 2, 3, 2))], origin=(-40.0, -80.0), azimuth=10.0, values=("two", "one"), units=("m/s", "m")) for zm in (-7.0, -50.0)]
    a, b, dd = A.write(str(w / "A.h5")), B.write(str(w / "B.h5")), D.write(str(w / "D.h5"))
    e, f = E.write(str(w / "E.h5")), F.write(str(w / "F.h5"))
    x = str(w / "missing.h5")
    files = [a, b, dd, e, f]
    C = "EPSG:3311"
    p, q, o = (30.0, 40.0, -10.0), (90.0, 70.0, -45.0), (5000.0, 0.0, 0.0)

    def query(i, n, models, values, crs=C):
        """Operation sequences of a query object."""
        I = lambda ms=models: T(f"{i}.init", n, crs, *L(ms), *L(values))
        Q = lambda pt: T(f"{i}.query", n, *pt)
        N, D = T(f"{i}.new", n), T(f"{i}.del", n)
        E = T(f"{i}.err", n)
        return {"life": [N, I(), Q(p), T(f"{i}.top", n, *p[:2]), D], "squash": [N, I(), T(f"{i}.minelev", n, -20.0), Q(p), T(f"{i}.final", n)], "fails": [N, I([a, x]), E, I(), Q(q)],
                "outside": [N, I(), Q(o), E, Q(q)], "reuse": [N, I(), Q(q), I(list(reversed(models))), Q(p)], "topo": [N, I(), T(f"{i}.squash", n, "topo"), T(f"{i}.topo", n, *q[:2]), Q(p)], "delete": [N, I(), D, N, E]}

    def model(n, f):
        N, O, Ld, I, D = T("m.new", n), T("m.open", n, f), T("m.load", n), T("m.init", n), T("m.del", n)
        K = T("m.crs", n, C)
        return {"life": [N, K, O, Ld, I, T("m.query", n, *p), T("m.close", n)], "meta": [N, O, Ld, T("m.meta", n), D], "fail": [N, T("m.open", n, x), O, Ld, T("m.blocks", n)], "top": [N, K, O, Ld, I, T("m.top", n, *q[:2]), T("m.contains", n, *p)]}

    def window(n, f):
        h = n + "h"
        return {"block": [T("h.new", h), T("h.open", h, f), T("b.new", n, "up"), T("b.load", n, h), T("b.open", n, h), T("b.query", n, 10.0, 20.0, -3.0), T("h.close", h)],
                "slab": [T("h.new", h), T("h.open", h, f), T("hs.new", n, h, "/blocks/up", 2, 2, 2, 2), T("hs.interp", n, 2, 0.5, 0.25, 0.5), T("hs.nearest", n, 2, 1.0, 1.0, 0.0)]}

    kinds = []
    for n in ("1", "2"):
        ks = {}
        for tag, i, ms, vs, crs in (("qA", "q", [a], ["one"], C), ("qAB", "q", [a, b], ["two", "one"], C), ("cB", "c", [b], ["two"], C), ("qA4326", "q", [a], ["one"], "EPSG:4326"), ("cBA", "c", [b, a], ["one", "two"], C), ("qD", "q", [dd], ["two"], C), ("qE", "q", [e], ["two"], C), ("cF", "c", [f], ["two"], C)):
            for k, s in query(i, "o" + n, ms, vs, crs).items():
                ks[f"{tag} {k}"] = s
        for tag, f in (("mA", a), ("mB", b), ("mD", dd)):
            for k, s in model("o" + n, f).items():
                ks[f"{tag} {k}"] = s
        for tag, f in (("wA", a), ("wB", b), ("wD", dd)):
            for k, s in window("o" + n, f).items():
                ks[f"{tag} {k}"] = s
        for tag, o1, c1, c2 in (("iV", "A", [0, 1, 5, 9], [0, 2, 5, 6]), ("iW", "A", [0, 4, 5, 7], [0, 2, 4]), ("iZ", "D", [9, 8, 2, 0], [9, 3, 0])):
            N1, N2 = T("ix.v", "o" + n, o1, *c1), T("ix.v", "o" + n, o1, *c2)
            G = [T("ix.get", "o" + n, x) for x in (4.5, 2.25)]
            ks[tag + " life"] = [N1, G[0], G[0], G[1], N2, G[0]]
        kinds.append(ks)
    names = list(kinds[0])
    if ctx.quick:
        left = [n for n in names if n in ("qA life", "qAB squash", "qA fails", "cB outside", "qAB reuse", "mA life", "wA slab", "mB meta", "qA4326 life", "qD life", "wD block", "qE life", "iV life", "iZ life")]
        right = [n for n in names if n in ("qA life", "qA delete", "qAB topo", "cB life", "mA top", "cBA fails", "mB life", "wB block", "cF life", "iW life", "iZ life")]
    else:
        left = [n for n in names if n.split()[0] in ("qA", "qAB", "mA", "wA") or n in ("cB outside", "cB reuse", "qA4326 life", "qD life", "qD topo", "mD life", "wD block", "qE life", "iV life", "iZ life")]
        right = [n for n in names if n.split()[1] in ("life", "fails", "reuse", "delete", "slab", "outside") and n.split()[0] not in ("qD", "qE", "iV")]
    # alone, in a process of its own
    fresh = ThreadPoolExecutor(8)
    solo = {}
    for j in (0, 1):
        for n, r in zip(names, fresh.map(lambda n: drv.run([kinds[j][n]])[0], names)):
            solo[j, n] = [list(v) for v in r]
            bad = [v for v in r if v[0] == "CRASH"]
            if bad:
                ctx.violation(f"alone {n}", f"{n} alone: {bad[0]}", {"script": kinds[j][n], "files": files})

    def explore(label, cols, combos, limit=None):
        """combos: tuples of sequence names, one per column; in every column the object is named after the column."""
        jobs, scripts = [], []
        for combo in combos:
            seqs = [kinds[j][n] if j < 2 else [c.replace("\to1", "\to3") for c in kinds[0][n]] for j, n in zip(cols, combo)]
            sols = [solo[min(j, 1) if j < 2 else 0, n] for j, n in zip(cols, combo)]
            lens = [len(s) for s in seqs]
            for order in interleavings_of(lens, limit):
                it = [iter(s) for s in seqs]
                scripts.append([next(it[i]) for i in order])
                jobs.append((combo, order, sols))
        for (combo, order, sols), s, r in zip(jobs, scripts, drv.run(scripts)):
            ctx.traces += 1
            ctx.transitions += len(s)
            ctx.nstates += 1
            k = [0] * len(combo)
            for i, c, v in zip(order, s, r):
                if list(v) != sols[i][k[i]]:
                    ctx.violation(f"{label} {combo} {order}", f"{label} {combo} in order {order}: {c!r} answered {list(v)}, alone {sols[i][k[i]]}", {"script": s, "files": files})
                    break
                k[i] += 1
            else:
                if len(r) > len(s):
                    ctx.violation(f"{label} {combo} {order} end", f"{label} {combo} in order {order}: destruction {list(r[-1])}", {"script": s, "files": files})
    memo = {}

    def interleavings_of(lens, limit):
        key = (tuple(lens), limit)
        if key not in memo:
            if limit is None:
                memo[key] = interleavings(lens)
            else:
                memo[key] = [o for o in interleavings(lens) if sum(x != y for x, y in zip(o, o[1:])) <= limit]
        return memo[key]
    if ctx.quick:
        explore("two objects", (0, 1), list(itertools.product(left, right)), limit=3)
        explore("two objects", (0, 1), [("qA life", "qA life"), ("qAB reuse", "cB life"), ("qA life", "mA top")])
        explore("three objects", (0, 1, 2), [("qA life", "cB life", "qAB squash")], limit=4)
    else:
        explore("two objects", (0, 1), list(itertools.product(left, right)), limit=4)
        explore("two objects", (0, 1), [(x, y) for x in left[:9] + ["mA top", "wA slab"] for y in right[:6] + ["mA life", "wB block"]])
        explore("three objects", (0, 1, 2), [(x, y, z) for x in ("qA life", "mA life", "qA fails") for y in ("cB life", "qA delete", "wA block") for z in ("qAB squash", "qAB reuse", "mB meta")], limit=4)
    ctx.sample("two queries on the same file, one deleted between the initialization and the query of the other")
    ctx.notes.update(rule="states = (operation sequences, interleaving)", driver_commands=drv.commands)


