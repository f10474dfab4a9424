"""C14: batches partition the grid.

All 2-D and 3-D grid dimensions up to a bound x every maximum from 1 to more than the grid (and none): the batches
produced by the real generators are counted on a grid of counters - each point exactly once, no empty or oversized
batch, iteration ends.  Larger grids at every maximum next to a perfect square or cube."""
import itertools
import json

from gmg import *


def creator(ctx):
    ctx.build("python")
    return Drv(str(VERIF / "lib" / "creator.py"), env={"GMG_STAGE": ctx.paths["stage"], "LD_PRELOAD": "", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1"})


def J(kind, **job):
    return T(kind, json.dumps(job))


def answer(r):
    if r[0] != "OK":
        raise RuntimeError(str(r))
    return json.loads(r[1])


def check(ctx):
    drv = creator(ctx)
    n2, n3 = (16, 7) if ctx.quick else (30, 11)
    jobs = []
    for dims in itertools.chain(itertools.product(range(1, n2 + 1), repeat=2), itertools.product(range(1, n3 + 1), repeat=3)):
        total = int(np.prod(dims))
        jobs.append({"dims": dims, "max": [None, "omitted", 0] + list(range(1, total + 4))})
    # long thin and larger grids, at maxima around squares, cubes and products of dimensions
    big = [(1, 60, 1), (60, 1, 2), (3, 1, 70), (2, 50, 3), (50, 2, 3), (2, 3, 50), (30, 20, 2), (30, 2, 20), (2, 30, 20), (17, 18, 19), (28, 30, 12), (12, 28, 30), (30, 12, 28), (120, 90), (1, 500), (500, 2), (99, 100), (300, 7)]
    if not ctx.quick:
        big += [(33, 34, 35), (64, 64, 64), (100, 5, 100), (5, 100, 100), (100, 100, 5), (1000, 999), (3, 4, 2000), (2000, 4, 3), (4, 2000, 3)]
    for dims in big:
        total = int(np.prod(dims))
        root = 3 if len(dims) == 3 else 2
        mx = {k ** p * m + e for k in range(1, 130) for p in (1, 2, 3) for m in (1,) + tuple(dims) for e in (-1, 0, 1)}
        mx |= {a * b + e for a in dims for b in dims for e in (-1, 0, 1)} | {total - 1, total, total + 1}
        mx = sorted(m for m in mx if 1 <= m <= total + 2 and total / m < 2e4 / root)
        if ctx.quick:
            mx = mx[::2] + mx[-10:] if len(mx) > 400 else mx
        for i in range(0, len(mx), 150):
            jobs.append({"dims": dims, "max": [None] + mx[i:i + 150]})
    for j, a in zip(jobs, drv.run([[J("batch", **j)] for j in jobs])):
        a = answer(a[0])
        ctx.nstates += len(j["max"])
        ctx.transitions += a["batches"]
        ctx.traces += 1
        for dims, mx, why in a["bad"]:
            ctx.violation(f"{dims} max {mx}", f"grid {dims}, at most {mx} points per batch: {why}", {"dims": dims, "max": mx, "why": why})
    ctx.sample("dims %s, maxima %s" % (jobs[-1]["dims"], jobs[-1]["max"][:6]))
    ctx.notes["rule"] = "all dimensions up to the bound x all maxima up to more than the grid; counters over every grid point"
