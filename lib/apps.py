"""Shared by the checks of the command line programs."""
import itertools
import os

from gmg import *


def e6(v, width=14):
    """A number as the programs print it (std::scientific, precision 6)."""
    s = "%.6e" % v
    return s.rjust(width)


class Runner:
    """Runs programs through the driver (the real main functions, one process each)."""
    def __init__(self, ctx, drv):
        self.ctx, self.drv, self.n = ctx, drv, 0

    def __call__(self, jobs, before=None):
        """jobs: list of (name, args); returns list of (rc, stdout, stderr).  `{OUT}` in an argument is replaced by a fresh path."""
        scripts, paths = [], []
        for k, (name, args) in enumerate(jobs):
            self.n += 1
            o, e, f = (str(self.ctx.work / f"app{self.n}.{x}") for x in ("stdout", "stderr", "out"))
            scripts.append(list(before[k] if before else []) + [T("app", name, o, e, *L([a.replace("{OUT}", f) for a in args]))])
            paths.append((o, e, f))
        res = []
        for (o, e, f), r in zip(paths, self.drv.run(scripts)):
            a = r[len(r) - 1] if r[-1][0] != "CRASH" or len(r) == 1 else r[-1]
            rc = int(a[1]) if a[0] == "OK" else 9999
            rd = lambda p: open(p, errors="surrogateescape", newline="").read() if os.path.exists(p) else None
            res.append((rc, rd(o), rd(e), rd(f)))
            for p in (o, e, f):
                if os.path.exists(p):
                    os.unlink(p)
        return res


def replay(job, files=()):
    return {"script": [T("app", job[0], "/dev/null", "/dev/stderr", *L(job[1]))], "files": list(files)}


# ---------------------------------------------------------------------------------------------------
def family(w):
    """Two models and points in, on and outside them (in EPSG:3311 coordinates)."""
    rng = np.random.default_rng(18)
    d = lambda *s: rng.integers(0, 4000, size=s).astype(float) / 8
    up = d(3, 2, 3, 2)
    up[2, 1, :, 0] = NODATA
    A = ModelSpec((100.0, 80.0, 60.0), [BlockSpec("up", Axis(3, 50.0), Axis(2, 80.0), Axis(3, 15.0), 0.0, up), BlockSpec("low", Axis(2, 100.0), Axis(3, 40.0), Axis(2, 30.0), -30.0, d(2, 3, 2, 2))],
                  top=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[10.0, 20.0], [15.0, 5.0]])), topo=SurfSpec(Axis(2, 100.0), Axis(2, 80.0), np.array([[2.0, -4.0], [15.0, 1.0]])), origin=(0.0, -400000.0))
    B = ModelSpec((200.0, 200.0, 60.0), [BlockSpec("one", Axis(coords=(0.0, 3.0, 200.0)), Axis(coords=(-1.0, 199.0)), Axis(2, 60.0), 0.0, d(3, 2, 2, 2))], origin=(-40.0, -400080.0), azimuth=10.0, values=("Two", "one"), units=("m/s", "m"))
    a, b = A.write(str(w / "A.h5")), B.write(str(w / "B.h5"))
    return A, B, a, b


PTS = [(30.0, -399960.0, -10.0), (90.0, -399930.0, -45.0), (150.0, -400000.0, -20.0), (99.0, -399921.0, -1.0), (5000.0, -400000.0, 0.0), (0.0, -400000.0, -60.0), (30.0, -399960.0, 18.0), (60.0, -399950.0, -0.001)]


def point_files(ncoord, quick):
    """(name, text, list of points) of well-formed input files written in every way."""
    out = []
    pts = [p[:ncoord] for p in PTS]

    def num(v, k):
        s = repr(v)
        return [s, "%.6f" % v, "%.12e" % v, "%E" % v if float("%E" % v) == v else s, ("+" + s if v >= 0 else s), (str(int(v)) if v == int(v) else s), (s[:-1] if s.endswith(".0") else s), ("000" + s if v >= 0 else s)][k]
    seps = [" ", "\t", "   ", " \t "]
    eols = ["\n", "\r\n", "\n\n", " \n", "\n \t\n", "\n   "]
    leads = ["", " ", "\n", "\t\n "]
    tails = ["", "\n", "\n\n", "  ", " \n\t\n", "\r\n", "\n\n\n\n   "]
    for n in (0, 1, 3) if quick else range(0, 5):
        for sep, eol, lead, tail in itertools.product(seps[:2] if quick else seps, eols, leads, tails):
            ps = pts[:n]
            text = lead + eol.join(sep.join(num(v, 0) for v in p) for p in ps) + tail
            out.append((f"{n} points sep {sep!r} eol {eol!r} lead {lead!r} tail {tail!r}", text, ps))
    for k in range(8):
        for tail in ("", "\n"):
            out.append((f"number form {k} tail {tail!r}", "\n".join(" ".join(num(v, k) for v in p) for p in pts) + tail, pts))
    # every order of points
    depth = 2 if quick else 4
    for seq in itertools.product(range(len(pts)), repeat=depth):
        ps = [pts[i] for i in seq]
        out.append((f"sequence {seq}", "\n".join(" ".join(num(v, 0) for v in p) for p in ps) + "\n", ps))
    # long files: every alignment of the points relative to the read buffer
    for shift in range(0, 70, 7 if quick else 1):
        for tail in ("", "\n"):
            ps = [pts[i % len(pts)] for i in range(1200)]
            out.append((f"1200 points shifted by {shift} tail {tail!r}", " " * shift + "\n".join(" ".join(num(v, 0) for v in p) for p in ps) + tail, ps))
    return out


def malformed_files(ncoord):
    pts = [p[:ncoord] for p in PTS[:3]]
    out = []
    for i, j in itertools.product(range(3), range(ncoord)):
        for bad in ("x", "1.0.0", "--3", "1e", "nan?", "#", "1,0", ",", "0x", "1d3"):
            rows = [[repr(v) for v in p] for p in pts]
            rows[i][j] = bad
            for tail in ("", "\n"):
                out.append((f"{bad!r} in place of coordinate {j} of point {i} tail {tail!r}", "\n".join(" ".join(r) for r in rows) + tail))
    for k in range(1, ncoord):
        for tail in ("", "\n"):
            rows = [" ".join(repr(v) for v in p) for p in pts]
            rows[-1] = " ".join(rows[-1].split()[:k])
            out.append((f"last point has {k} coordinates tail {tail!r}", "\n".join(rows) + tail))
    return out


def points_app(ctx, app, ncoord, settings, oracle, full=True):
    """settings: list of (description, args, driver setup); oracle(points) -> list of driver commands, one answer each."""
    drv = ctx.driver()
    fast = Drv(_exe(ctx, "driver-fast"))
    ctx.drvs = [drv, fast]
    run, runf = Runner(ctx, drv), Runner(ctx, fast)
    w = ctx.work
    files = point_files(ncoord, ctx.quick)

    def expect(setup, points):
        r = drv.one(setup + oracle(points))
        return r[len(setup):]

    def compare(tag, job, res, points, answers, nout):
        rc, so, se, out = res
        bad = None
        if rc != 0:
            bad = f"exit status {rc}, {se[-300:]!r}"
        elif out is None:
            bad = "no output file"
        else:
            lines = out.split("\n")
            body = [ln for ln in lines if not ln.startswith("#")]
            if body and body[-1] == "":
                body.pop()
            else:
                bad = "output does not end with a newline"
            if not lines[0].startswith("#"):
                bad = f"no header: {lines[0]!r}"
            elif job[1] and not all(a in lines[0] for a in job[1] if "{OUT}" not in a):
                bad = f"header does not give the command: {lines[0]!r}"
            want = [list(p) + a for p, a in zip(points, answers)]
            got = []
            for ln in body:
                try:
                    got.append([float(x) for x in ln.split()])
                except ValueError:
                    bad = bad or f"unreadable line {ln!r}"
            if not bad and len(got) != len(want):
                bad = f"{len(got)} lines for {len(want)} points"
            if not bad:
                for k, (g, x) in enumerate(zip(got, want)):
                    if len(g) != len(x) or any(abs(u - v) > 1.0e-6 * max(abs(u), abs(v)) + (1e-12 if j < ncoord else 1e-9) for j, (u, v) in enumerate(zip(g, x))):
                        bad = f"line {k}: {g}, expected {x}"
                        break
        if bad:
            ctx.violation(f"{app} {tag}", f"geomodelgrids_{app} {tag}: {bad}", replay(job, [a.split("=", 1)[1] for a in job[1] if a.startswith("--points=")]))
        return not bad

    # answers of the library for the points of the files, per setting
    table = {}
    uniq = [p[:ncoord] for p in PTS]
    for k, (desc, args, setup, nv) in enumerate(settings):
        ans = expect(setup, uniq)
        vals = []
        for a in ans:
            if a[0] != "OK":
                ctx.violation(f"{app} oracle {desc}", f"library answers {list(a)} for {desc}", {"script": setup + oracle(uniq)})
                vals.append([])
            else:
                vals.append([float(v) for v in a[-nv:]] if nv else [])
        table[k] = dict(zip(uniq, vals))

    def sweep(runner, jobs):
        # the same bytes through one setting
        paths, js, ms = [], [], []
        for i, (k, (tag, text, ps)) in enumerate(jobs):
            p = str(w / f"in{i}.txt")
            open(p, "w", newline="").write(text)
            paths.append(p)
            desc, args, setup, nv = settings[k]
            js.append((app, args + [f"--points={p}", "--output={OUT}"]))
        for (k, (tag, text, ps)), j, res in zip(jobs, js, runner(js)):
            desc = settings[k][0]
            ctx.nstates += 1
            ctx.traces += 1
            ctx.transitions += max(1, len(ps))
            compare(f"{desc}, {tag}", j, res, ps, [table[k][q] for q in ps], 0)
        for p in paths:
            os.unlink(p)
    # every setting with a few files, every file with one setting
    few = [f for f in files if f[0].startswith("number form 0")] + [f for f in files if f[0].startswith("sequence")][:: (23 if ctx.quick else 41)]
    sweep(run, [(k, f) for k in range(len(settings)) for f in few])
    for c in range(0, len(files) if full else 0, 2000):
        sweep(runf, [(0, f) for f in files[c:c + 2000]])
    # input that is no list of points, output that cannot be written
    js, tags = [], []
    for i, (tag, text) in enumerate(malformed_files(ncoord)):
        p = str(w / f"bad{i}.txt")
        open(p, "w").write(text)
        js.append((app, settings[0][1] + [f"--points={p}", "--output={OUT}"]))
        tags.append(tag)
    good = str(w / "good.txt")
    open(good, "w").write(files[-1][1])
    short = str(w / "short.txt")
    open(short, "w").write(" ".join(map(repr, uniq[0])) + "\n")
    for tag, p, o in (("missing points file", str(w / "none.txt"), "{OUT}"), ("points file is a folder", str(w), "{OUT}"), ("output folder missing", good, str(w / "nodir" / "x")), ("output is a folder", good, str(w)),
                      ("device of the output is full", good, "/dev/full"), ("device of the output is full, short output", short, "/dev/full")):
        js.append((app, settings[0][1] + [f"--points={p}", f"--output={o}"]))
        tags.append(tag)
    for tag, j, (rc, so, se, out) in zip(tags, js, run(js)):
        ctx.nstates += 1
        ctx.traces += 1
        if rc == 0 or rc > 255 or rc in (96, 99) or not se.strip():
            ctx.violation(f"{app} {tag}", f"geomodelgrids_{app}, {tag}: exit status {rc}, message {se[-200:]!r}, expected to be refused", replay(j, [x.split("=", 1)[1] for x in j[1] if x.startswith("--points=") and os.path.isfile(x.split("=", 1)[1])]))
    if full or not ctx.quick:
        faults(ctx, app, run, drv, settings[0], good_points=uniq)
    ctx.notes.update(driver_commands=sum(d.commands for d in ctx.drvs), settings=len(settings), files=len(files))


def faults(ctx, app, run, drv, setting, good_points):
    """A read of the model that fails at any point makes the program fail (or changes nothing)."""
    w = ctx.work
    p = str(w / "faultin.txt")
    open(p, "w").write("\n".join(" ".join(map(repr, q)) for q in good_points) + "\n")
    desc, args, setup, nv = setting
    job = (app, args + [f"--points={p}", "--output={OUT}"])
    (rc, so, se, ref), = run([job])
    lines = lambda t: [ln for ln in (t or "").split("\n") if not ln.startswith("#")]
    for op in ("H5Fopen", "H5Dread", "H5Dopen2", "H5Aread", "H5Aopen_by_name"):
        # "permanent" failures from the n-th call on, until the call no longer happens
        n = 1
        while n < 400:
            step = list(range(n, n + 32))
            if op in ("H5Aread", "H5Aopen_by_name") and ctx.quick:
                step = [x for x in step if x % 3 == 1]
            res = run([job] * len(step), before=[[T("f.set", op, i, 0)] for i in step])
            same = 0
            for i, (rc, so, se, out) in zip(step, res):
                ctx.nstates += 1
                ctx.traces += 1
                if rc == 0 and lines(out) == lines(ref):
                    same += 1
                    continue
                if rc == 0 or rc > 255 or rc == 99 or not se.strip():
                    ctx.violation(f"{app} fault {op} {i}", f"geomodelgrids_{app}: call {i} of {op} fails: exit status {rc}, message {se[-200:]!r}, output {lines(out)[:2]}", dict(replay(job, [p]), fault=[op, i]))
            if same == len(step):
                break
            n += 32


def _exe(ctx, name):
    return ctx.build("driver", "driver-fast")[name]
