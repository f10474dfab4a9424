"""Shared machinery of the checks: driver control, model-file writer, reference model, evidence."""
import concurrent.futures
import hashlib
import itertools
import json
import math
import os
import pathlib
import shutil
import subprocess
import sys
import tempfile
import time

sys.dont_write_bytecode = True
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
os.environ["PROJ_NETWORK"] = "OFF"
os.environ.setdefault("HDF5_USE_FILE_LOCKING", "FALSE")

import h5py  # noqa: E402
import numpy as np  # noqa: E402

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "lib"))
import build as _build  # noqa: E402

NODATA = -1.0e+20
OK, WARNING, ERROR = 0, 1, 2
ASAN = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:quarantine_size_mb=8:symbolize=0:malloc_context_size=0"


def T(*fields):
    """One driver command: fields joined with TAB; strings are escaped."""
    r = []
    for f in fields:
        if isinstance(f, bool):
            r.append("1" if f else "0")
        elif isinstance(f, (int, np.integer)):
            r.append(str(int(f)))
        elif isinstance(f, (float, np.floating)):
            r.append(repr(float(f)))
        else:
            r.append(str(f).replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t"))
    return "\t".join(r)


def L(items):
    """A counted list of fields."""
    items = list(items)
    return [len(items)] + items


def unesc(s):
    if "\\" not in s:
        return s
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            i += 1
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(s[i], s[i]))
        else:
            out.append(s[i])
        i += 1
    return "".join(out)


class Resp(list):
    """Answer to one command: ["OK", ...], ["EXC", type, msg], ["CRASH", reason] or ["SKIP"]."""
    @property
    def ok(self):
        return self[0] == "OK"

    def f(self, i):
        return float(self[i])


def _reason(stderr, rc):
    for ln in stderr.splitlines():
        if "Assertion" in ln:
            i = ln.find("Assertion")
            return ("assert: " + ln[max(0, i - 160):])[:300]
        if "ERROR: AddressSanitizer" in ln:
            return "sanitizer: " + ln.split("ERROR: ")[1][:120].split(" on ")[0].split(" (")[0]
    if rc < 0:
        return f"signal {-rc}"
    return f"exit {rc}: " + stderr[-200:].replace("\n", " | ")


class Drv:
    """Runs scripts in worker processes.  A crash or a hang is an answer.  When scripts keep crashing or hanging, the rest is
    answered without being run, so that a check of a broken tree ends in time; that never happens as long as nothing crashes."""
    START = time.time()
    crashes = hangs = 0

    def __init__(self, exe, workers=None, timeout=150, env=None):
        self.exe = exe
        self.workers = workers or int(os.environ.get("GMG_WORKERS", "8"))
        self.timeout = timeout
        self.env = dict(os.environ, ASAN_OPTIONS=ASAN, **(env or {}))
        self.commands = 0
        self.scripts = 0

    def _exec(self, scripts, timeout):
        """Run scripts in one process; returns (list of per-script answer lists, rc, stderr, timed_out)."""
        text = []
        for s in scripts:
            text.append("#")
            text.extend(s)
        with tempfile.TemporaryFile() as fin, tempfile.TemporaryFile() as fout, tempfile.TemporaryFile() as ferr:
            fin.write(("\n".join(text) + "\n").encode("utf-8", "surrogateescape"))
            fin.seek(0)
            timed = False
            p = subprocess.Popen([self.exe], stdin=fin, stdout=fout, stderr=ferr, env=self.env, cwd="/")
            size, last = 0, time.time()
            while True:
                try:
                    rc = p.wait(0.5 if time.time() - last > 1.0 else 0.05)
                    break
                except subprocess.TimeoutExpired:
                    now = os.fstat(fout.fileno()).st_size
                    if now != size:
                        size, last = now, time.time()
                    elif time.time() - last > (min(timeout, 20) if Drv.hangs else timeout):  # no answer for so long
                        p.kill()
                        p.wait()
                        rc, timed = -9, True
                        break
            fout.seek(0)
            ferr.seek(0)
            lines = fout.read().decode("utf-8", "surrogateescape").split("\n")
            err = ferr.read()[-20000:].decode("utf-8", "replace")
        if lines and lines[-1] == "":
            lines.pop()
        elif lines:
            lines.pop()  # partial line
        res, i = [], 0
        for s in scripts:
            got = lines[i:i + 1 + len(s)]
            i += 1 + len(s)
            res.append([Resp(unesc(x) for x in ln.split("\t")) for ln in got])
            if len(got) < 1 + len(s):
                break
        return res, rc, err, timed

    def _chunk(self, scripts):
        out = []
        todo = list(scripts)
        while todo:
            if Drv.hangs >= 8 or Drv.crashes >= 400 or (Drv.hangs + Drv.crashes and time.time() - Drv.START > 420.0):
                return out + [[Resp(["CRASH", f"not run after {Drv.crashes} crashes and {Drv.hangs} hangs"])] + [Resp(["SKIP"])] * (len(s) - 1) for s in todo]
            res, rc, err, timed = self._exec(todo, self.timeout)
            if rc not in (0, 97) and not timed:
                Drv.crashes += 1
            done = 0
            for s, r in zip(todo, res):
                if len(r) == 1 + len(s):
                    out.append(r[1:])
                    done += 1
                    continue
                # this script did not finish
                if timed:
                    res2, rc2, err2, timed2 = self._exec([s], self.timeout)
                    r2 = res2[0] if res2 else []
                    if len(r2) == 1 + len(s):
                        out.append(r2[1:])
                        done += 1
                        break
                    Drv.hangs += bool(timed2)
                    r, why = r2, ("hang" if timed2 else _reason(err2, rc2))
                else:
                    why = _reason(err, rc)
                if rc == 97 and not timed:
                    raise RuntimeError("driver protocol error: " + err[-500:] + repr(s[:5]))
                ans = list(r[1:])
                if not r:  # died while clearing the previous script: charge it there
                    if out:
                        out[-1] = list(out[-1])
                        out[-1].append(Resp(["CRASH", "at teardown: " + why]))
                    # re-run this script afresh
                    break
                ans.append(Resp(["CRASH", why]))
                while len(ans) < len(s):
                    ans.append(Resp(["SKIP"]))
                out.append(ans)
                done += 1
                break
            else:
                if len(res) < len(todo) and done == len(res):
                    # crashed exactly between scripts
                    if out:
                        out[-1] = list(out[-1]) + [Resp(["CRASH", "at teardown: " + _reason(err, rc)])]
                elif done == len(todo) and rc not in (0,):
                    out[-1] = list(out[-1]) + [Resp(["CRASH", "at exit: " + _reason(err, rc)])]
            todo = todo[done:]
        return out

    def run(self, scripts):
        """Run scripts (lists of command strings); returns list of answer lists, in order."""
        scripts = [list(s) for s in scripts]
        self.scripts += len(scripts)
        self.commands += sum(len(s) for s in scripts)
        if not scripts:
            return []
        n = max(1, min(self.workers, len(scripts)))
        # contiguous chunks balanced by number of commands
        tot = sum(len(s) + 1 for s in scripts)
        target = max(1, tot // (n * 4))
        chunks, cur, c = [], [], 0
        for s in scripts:
            cur.append(s)
            c += len(s) + 1
            if c >= target:
                chunks.append(cur)
                cur, c = [], 0
        if cur:
            chunks.append(cur)
        with concurrent.futures.ThreadPoolExecutor(n) as ex:
            parts = list(ex.map(self._chunk, chunks))
        return [r for p in parts for r in p]

    def one(self, script):
        return self.run([script])[0]


# ---------------------------------------------------------------------------------------------------
# model files
META = {
    "title": "Title of model", "id": "model-id", "description": "A description.", "history": "First version",
    "comment": "One comment", "creator_name": "John Doe", "creator_institution": "Agency",
    "creator_email": "johndoe@agency.org", "acknowledgement": "Thank you!", "repository_name": "Some repository",
    "repository_url": "http://somewhere.org", "repository_doi": "this.is.a.doi", "version": "1.0.0", "license": "CC0",
}
META_LISTS = {"keywords": ["key one", "key two"], "authors": ["Smith, Jim", "Doe, John"], "references": ["Reference 1", "Reference 2"]}


class Axis:
    """Positions of grid nodes along one axis, as distance from the first node (>= 0)."""
    def __init__(self, n=None, res=None, coords=None):
        self.res, self.coords = res, (None if coords is None else [float(c) for c in coords])
        self.n = len(coords) if coords is not None else n

    def nodes(self):
        if self.coords is None:
            return [i * self.res for i in range(self.n)]
        return [abs(c - self.coords[0]) for c in self.coords]

    def locate(self, d):
        """(cell, fraction) of the distance d along the axis."""
        nodes = self.nodes()
        if self.n == 1:
            return 0, 0.0
        i = 0
        while i < self.n - 2 and d > nodes[i + 1]:
            i += 1
        return i, (d - nodes[i]) / (nodes[i + 1] - nodes[i])


class BlockSpec:
    def __init__(self, name, x, y, z, z_top, data):
        self.name, self.x, self.y, self.z, self.z_top, self.data = name, x, y, z, float(z_top), np.asarray(data, dtype=float)
        assert self.data.shape[:3] == (x.n, y.n, z.n), (self.data.shape, x.n, y.n, z.n)

    @property
    def z_bottom(self):
        return self.z_top - self.z.nodes()[-1]


class SurfSpec:
    def __init__(self, x, y, data):
        self.x, self.y, self.data = x, y, np.asarray(data, dtype=float)
        assert self.data.shape[:2] == (x.n, y.n)


class ModelSpec:
    def __init__(self, dims, blocks, crs="EPSG:3311", origin=(0.0, 0.0), azimuth=0.0, values=("one", "two"), units=("m", "m/s"),
                 top=None, topo=None, meta=None, layout="vertex"):
        self.dims, self.blocks, self.crs, self.origin, self.azimuth = [float(d) for d in dims], blocks, crs, [float(o) for o in origin], float(azimuth)
        self.values, self.units, self.top, self.topo, self.layout = list(values), list(units), top, topo, layout
        self.meta = dict(META, **META_LISTS)
        if meta:
            self.meta.update(meta)

    def write(self, path, dtype="f8", chunks=None, compression=None, strings="fixed", skip=(), order=None, attr_dtype="f8"):
        """Write the model; `skip` is a set of "group:attr" names left out."""
        with h5py.File(path, "w") as h5:
            def put(obj, where, name, value):
                if f"{where}:{name}" in skip:
                    return
                if isinstance(value, str):
                    if strings == "fixed":
                        obj.attrs.create(name, np.bytes_(value.encode()) if value else np.bytes_(b" "))
                    elif strings == "padded":
                        obj.attrs.create(name, np.array(value.encode(), dtype=f"S{len(value) + 7}"))
                    else:
                        obj.attrs.create(name, value, dtype=h5py.string_dtype("utf-8" if strings == "vlen" else "ascii"))
                elif isinstance(value, (list, tuple)) and value and isinstance(value[0], str):
                    if strings in ("fixed", "padded"):
                        w = max(len(v.encode()) for v in value) + (5 if strings == "padded" else 0)
                        obj.attrs.create(name, np.array([v.encode() for v in value], dtype=f"S{max(1, w)}"))
                    else:
                        obj.attrs.create(name, list(value), dtype=h5py.string_dtype("utf-8" if strings == "vlen" else "ascii"))
                elif isinstance(value, (list, tuple, np.ndarray)):
                    obj.attrs.create(name, np.array(value, dtype=attr_dtype))
                else:
                    obj.attrs.create(name, np.array(value, dtype=attr_dtype)[()])
            for k, v in self.meta.items():
                if v is not None:
                    put(h5, "/", k, v)
            put(h5, "/", "data_values", self.values)
            put(h5, "/", "data_units", self.units)
            put(h5, "/", "data_layout", self.layout)
            put(h5, "/", "crs", self.crs)
            put(h5, "/", "origin_x", self.origin[0])
            put(h5, "/", "origin_y", self.origin[1])
            put(h5, "/", "y_azimuth", self.azimuth)
            for a, d in zip("xyz", self.dims):
                put(h5, "/", f"dim_{a}", d)

            def axis(obj, where, a, ax, sign=1.0, z0=0.0):
                if ax.coords is None:
                    put(obj, where, f"{a}_resolution", ax.res)
                else:
                    put(obj, where, f"{a}_coordinates", list(ax.coords))

            def dset(group, name, data):
                kw = {}
                if chunks:
                    kw["chunks"] = tuple(min(c, s) for c, s in zip(chunks, data.shape))
                if compression:
                    kw["compression"] = compression
                return group.create_dataset(name, data=data.astype(dtype), **kw)
            if self.top is not None or self.topo is not None:
                g = h5.create_group("surfaces")
                for nm, s in (("top_surface", self.top), ("topography_bathymetry", self.topo)):
                    if s is None:
                        continue
                    d = dset(g, nm, s.data.reshape(s.x.n, s.y.n, 1))
                    axis(d, f"/surfaces/{nm}", "x", s.x)
                    axis(d, f"/surfaces/{nm}", "y", s.y)
            g = h5.create_group("blocks")
            for b in (order(self.blocks) if order else self.blocks):
                d = dset(g, b.name, b.data)
                w = f"/blocks/{b.name}"
                axis(d, w, "x", b.x)
                axis(d, w, "y", b.y)
                axis(d, w, "z", b.z)
                put(d, w, "z_top", b.z_top)
        return path


# ---------------------------------------------------------------------------------------------------
# reference model
def is_nodata(v):
    return abs(1.0 - v / NODATA) < 1e-3


def interp(spec_axes, data, dist, tol=1e-9, nodata_rule=True):
    """Multilinear interpolation at distances `dist`.  Returns (values, ambiguous).

    Corners whose weight is zero do not take part.  A fraction within `tol` of a node, where a NODATA
    corner would decide the answer, is reported as ambiguous."""
    nd = len(spec_axes)
    loc = [ax.locate(d) for ax, d in zip(spec_axes, dist)]
    nv = data.shape[nd]
    out = np.zeros(nv)
    nod = np.zeros(nv, dtype=bool)
    amb = np.zeros(nv, dtype=bool)
    for corner in itertools.product((0, 1), repeat=nd):
        w, idx, tiny = 1.0, [], False
        for c, (i, t), ax in zip(corner, loc, spec_axes):
            wi = t if c else 1.0 - t
            if abs(wi) <= tol:
                tiny = True
                if abs(wi) > 0 and nodata_rule:
                    pass
            w *= wi
            idx.append(min(i + c, ax.n - 1))
        v = data[tuple(idx)]
        isn = np.abs(1.0 - v / NODATA) < 1e-3
        if tiny:
            if abs(w) > 0:
                # weight is rounding noise: takes part or not depending on rounding
                amb |= isn
            out += np.where(isn, 0.0, w * v)
            continue
        nod |= isn
        out += w * np.where(isn, 0.0, v)
    if nodata_rule:
        out = np.where(nod, NODATA, out)
        amb &= ~nod
    return out, amb


class Ref:
    """Reference answers for one ModelSpec, points given in the model's own CRS."""
    def __init__(self, spec):
        self.s = spec
        a = math.radians(spec.azimuth)
        self.c, self.sn = math.cos(a), math.sin(a)

    def local(self, x, y):
        xr, yr = x - self.s.origin[0], y - self.s.origin[1]
        return xr * self.c - yr * self.sn, xr * self.sn + yr * self.c

    def world(self, xl, yl):
        return xl * self.c + yl * self.sn + self.s.origin[0], -xl * self.sn + yl * self.c + self.s.origin[1]

    def elev_local(self, which, xl, yl):
        s = {"top": self.s.top, "topo": self.s.topo if self.s.topo is not None else self.s.top}[which]
        if s is None:
            return 0.0
        v, _ = interp([s.x, s.y], s.data.reshape(s.x.n, s.y.n, 1), (xl, yl), nodata_rule=False)
        return float(v[0])

    def inside_xy(self, xl, yl, eps=0.0):
        return -eps <= xl <= self.s.dims[0] + eps and -eps <= yl <= self.s.dims[1] + eps

    def zlogical(self, xl, yl, z):
        zt = self.elev_local("top", xl, yl)
        zb = -self.s.dims[2]
        return zb * (zt - z) / (zt - zb)

    def blocks_at(self, zl):
        return [b for b in self.s.blocks if b.z_bottom <= zl <= b.z_top]

    def query_local(self, xl, yl, zl, tol=1e-9):
        """Values at logical coordinates: list of admissible answers (one per block containing zl), or [] if none.

        At an interface between blocks the upper block answers."""
        bs = sorted(self.blocks_at(zl), key=lambda b: -b.z_top)
        return [interp([b.x, b.y, b.z], b.data, (xl, yl, b.z_top - zl), tol) for b in bs]


def close(a, b, rel=1e-9, abs_=1e-9):
    if a == b:
        return True
    if math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


# ---------------------------------------------------------------------------------------------------
# bookkeeping of one check run
class Ctx:
    MAXV = 25

    def __init__(self, prop, tier, level="model_checking"):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.nviol = 0
        self.nknown = {}
        self.states = set()
        self.nstates = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.notes = {}
        self.assumptions = []
        self.stopped = False
        self.work = pathlib.Path(tempfile.mkdtemp(prefix=f"gmg-{prop}-", dir=os.environ.get("GMG_TMP", "/tmp")))
        kf = VERIF / "known_findings.json"
        self.known = [k for k in json.loads(kf.read_text())["findings"] if k["property"] == prop and k.get("status") == "known"] if kf.exists() else []
        self.quick = tier == "quick"

    def build(self, *targets):
        self.paths = _build.build(targets or ("driver",))
        return self.paths

    def driver(self, fast=False, **kw):
        if not hasattr(self, "paths"):
            self.build("driver-fast" if fast else "driver")
        return Drv(self.paths["driver-fast" if fast else "driver"], **kw)

    def state(self, key):
        self.states.add(key if isinstance(key, (str, int)) else hash(key))

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s)

    def violation(self, key, what, replay):
        """key identifies the failing input; what describes it; replay is a JSON-able dict."""
        for k in self.known:
            if k["key"] == key:
                if self.nknown.setdefault(key, 0) == 0:
                    print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
                self.nknown[key] += 1
                return
        self.nviol += 1
        if self.nviol > self.MAXV:
            self.stopped = True
            return
        d = VERIF / "evidence" / "replay"
        d.mkdir(parents=True, exist_ok=True)
        f = d / f"{self.prop}-{hashlib.sha1((key + what).encode()).hexdigest()[:10]}.json"
        # keep the inputs the replay refers to
        keep = {}
        for p in replay.get("files", []):
            if os.path.exists(p):
                q = d / f"{f.stem}-{os.path.basename(p)}"
                shutil.copyfile(p, q)
                keep[str(p)] = str(q)
        f.write_text(json.dumps(dict(replay, property=self.prop, key=key, what=what, kept=keep), indent=1, default=str))
        if self.nviol <= int(os.environ.get("GMG_SHOW", "5")):
            print(f"VIOLATION property={self.prop} replay={f}", flush=True)
            print(f"  {what}"[:1500], flush=True)

    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        nst = self.nstates + len(self.states)
        cov = {"states": nst, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
               "samples": self.samples or ["(none)"], "exhaustive": not self.stopped}
        cov.update(self.notes)
        cov.setdefault("evaluations", self.transitions)
        cov.setdefault("distinct_nontrivial", nst)
        cov.setdefault("rule", "see DESIGN.md, section of this property")
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2), "violations": self.nviol}
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / f"{self.prop}.json").write_text(json.dumps(ev, indent=1))
        if Drv.crashes or Drv.hangs:
            print(f"{Drv.crashes} crashes and {Drv.hangs} hangs of the program under test")
        print(f"{self.prop} {self.tier}: states={nst} transitions={self.transitions} traces={self.traces} violations={self.nviol} "
              f"known={sum(self.nknown.values())} wall={ev['wall_s']}s", flush=True)
        return 1 if self.nviol else 0
