"""C30: data sources and configuration are interpreted as written.

Lists, units and sets of configuration files: all strings (sequences of files) up to a bound through the real helpers.
Data sources: families of small tables (orders, missing rows, additional rows, columns), of IRIS EMC files (through a
stand-in for the netCDF4 module) and of EarthVision models (through stand-ins for its programs), created by the real
application; stored models are compared with the tables, and queried through the library."""
import itertools
import shutil
import sys

from create import *
from c15 import near, text

sys.path.insert(0, str(VERIF / "lib"))
import field  # noqa: E402

FAKE = VERIF / "lib" / "fake"


def parse_shown(text):
    import configparser
    p = configparser.ConfigParser()
    p.optionxform = str
    p.read_string(text)
    return {s: dict(p.items(s)) for s in p.sections()}


# ---------------------------------------------------------------------------------------------- lists and units
def expected_list(s, delim=","):
    """Entries of a list, or None if it is malformed."""
    import re
    t = s.strip()
    m = re.fullmatch(r"\[(.*)\]|\((.*)\)", t, re.S)
    if m:
        body = m.group(1) if m.group(1) is not None else m.group(2)
    elif t.startswith(("[", "(")) or t.endswith("]") or (t.endswith(")") and "(" not in t):
        return None
    else:
        body = t
    return [re.sub(r"^\s+|\s+$", "", x) for x in body.split(delim)]


def lists(ctx, drv):
    n = 5 if ctx.quick else 6
    alpha = "ab ,[]()|"
    strings = ["".join(c) for k in range(1, n + 1) for c in itertools.product(alpha, repeat=k) if k < n or c[0] in "[( a" or c[-1] in "])"]
    strings += ["[key one, two]", "[Doe, Jane | Smith, J.]", "(2, 3, 4)", "[1.0e+3, -2.5]", "one", "a (b), c (d)", "[a (b)]", "[[a]]", "[1.0,\n2.0]", "\n[1.0, 2.0]\n", "[é, ñ]"]
    chunk = 4000
    jobs = [(d, strings[i:i + chunk]) for d in (",", "|") for i in range(0, len(strings), chunk)]
    for (d, ss), r in zip(jobs, drv.run([[J("call", fn="geomodelgrids.create.utils.config.string_to_list", args=[[s, d] for s in ss])] for d, ss in jobs])):
        for s, a in zip(ss, answer(r[0])):
            ctx.transitions += 1
            w = expected_list(s, d)
            if a != (["OK", w] if w is not None else a) or (w is None and a[0] == "OK") or (w is None and a[1] != "ValueError"):
                ctx.violation(f"list {s!r}", f"list {s!r} with delimiter {d!r} gives {a} instead of {w if w is not None else 'an error'}", {"list": s, "delimiter": d})
        ctx.state(("lists", d, ss[0]))
        ctx.traces += len(ss)
    # a list that is a list already is kept
    a = answer(drv.run([[J("call", fn="geomodelgrids.create.utils.config.string_to_list", args=[[["a", " b"]], [[]]])]])[0][0])
    if a != [["OK", ["a", " b"]], ["OK", []]]:
        ctx.violation("list of list", f"lists are not kept: {a}", {})
    ctx.notes["lists"] = f"{len(strings)} strings x 2 delimiters"


UNITS = {"m": 1.0, "meter": 1.0, "meters": 1.0, "km": 1000.0, "kilometer": 1000.0, "kilometers": 1000.0, "ft": 0.3048, "foot": 0.3048, "feet": 0.3048}


def units(ctx, drv):
    import string
    names = [""] + ["".join(c) for k in (1, 2, 3) for c in itertools.product(string.ascii_lowercase, repeat=k)]
    for u in UNITS:
        names += [u.upper(), u.capitalize(), " " + u, u + " ", u + "s", u + "."] + [u[:i] + u[i + 1:] for i in range(len(u))] + [u[:i] + c + u[i + 1:] for i in range(len(u)) for c in string.ascii_lowercase]
    names = sorted(set(names))
    for name, a in zip(names, answer(drv.run([[J("call", fn="geomodelgrids.create.utils.units.length_scale", args=[[n] for n in names])]])[0][0])):
        ctx.transitions += 1
        if name in UNITS:
            if a[0] != "OK" or abs(a[1] - UNITS[name]) > 1e-12 * UNITS[name]:
                ctx.violation("unit " + name, f"unit '{name}' gives {a} instead of {UNITS[name]}", {"unit": name})
        elif a[0] == "OK" and a[1] not in UNITS.values():
            ctx.violation("unit " + name, f"unknown unit '{name}' gives {a[1]}", {"unit": name})
        elif a[0] == "OK" and (len(name) <= 3 and name != name.strip() or name.lower().strip().rstrip("s.") not in {u.rstrip("s") for u in UNITS}):
            ctx.violation("unit " + name, f"unknown unit '{name}' is accepted ({a[1]})", {"unit": name})
    ctx.traces += len(names)
    ctx.state("units")


def configs(ctx, drv):
    """All sequences of up to 3 (4) of 5 files: later files override earlier ones, key by key."""
    files = {"a.cfg": {"one": {"k": "1", "Key": "[a, b]"}, "two": {"x": "100 %% = a; b # c"}}, "b.cfg": {"one": {"k": "2"}, "Three": {"y": "multi\n  line"}},
             "c.cfg": {"two": {"x": "", "Y": "Ü"}}, "d.cfg": {"DEFAULT": {"d": "0"}, "one": {"e": "5", "k": "7"}}, "e.cfg": {}}

    def clean(v):
        return "\n".join(x.strip() for x in v.replace("%%", "%").split("\n"))
    d = ctx.work / "configs"
    d.mkdir()
    for f, c in files.items():
        (d / f).write_text(text(c), encoding="utf-8")
    broken = {"x1.cfg": "key = outside section\n", "x2.cfg": "[one]\nk = 1\nk = 2\n", "x3.cfg": "[one]\nk = 1\n[one]\nj = 2\n", "x4.cfg": "[one]\nno separator\n", "x5.cfg": "[one\nk = 1\n", "x6.cfg": "[one]\nkk = 10 % of\n"}
    for f, c in broken.items():
        (d / f).write_text(c)
    seqs = [s for n in range(1, 4 if ctx.quick else 6) for s in itertools.product(files, repeat=n)]
    seqs += [s for f in list(broken) + ["missing.cfg"] for s in ((f,), ("a.cfg", f), (f, "a.cfg"), ("b.cfg", f, "a.cfg"))]
    args = [[[str(d / f) for f in s], keep] for s in seqs for keep in (True, False)]
    res = []
    for i in range(0, len(args), 500):
        res += answer(drv.run([[J("call", fn="geomodelgrids.create.utils.config.get_config", args=args[i:i + 500])]])[0][0])
    for (s, keep), a in zip([(s, keep) for s in seqs for keep in (True, False)], res):
        ctx.transitions += 1
        ctx.state(("config", s, keep))
        if any(f not in files for f in s):
            if a[0] == "OK" and a[1] is not None:
                ctx.violation(f"config {s}", f"configuration files {s}: no error for malformed or missing file; result {a[1]}", {"files": {f: (d / f).read_text() if f in broken else None for f in s}})
            continue
        want, default = {}, {}
        for f in s:
            for sec, kv in files[f].items():
                t = default if sec == "DEFAULT" else want.setdefault(sec, {})
                t.update({k if keep else k.lower(): clean(v) for k, v in kv.items()})
        want = {sec: dict(default, **kv) for sec, kv in want.items()}
        if a != ["OK", want]:
            ctx.violation(f"config {s}", f"configuration files {s} (keep_case={keep}): {a[1:]} instead of {want}", {"files": [(d / f).read_text() for f in s]})
        ctx.traces += 1


# ---------------------------------------------------------------------------------------------- CSV
CSV = "geomodelgrids.create.data_srcs.csv.datasrc.CSVFile"


class Table:
    """Rows (x, y, z, values) for the nodes of the blocks of a model, as strings."""

    def __init__(self, cm, code=1.0):
        self.rows, self.want = [], {}
        self.cm = cm
        n = 0
        for b in cm.blocks:
            p = cm.points(b, offset=False)
            w = np.zeros(b.dims() + (len(cm.values),))
            for i in np.ndindex(*b.dims()):
                n += 1
                w[i] = [code * n + 1000.0 * k for k in range(len(cm.values))]
                self.rows.append((b.name, i, list(p[i]), list(w[i])))
            self.want[b.name] = w


def csv_job(d, cm, rows, columns=None, header="", comment=None, crs=None, sep=" ", to=None):
    """Job for a table; columns: permutation of (x, y, z, values...) giving the order of columns in the file."""
    nv = len(cm.values)
    columns = columns or list(range(3 + nv))
    lines = []
    for r in rows:
        if isinstance(r, str):
            lines.append(r)
            continue
        p, v = r
        if to:
            p = list(to.transform(p[0], p[1])) + [p[2]]
        f = [repr(float(x)) for x in list(p) + list(v)]
        lines.append(sep.join(f[c] for c in columns))
    c = cm.config(source=CSV)
    c["csv"] = {"filename": "table.txt", "crs": crs or cm.crs}
    if comment:
        c["csv"]["comment_flag"] = comment.replace("%", "%%")
    c["csv.columns"] = {n: str(columns.index(k)) for k, n in enumerate(["x", "y", "z"] + list(cm.values))}
    return {"dir": d, "configs": {"m.cfg": c}, "files": {"table.txt": header + "\n".join(lines) + "\n"}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}], "dump": "model.h5"}


def csv(ctx, drv, cpp):
    import pyproj
    U, V = (lambda *a: Ax("u", *a)), (lambda *a: Ax("v", *a))
    to = pyproj.Transformer.from_crs("EPSG:32611", "EPSG:4326", always_xy=True)
    jobs = []   # (what, cm, want {block: array or None for an error}, job)

    def add(what, cm, want, rows, **kw):
        jobs.append((what, cm, want, csv_job(str(ctx.work / f"csv{len(jobs)}"), cm, rows, **kw)))

    def table(t):
        return [(p, v) for _, _, p, v in t.rows]
    n = 0
    for kx, ky, kz, nb in itertools.product("uv", "uv", "uv", (1, 2)):
        n += 1
        axes = ({"u": U(3, 600.0), "v": V([0.0, 300.0, 1200.0])}[kx], {"u": U(2, 900.0), "v": V([0.0, 400.0, 900.0])}[ky], {"u": U(3, 50.0), "v": V([0.0, -25.0, -100.0])}[kz])
        blocks = [Blk("upper", *axes, 0.0)]
        if nb == 2:
            blocks.append(Blk("lower", U(2, 1200.0), axes[1], U(2, 100.0), -100.0))
            blocks[0].z = U(3, 50.0) if kz == "u" else V([0.0, -25.0, -99.0])
            blocks[1] = Blk("lower", U(2, 1200.0) if kx == "u" else V([0.0, 1200.0]), axes[1], U(2, 100.0), -180.0)
        for az, geo in ((0.0, False), (30.0, False), (310.0, True)) if not ctx.quick or n % 2 else ((310.0, True),):
            cm = CM(blocks, azimuth=az, origin=(500000.0, 3800000.0), crs="EPSG:32611")
            cm.dim = (1200.0, 900.0)
            kw = {"crs": "EPSG:4326", "to": to} if geo else {}
            t = Table(cm)
            base = table(t)
            cube = sorted(range(len(base)), key=lambda i: (base[i][0][2], base[i][0][0]))
            for what, rows in (("in order", base), ("reversed", base[::-1]), ("by z", [base[i] for i in cube]), ("shuffled", [base[(i * 7) % len(base)] for i in range(len(base))] if len(base) % 7 else base[::2] + base[1::2])):
                add(f"rows {what}", cm, t.want, rows, **kw)
            for k in range(0, len(base), 5 if ctx.quick else 1):   # each row missing in turn
                w = {b: a.copy() for b, a in t.want.items()}
                b, i = t.rows[k][:2]
                w[b][i] = NODATA
                add("row missing", cm, w, base[:k] + base[k + 1:], **kw)
            if az == 0.0:
                # rows away from the grid are not used; the closest row wins whatever the order
                far = [([500000.0 - 700.0, 3800000.0, 0.0], [-1.0, -1.0]), ([500000.0, 3800000.0 + 2000.0, 0.0], [-2.0, -2.0]), ([500000.0, 3800000.0, -900.0], [-3.0, -3.0]), ([500000.0, 3800000.0, 400.0], [-4.0, -4.0])]
                for rows in (far + base, base + far, far[:2] + base + far[2:]):
                    add("rows outside", cm, t.want, rows)
                off = [([p[0] + 0.2 * 300.0 * sx, p[1] + 0.2 * 400.0 * sy, p[2] + 5.0 * sz], [-5.0, -6.0]) for p, _ in base[:len(t.want["upper"].ravel()) // 2] for sx, sy, sz in ((1, 0, 0), (0, -1, 0), (0, 0, -1), (-1, 1, 1))]
                add("other rows nearby first", cm, t.want, off + base)
                add("other rows nearby last", cm, t.want, base + off)
                add("other rows nearby between", cm, t.want, off[::2] + base + off[1::2])
    cm = CM([Blk("upper", U(2, 1000.0), U(2, 1000.0), U(2, 100.0), 0.0)], origin=(500000.0, 3800000.0), crs="EPSG:32611", values=("one", "two", "three"), units=("m", "m/s", "none"))
    t = Table(cm)
    base = table(t)
    for k, perm in enumerate(itertools.permutations(range(6))):
        if not ctx.quick or k % 6 == 0:
            add(f"columns {perm}", cm, t.want, base, columns=list(perm))
    for k, perm in enumerate(itertools.permutations(range(8))):
        if k % (40 if ctx.quick else 4) == 0:
            add(f"rows {perm}", cm, t.want, [base[i] for i in perm])
    for flag, head in ((None, "# x y z one\n#\n"), ("%", "% first\n"), ("//", "// first\n// second\n"), (None, "\n\n")):
        add(f"comments {flag}", cm, t.want, base[:3] + [((flag or "#") + " between")] + base[3:], header=head, comment=flag)
    add("tabs", cm, t.want, base, sep="\t")
    # malformed tables are rejected
    for what, rows in (("short row", base[:2] + ["1.0 2.0"] + base[2:]), ("text in row", base[:2] + ["1.0 2.0 x 1.0 1.0 1.0"] + base[2:]), ("comma", [",".join(map(str, p + v)) for p, v in base]), ("short first row", ["1.0 2.0"] + base)):
        add(what, cm, None, rows)
    # azimuth and roundoff in a long row, one row only
    one = CM([Blk("upper", U(1, 1000.0), U(1, 1000.0), U(1, 100.0), 0.0)], origin=(500000.0, 3800000.0), crs="EPSG:32611")
    one.dim, one.dim_z = (0.0, 0.0), 100.0
    long = CM([Blk("upper", U(41, 0.1), U(2, 0.3), U(2, 0.7), 0.0)], origin=(500000.0, 3800000.0), crs="EPSG:32611", azimuth=33.0)
    long.dim, long.dim_z = (4.0, 0.3), 0.7
    for c in (one, long):
        t1 = Table(c)
        add("one row" if c is one else "long row", c, t1.want, table(t1))
    missing = csv_job(str(ctx.work / "csvm"), cm, base)
    for k in ("filename", "crs"):
        c = json.loads(json.dumps(missing))
        del c["configs"]["m.cfg"]["csv"][k]
        c["dir"] += k
        jobs.append((f"no csv {k}", cm, None, c))
    for k in ("x", "y", "z", "one", "three"):
        c = json.loads(json.dumps(missing))
        del c["configs"]["m.cfg"]["csv.columns"][k]
        c["dir"] += k
        jobs.append((f"no column {k}", cm, None, c))
        c = json.loads(json.dumps(missing))
        c["configs"]["m.cfg"]["csv.columns"][k] = "6"
        c["dir"] += k + "6"
        jobs.append((f"column {k} not in table", cm, None, c))
    for flag in ("top_surface", "topography_bathymetry"):
        c = json.loads(json.dumps(missing))
        c["configs"]["m.cfg"][flag] = {"x_resolution": "500.0", "y_resolution": "500.0", "chunk_size": "(1, 1, 1)"}
        c["dir"] += flag
        jobs.append((f"{flag} that the source does not have", cm, None, c))
    judge(ctx, drv, jobs, "csv")
    # read back by the library at the positions in the table
    scripts = []
    for what, cm, want, j in jobs:
        if want is None or what not in ("rows in order", "long row", "columns (0, 1, 2, 3, 4, 5)", "rows missing"):
            continue
        t = Table(cm)
        crs = j["configs"]["m.cfg"]["csv"]["crs"]
        s = [T("q.new", "q"), T("q.init", "q", "EPSG:32611", *L([j["dir"] + "/model.h5"]), *L(cm.values))]
        exp = []
        for b, i, p, v in t.rows:
            blk = [x for x in cm.blocks if x.name == b][0]
            a = math.radians(cm.azimuth)
            xl, yl = blk.x.nodes()[i[0]], blk.y.nodes()[i[1]]
            xl, yl = np.clip(xl, 1e-6 * cm.dim[0], (1 - 1e-6) * cm.dim[0]), np.clip(yl, 1e-6 * cm.dim[1], (1 - 1e-6) * cm.dim[1])
            x, y = cm.world(xl, yl)
            zs = blk.zlogical()
            z = np.clip(zs[i[2]], zs[-1] + 1e-6 * (zs[0] - zs[-1]), zs[0] - 1e-6 * (zs[0] - zs[-1]))
            s.append(T("q.query", "q", x, y, z))
            exp.append((p, v))
        scripts.append((what, cm, j, s, exp))
    for (what, cm, j, s, exp), ans in zip(scripts, cpp.run([s for *_, s, _ in scripts])):
        for cmd, a, (p, v) in zip(s[2:], ans[2:], exp):
            ctx.transitions += 1
            if not a.ok or int(a[1]) != 0 or any(not close(float(g), w, 1e-3, 0.6) for g, w in zip(a[2:], v)):
                ctx.violation(f"query {what}", f"CSV, {what}: query at {p} gives {list(a)} instead of {v} ({cm.describe()})", {"script": [s[0], s[1], cmd], "files": [j["dir"] + "/model.h5"]})
                break
        ctx.traces += 1
    # coordinate systems whose first axis is northing or latitude
    for crs, origin in (("EPSG:2193", (1700000.0, 5400000.0)), ("EPSG:4979", (172.0, -42.0))):
        cm = CM([Blk("upper", U(3, 0.01 if "4979" in crs else 1000.0), U(2, 0.02 if "4979" in crs else 2000.0), U(2, 100.0), 0.0)], origin=origin, crs=crs)
        t = Table(cm)
        geo = pyproj.Transformer.from_crs(crs, "EPSG:4326", always_xy=True)
        j = csv_job(str(ctx.work / f"axes{crs[5:]}"), cm, table(t), crs="EPSG:4326", to=geo)
        judge(ctx, drv, [("rows in order", cm, t.want, j)], "csv")
        xl, yl, z = 0.4 * cm.dim[0], 0.4 * cm.dim[1], -10.0
        lon, lat = geo.transform(*cm.world(xl, yl))
        a = cpp.run([[T("q.new", "q"), T("q.init", "q", "EPSG:4326", *L([j["dir"] + "/model.h5"]), *L(cm.values)), T("q.query", "q", lat, lon, z)]])[0][2]
        ctx.transitions += 1
        if not a.ok or int(a[1]) != 0:
            ctx.violation("coordinate system with northing or latitude first", f"CSV, model in {crs}: query inside the model gives {list(a)}", {"configuration": text(j["configs"]["m.cfg"])})


def judge(ctx, drv, jobs, source):
    """Run jobs and compare blocks in the files (want: {block: values}, or None if an error is due)."""
    out = {}
    for (what, cm, want, j), r in zip(jobs, drv.run([[J("create", **j)] for *_, j in jobs])):
        a = answer(r[0])
        res = a["steps"][0]["result"]
        ctx.transitions += 1
        ctx.state((source, j["dir"]))
        replay = {"configuration": text(j["configs"]["m.cfg"]), "files": [], "contents": j.get("files"), "result": res}

        def bad(t):
            ctx.violation(f"{source} {what}", f"{source}, {what}: {t} ({cm.describe()})", replay)
        if want is None:
            if res == "OK":
                bad("no error is reported")
            continue
        if res != "OK":
            bad("creation fails with " + res)
            continue
        for b in cm.blocks:
            e = a["dump"].get("blocks/" + b.name)
            w = want[b.name]
            if e is None or e["shape"] != list(w.shape):
                bad(f"block {b.name} is {e and e['shape']} instead of {list(w.shape)}")
                break
            h = np.array(e["data"]).reshape(w.shape)
            diff = np.abs(h - w) > 1e-4 * np.maximum(1.0, np.abs(w))
            if diff.any():
                i = tuple(int(x) for x in np.argwhere(diff)[0])
                bad(f"block {b.name}: value {i} is {h[i]} instead of {w[i]}")
                break
            attrs = cm.block_attrs(b)
            if set(e["attrs"]) != set(attrs) or any(not near(e["attrs"][k], v) for k, v in attrs.items()):
                bad(f"block {b.name}: attributes {e['attrs']} instead of {attrs}")
                break
        out[j["dir"]] = a["dump"]
        ctx.traces += 1
    return out


# ---------------------------------------------------------------------------------------------- SCEC CCA06
def cca(ctx, drv):
    U = lambda *a: Ax("u", *a)  # noqa: E731
    cm = CM([Blk("res", U(3, 500.0), U(4, 500.0), U(3, 505.05), 0.0)], values=("density", "Vp", "Vs"), units=("kg/m**3", "m/s", "m/s"))
    rows, want = [], np.zeros((3, 4, 3, 3))
    for n, (i, k, m) in enumerate(np.ndindex(3, 4, 3)):
        v = [2000.0 + n, 3000.5 + n, 1500.25 + 2 * n]
        rows.append(f"{i + 1} {k + 1} {m + 1} {v[0]} {v[1]} {v[2]}")
        want[i, k, m] = v
    jobs = []
    orders = [rows, rows[::-1], sorted(rows, key=lambda r: r.split()[::-1]), rows[::2] + rows[1::2]]
    batches = [None, 1, 2, 5, 7, 12, 35, 36, 100] if ctx.quick else [None] + list(range(1, 40))
    for o, batch in itertools.product(range(len(orders)), batches):
        jobs.append((f"order {o} batch {batch}", orders[o], {"res": want}, batch))
    for k in range(0, 36, 4 if ctx.quick else 1):
        w = want.copy()
        w[np.unravel_index(k, (3, 4, 3))] = NODATA
        jobs.append(("row missing", rows[:k] + rows[k + 1:], {"res": w}, [None, 7][k % 2]))
    for extra in ("4 1 1 1 1 1", "1 5 1 1 1 1", "1 1 4 1 1 1", "0 1 1 1 1 1", "1 1 0 1 1 1"):
        jobs.append(("row outside", [extra] + rows + [extra], {"res": want}, [None, 5][len(jobs) % 2]))
    for wrong in ("1 1 1 a b c", "1 1", "x 1 1 1 1 1", "1 1 1 1"):
        jobs.append((f"row '{wrong}'", rows + [wrong], None, None))
    out = []
    for n, (what, rr, w, batch) in enumerate(jobs):
        c = cm.config(batch=batch, source="geomodelgrids.create.io.scec_cca.CCA06")
        c["scec_cca"] = {"data_file": "data.txt"}
        out.append((what, cm, w, {"dir": str(ctx.work / f"cca{n}"), "configs": {"m.cfg": c}, "files": {"data.txt": "\n".join(rr) + "\n"}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}], "dump": "model.h5"}))
    judge(ctx, drv, out, "SCEC CCA06")


# ---------------------------------------------------------------------------------------------- IRIS EMC
def iris(ctx, drv, cpp):
    lon = [-118.0, -117.5, -117.0, -116.5]
    lat = [34.0, 34.25, 34.5]
    full = {"title": " EMC model ", "id": "emc-id", "summary": "Summary\n", "keywords": "one, two ", "history": "Made", "comment": "c", "data_revision": "r0.1", "author_name": "Doe", "author_email": "d@e", "author_institution": "I",
            "acknowledgement": "ack", "reference": "Doe (2020)", "license": "CC0"}
    todo = []
    for n, (depth, unit, holes, batch, attrs) in enumerate(itertools.product(
            ([0.0, 10.0, 20.0], [0.0, 5.0, 20.0, 50.0], [10.0, 20.0, 30.0], [10.0, 15.0, 30.0], [-5.0, 0.0, 20.0]), ("km", "m", "meters", "kilometer", "ft"), (False, True), (None, 1, 5, 36, 1000), ("full", "none", "creator"))):
        if ctx.quick and n % 3 != (n // 3 % 3):
            continue
        if unit not in ("km", "m", "meters", "kilometer") and depth[0] != 0.0:
            continue
        scale = UNITS[unit]
        d = [x if scale == 1000.0 else x * 1000.0 for x in depth]
        vals = {}
        for k, name in enumerate(("vs", "vp")):
            a = np.array([[[100.0 * (m + 1) + 10.0 * j + i + 0.5 * k for i in range(4)] for j in range(3)] for m in range(len(d))])
            if holes:
                a[-1, 1, 2] = np.nan
                if k:
                    a[0, 0, 0] = np.nan
            vals[name] = a
        ga = {"geospatial_lon_min": lon[0], "geospatial_lon_max": lon[-1], "geospatial_lat_min": lat[0], "geospatial_lat_max": lat[-1], "geospatial_vertical_min": d[0], "geospatial_vertical_max": d[-1],
              "geospatial_lon_units": "degrees_east", "geospatial_lat_units": "degrees_north ", "geospatial_vertical_units": unit}
        ga.update(full if attrs == "full" else {} if attrs == "none" else {"title": "T", "creator_name": " C ", "creator_email": "c@d", "creator_institution": "CI"})
        nc = {"attrs": ga, "variables": {}}
        for name, a in [("depth", np.array(d))] + list(vals.items())[:1] + [("latitude", np.array(lat)), ("longitude", np.array(lon))] + list(vals.items())[1:]:
            nc["variables"][name] = {"shape": list(a.shape), "data": [None if x != x else float(x) for x in a.ravel()], "attrs": {"units": "km/s", "long_name": "long " + name}}
        c = {"geomodelgrids": {"filename": "model.h5", "data_source": "geomodelgrids.create.data_srcs.iris_emc.datasrc.EMCNetCDF", "repository_url": "N/A", "repository_name": "R", "repository_doi": "D"},
             "domain": {}, "block": {"chunk_size": "(2, 3, 1, 2)"}, "iris_emc": {"filename": "model.nc"}}
        if batch:
            c["domain"]["batch_size"] = str(batch)
        j = {"dir": str(ctx.work / f"iris{n}"), "configs": {"m.cfg": c}, "files": {"model.nc": json.dumps(nc)}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}], "dump": "model.h5"}
        todo.append((d, scale, vals, batch, attrs, j, ga))
    scripts = []
    for (d, scale, vals, batch, attrs, j, ga), r in zip(todo, drv.run([[J("create", **t[5])] for t in todo])):
        a = answer(r[0])
        res = a["steps"][0]["result"]
        ctx.transitions += 1
        ctx.state(("iris", j["dir"]))
        what = f"IRIS EMC, depths {d} x {scale} m, batch size {batch}, attributes {attrs}"
        replay = {"netcdf": j["files"]["model.nc"], "configuration": text(j["configs"]["m.cfg"]), "result": res}
        if res != "OK":
            ctx.violation("iris fails", f"{what}: creation fails with {res}", replay)
            continue
        at, e = a["dump"]["/"]["attrs"], a["dump"]["blocks/block"]
        want = {"data_values": ["vs", "vp"], "data_units": ["km/s", "km/s"], "origin_x": lon[0], "origin_y": lat[0], "y_azimuth": 0.0, "dim_x": 1.5, "dim_y": 0.5}
        if attrs == "full":
            want.update(title="EMC model", id="emc-id", description="Summary", keywords=["one", "two"], comment="c", version="r0.1", creator_name="Doe", creator_email="d@e", creator_institution="I", authors=["Doe"],
                        acknowledgement="ack", references=["Doe (2020)"], license="CC0", repository_name="R")
        elif attrs == "creator":
            want.update(title="T", creator_name="C", creator_email="c@d", creator_institution="CI", id="unknown")
        w = [k for k in want if not near(at.get(k), want[k])]
        if w:
            ctx.violation("iris metadata", f"{what}: attribute {w[0]} is {at.get(w[0])!r} instead of {want[w[0]]!r}", replay)
            continue
        data = np.stack([np.where(np.isnan(v), NODATA, v).transpose() for v in vals.values()], axis=-1)
        h = np.array(e["data"])
        if e["shape"] != list(data.shape) or not np.allclose(h, data.ravel(), rtol=1e-6):
            ctx.violation("iris values", f"{what}: values differ from the file", replay)
            continue
        z = [-scale * x for x in d]
        s = [T("q.new", "q"), T("q.init", "q", "EPSG:4326", *L([j["dir"] + "/model.h5"]), *L(["vp", "vs"]))]
        s = [T("m.new", "m"), T("m.open", "m", j["dir"] + "/model.h5"), T("m.load", "m"), T("m.init", "m"), T("m.info", "m")] + s
        exp = []
        for i in np.ndindex(4, 3, len(d)):
            if z[i[2]] > 0.0:
                continue
            exp.append((lat[i[1]], lon[i[0]], z[i[2]], vals["vp"][i[::-1]], vals["vs"][i[::-1]]))
            s.append(T("q.query", "q", *exp[-1][:3]))
        scripts.append((what, replay, j, s, exp))
    for (what, replay, j, s, exp), ans in zip(scripts, cpp.run([s for *_, s, _ in scripts])):
        ctx.traces += 1
        wrong = [a for a in ans[:7] if not a.ok]
        if wrong:
            ctx.violation("iris library", f"{what}: the library does not accept the model: {list(wrong[0])}", dict(replay, script=s[:7], files=[j["dir"] + "/model.h5"]))
            continue
        for cmd, a, (y, x, z, vp, vs) in zip(s[7:], ans[7:], exp):
            ctx.transitions += 1
            ok = a.ok and all((float(g) == NODATA if w != w else close(float(g), w, 1e-5, 1e-3)) for g, w in zip(a[2:4], (vp, vs))) and len(a) == 4
            if not ok:
                ctx.violation("iris query", f"{what}: query at latitude {y}, longitude {x}, elevation {z} gives {list(a)} instead of {vp}, {vs}", dict(replay, script=[s[5], s[6], cmd], files=[j["dir"] + "/model.h5"]))
                break
    ctx.notes["iris"] = f"{len(todo)} files"


# ---------------------------------------------------------------------------------------------- EarthVision
def earthvision(ctx, drv):
    sys.path.insert(0, str(FAKE))
    U, V = (lambda *a: Ax("u", *a)), (lambda *a: Ax("v", *a))
    fine, same = (U(7, 2.0), U(5, 3.0)), (U(4, 4.0), U(3, 6.0))
    cases = []
    for xy, z in itertools.product(("m", "km", "ft"), repeat=2):
        for surf, off, var in (("both", 0.0, False), ("top", -0.25, False), ("two", -0.25, True)):
            for batch in (None, 5, 12, 1000) if ctx.quick else (None, 1, 2, 3, 5, 7, 12, 20, 35, 1000):
                cases.append((xy, z, surf, off, var, batch))
    todo = []
    for n, (xy, z, surf, off, var, batch) in enumerate(cases):
        bx = V([0.0, 4.0, 12.0]) if var else U(4, 4.0)
        tx = V([0.0, 2.0, 4.0, 12.0]) if var else fine[0]
        cm = CM([Blk("upper", bx, U(3, 6.0), U(3, 5.0), 0.0, off), Blk("lower", bx, U(3, 6.0), U(2, 5.0), -10.0)], (tx, fine[1]), (tx if var else same[0], same[1]) if surf != "top" else None, azimuth=[0.0, 30.0][n % 2],
                values=("a", "depth", "fault_block_id", "zone_id"), units=("m", "m", "none", "none"))
        c = cm.config(batch=batch, source="geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc")
        d = str(ctx.work / f"ev{n}")
        os.makedirs(d + "/ev/bin")
        for p in ("ev_fp", "ev_label", "ev_facedump"):
            shutil.copyfile(FAKE / "ev.py", f"{d}/ev/bin/{p}")
            os.chmod(f"{d}/ev/bin/{p}", 0o755)
        c["earthvision"] = {"model_dir": d + "/ev", "top_surface_2grd": "[top.2grd, zero.2grd]" if surf == "two" else "[top.2grd]", "topography_bathymetry_2grd": "[topo.2grd]", "geologic_model": "model.seq",
                            "elev_units": z, "xy_units": xy, "rules_fn": "evrules.get_rules", "rules_pythonpath": str(FAKE)}
        c["earthvision.environment"] = {"PATH": d + "/ev/bin:/usr/bin:/bin"}
        pathlib.Path(d + "/ev/units.json").write_text(json.dumps({"xy": UNITS[xy], "z": UNITS[z]}))
        todo.append((cm, surf, off, batch, (xy, z), {"dir": d, "configs": {"m.cfg": c}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}], "dump": "model.h5"}))
    ref = {}
    for (cm, surf, off, batch, unit, j), r in zip(todo, drv.run([[J("create", **t[-1])] for t in todo])):
        a = answer(r[0])
        res = a["steps"][0]["result"]
        ctx.transitions += 1
        ctx.state(("ev", j["dir"]))
        what = f"EarthVision, lengths in {unit}, surfaces {surf}, offset {off}, batch size {batch}, azimuth {cm.azimuth}"
        replay = {"configuration": text(j["configs"]["m.cfg"]), "result": res}
        if res != "OK":
            ctx.violation("earthvision fails", f"{what}: creation fails with {res}", replay)
            continue
        if sorted(os.listdir(j["dir"] + "/ev")) != ["bin", "units.json"]:
            ctx.violation("earthvision files", f"{what}: files left behind: {os.listdir(j['dir'] + '/ev')}", replay)
        d = a["dump"]
        aux = json.loads(d["/"]["attrs"]["auxiliary"])
        if aux != {"fault_block_ids": {"Bay": 1, "East Bay": 2, "": NODATA}, "zone_ids": {"Upper zone": 10, "Lower": 11, "": NODATA}}:
            ctx.violation("earthvision ids", f"{what}: ids {aux}", replay)
        bad = None
        tops = np.array(d["surfaces/top_surface"]["data"]).reshape(d["surfaces/top_surface"]["shape"][:2])
        x, y = cm.surf_xy(cm.top)
        t = field.top(x, y)
        t = np.maximum(t, 0.0) if surf == "two" else t
        if not np.allclose(tops, t, atol=1e-5):
            bad = "elevations of top surface"
        if cm.topo:
            x, y = cm.surf_xy(cm.topo)
            if not np.allclose(np.array(d["surfaces/topography_bathymetry"]["data"]), (field.top(x, y) - 7.0).ravel(), atol=1e-5):
                bad = "elevations of topography"
        for b in cm.blocks if bad is None else []:
            xl, yl, zl = np.meshgrid(b.x.nodes(), b.y.nodes(), b.zlogical(), indexing="ij")
            x, y = cm.world(xl, yl)
            t = field.top(x, y)
            top = (np.maximum(t, 0.0) if surf == "two" else t).astype(np.float32).astype(float)
            z = -cm.dim_z + (top + cm.dim_z) / cm.dim_z * (zl + cm.dim_z)
            z[:, :, 0] += b.off
            depth = (top if not cm.topo else (t - 7.0)) - z
            fb = np.where(x > 14.0, 2, np.where(y > 25.0, 1, 0))
            zn = np.where(z > -6.0, 10, np.where(z > -12.0, 11, 0))
            k = np.array([0.0, 1000.0, 2000.0])[fb] + np.where(zn == 10, 100.0, np.where(zn == 11, 200.0, 0.0))
            w = np.stack([np.where(zn == 0, k, k + x + y / 4.0), depth, np.where(fb, fb, NODATA), np.where(zn, zn, NODATA)], axis=-1)
            unsure = (np.abs(x - 14.0) < 1e-4) | (np.abs(y - 25.0) < 1e-4) | (np.abs(z + 6.0) < 1e-4) | (np.abs(z + 12.0) < 1e-4)
            h = np.array(d["blocks/" + b.name]["data"]).reshape(w.shape)
            diff = (np.abs(h - w) > 5e-4 + 1e-6 * np.abs(w)) & ~unsure[..., None]
            if b.off:
                diff[:, :, 0, 1] = False   # depth of points moved by the offset: compared between batch sizes only
            if diff.any():
                i = tuple(int(q) for q in np.argwhere(diff)[0])
                bad = f"block {b.name}: value {i} is {h[i]} instead of {w[i]}"
                break
        key = (surf, off, unit, cm.azimuth)
        if bad is None and key in ref:
            for n in d:
                if "data" in d[n] and not np.allclose(d[n]["data"], ref[key][n]["data"], rtol=1e-6, atol=1e-6):
                    bad = f"{n} depends on the batch size"
        ref.setdefault(key, d)
        if bad:
            ctx.violation("earthvision values", f"{what}: {bad}", replay)
        ctx.traces += 1
    # units that are not known, programs that fail
    cm, surf, off, batch, unit, j = todo[0]
    bad = []
    for k, v in (("elev_units", "yd"), ("xy_units", ""), ("xy_units", "KM "), ("geologic_model", "other.seq"), ("rules_fn", "evrules.nothing"), ("top_surface_2grd", "[none.2grd]"), ("topography_bathymetry_2grd", "[top.2grd")):
        c = json.loads(json.dumps(j))
        c["dir"] += f"-{len(bad)}"
        shutil.copytree(j["dir"] + "/ev", c["dir"] + "/ev")
        c["configs"]["m.cfg"]["earthvision"][k] = v
        c["configs"]["m.cfg"]["earthvision"]["model_dir"] = c["dir"] + "/ev"
        c["configs"]["m.cfg"]["earthvision.environment"]["PATH"] = c["dir"] + "/ev/bin:/usr/bin:/bin"
        bad.append((f"{k} = '{v}'", cm, None, c))
    judge(ctx, drv, bad, "EarthVision")
    ctx.notes["earthvision"] = f"{len(todo)} models"


def check(ctx):
    drv = creator(ctx)
    cpp = Drv(ctx.paths["driver"])
    lists(ctx, drv)
    units(ctx, drv)
    configs(ctx, drv)
    csv(ctx, drv, cpp)
    cca(ctx, drv)
    iris(ctx, drv, cpp)
    earthvision(ctx, drv)
    ctx.assumptions += ["netCDF4 and the EarthVision programs are replaced by stand-ins", "IRIS EMC files have increasing, uniform longitudes and latitudes, and increasing depths"]
