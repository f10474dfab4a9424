"""C17: creation steps compose and touch only what they name.

Explicit-state exploration of the real creation application: a state is the content of the model file, a transition is
one run of the application with a set of steps and a configuration (or with a fault injected at the n-th call of the
data source).  The search runs to closure, so histories of any length over the alphabet are covered.  Oracle: an
abstract state (who wrote each part last, with which configuration) predicts success or failure and every item in the file."""
import itertools
import subprocess
import sys

from build import REPO
from create import *
from c15 import near, text
from c30 import parse_shown

sys.path.insert(0, str(VERIF / "lib"))
import field  # noqa: E402

ATTRS = ("x_resolution", "x_coordinates", "y_resolution", "y_coordinates", "z_resolution", "z_coordinates", "z_top")


class Variant:
    """One configuration of a scenario."""

    def __init__(self, name, cm, shift=0.0):
        self.name, self.cm, self.shift = name, cm, shift
        if shift:
            cm.probe = dict(cm.probe or {}, shift=repr(shift))

    def axes(self, kind):
        """Description of a grid: what has to agree between files and configurations."""
        cm = self.cm
        return json.dumps(cm.surf_attrs({"top_surface": cm.top, "topography_bathymetry": cm.topo}[kind]), sort_keys=True)


def surfaces(cm):
    return [(k, s) for k, s in (("top_surface", cm.top), ("topography_bathymetry", cm.topo)) if s]


def expected_surface(v, kind):
    s = v.cm.top if kind == "top_surface" else v.cm.topo
    fn = field.top if kind == "top_surface" else field.topo
    return (fn(*v.cm.surf_xy(s)) + v.shift).ravel()


def expected_block(v, b, tv):
    """Values of a block written with configuration v when the top surface is that of tv."""
    v.cm.top_shift = tv.shift if tv else 0.0
    p = v.cm.points(b)
    v.cm.top_shift = 0.0
    d = field.values(p[..., 0], p[..., 1], p[..., 2], len(v.cm.values))
    return np.where(d == NODATA, NODATA, d + v.shift).ravel()


class State:
    """domain: variant or None; grids: name -> [variant of values, variant of metadata, variant of top surface] or 'undefined'."""

    def __init__(self, exists=False, domain=None, grids=None):
        self.exists, self.domain, self.grids = exists, domain, dict(grids or {})

    def key(self):
        return (self.exists, self.domain, tuple(sorted(self.grids.items())))

    def step(self, variants, steps, name, fault=None):
        """Result of a run: (success, new state).  fault: (kind, n) first failing call of that kind."""
        s = State(self.exists, self.domain, self.grids)
        v = variants[name]
        cm = v.cm
        allsteps = "all" in steps
        if "import_domain" in steps or allsteps:
            s.exists, s.domain = True, name
        if "import_surfaces" in steps or allsteps:
            for k, _ in surfaces(cm):
                s.exists = True
                if fault and fault[0] == k:
                    s.grids[k] = "undefined"
                    return False, s
                s.grids[k] = (name, name, None)
        if "import_blocks" in steps or allsteps:
            for b in cm.blocks:
                s.exists = True
                if fault and fault[0] == "block":
                    s.grids[b.name] = "undefined"
                    return False, s
                used = ([("top_surface", cm.top)] if cm.top else []) + (surfaces(cm)[-1:] if cm.probe and cm.probe.get("depth") else [])
                for k, _ in used:
                    g = s.grids.get(k)
                    if g == "undefined":
                        s.grids[b.name] = "undefined"   # surface was only partly written: no claim
                        return None, s
                    if g is None or variants[g[1]].axes(k) != v.axes(k):
                        s.grids[b.name] = "undefined"
                        return False, s
                s.grids[b.name] = (name, name, s.grids["top_surface"][0] if cm.top else None)
        if "update_metadata" in steps:
            for k in [k for k, _ in surfaces(cm)] + [b.name for b in cm.blocks]:
                g = s.grids.get(k)
                if g == "undefined":
                    return None, s   # its shape depends on which run failed
                if g is None:
                    return False, s
                if shape(variants[g[0]].cm, k) != shape(cm, k):
                    return False, s
            s.exists, s.domain = True, name
            for k in [k for k, _ in surfaces(cm)] + [b.name for b in cm.blocks]:
                g = s.grids[k]
                if g != "undefined":
                    s.grids[k] = (g[0], name, g[2])
        return True, s

    def judge(self, variants, d):
        """Compare contents of the file with the abstract state."""
        if not self.exists:
            return None if d is None else "a file was written"
        if d is None:
            return "no file"
        if self.domain is None:
            if d["/"]["attrs"]:
                return f"domain written though not asked for: {list(d['/']['attrs'])}"
        else:
            v = variants[self.domain]
            want = domain_attrs(v.cm)
            if v.cm.probe and "title" in v.cm.probe:
                want["title"] = v.cm.probe["title"]
            aux = {"from_source": v.cm.probe["auxiliary"]} if v.cm.probe and "auxiliary" in v.cm.probe else {}
            have = d["/"]["attrs"]
            for k, w in want.items():
                if not near(have.get(k), w):
                    return f"attribute {k} is {have.get(k)!r} instead of {w!r}"
            if json.loads(have.get("auxiliary", "null")) != aux:
                return f"auxiliary data {have.get('auxiliary')!r} instead of {aux!r}"
            if set(have) - set(want) - {"auxiliary"}:
                return f"unexpected attributes {set(have) - set(want) - {'auxiliary'}}"
        names = {("surfaces/" if k in ("top_surface", "topography_bathymetry") else "blocks/") + k: k for k in self.grids}
        have = {k for k in d if k.count("/") == 1 and k != "/"}
        if have != set(names) and (have - set(names) or any(self.grids[names[k]] != "undefined" for k in set(names) - have)):
            return f"grids {sorted(have)} instead of {sorted(names)}"
        for path, k in names.items():
            g = self.grids[k]
            if g == "undefined":
                continue
            vals, meta, top = variants[g[0]], variants[g[1]], variants[g[2]] if g[2] else None
            cm = meta.cm
            e = d[path]
            if path.startswith("surfaces"):
                s = cm.top if k == "top_surface" else cm.topo
                attrs, data, chunk = cm.surf_attrs(s), expected_surface(vals, k), None
            else:
                b = [b for b in cm.blocks if b.name == k][0]
                attrs, data = cm.block_attrs(b), expected_block(vals, [b for b in vals.cm.blocks if b.name == k][0], top)
            shp = shape(vals.cm, k)
            if e["shape"] != shp:
                return f"{path}: shape {e['shape']} instead of {shp}"
            if set(e["attrs"]) != set(attrs) or any(not near(e["attrs"][a], attrs[a]) for a in attrs):
                return f"{path}: attributes {e['attrs']} instead of {attrs}"
            bad = np.abs(np.array(e["data"], dtype=float) - data) > 2e-4 * np.maximum(1.0, np.abs(data) * 1e-2)
            if bad.any():
                i = int(np.argmax(bad))
                return f"{path}: value {tuple(map(int, np.unravel_index(i, shp)))} is {e['data'][i]} instead of {data[i]}"
        return None


def shape(cm, k):
    for name, s in surfaces(cm):
        if name == k:
            return [s[0].n, s[1].n, 1]
    b = [b for b in cm.blocks if b.name == k]
    return list(b[0].dims()) + [len(cm.values)] if b else None


def scenarios(quick):
    U, V = (lambda *a: Ax("u", *a)), (lambda *a: Ax("v", *a))
    meta = {"title": "Another title", "keywords": "one", "history": "Second", "repository_doi": "10.1/2", "authors": "[New, A. | Old, B.]"}

    def up(x=U(4, 4.0), y=U(3, 6.0), z=U(3, 5.0), off=0.0):
        return Blk("upper", x, y, z, 0.0, off)
    low = Blk("lower", U(2, 12.0), U(3, 6.0), U(3, 5.0), -10.0)
    fine = (U(7, 2.0), U(5, 3.0))
    same = (U(4, 4.0), U(3, 6.0))
    vx = [0.0, 4.0, 8.0, 12.0]
    fx = [2.0 * i for i in range(7)]
    out = []
    # metadata and values change
    if quick:
        out.append(("surface, block", 20, [Variant("base", CM([up()], fine)), Variant("meta", CM([up()], fine, base=meta, probe={"auxiliary": "text", "title": "From source"}), 3.0)]))
    else:
        out.append(("surfaces, two blocks", 11, [Variant("base", CM([up(), low], fine, same, probe={"depth": "yes"})),
                                                 Variant("meta", CM([up(), low], fine, same, base=meta, probe={"depth": "yes", "auxiliary": "text", "title": "From source"}), 3.0)]))
    # description of axes changes, shapes do not
    out.append(("axes", None, [Variant("base", CM([up()], fine, None)),
                               Variant("variable", CM([up(x=V(vx))], (V(fx), U(5, 3.0)), None, base=meta))]))
    # depth of the grid: coordinates instead of resolution; no surface
    out.append(("no surface", 15, [Variant("base", CM([up(off=-0.25)])), Variant("vertical", CM([Blk("upper", U(4, 4.0), V([0.0, 6.0, 12.0]), U(3, 5.0), 0.0, -0.25)], base=meta), 2.0)]))
    # shapes change
    out.append(("shapes", 8, [Variant("base", CM([up()], None, same, probe={"depth": "yes"})),
                              Variant("finer", CM([up(x=U(7, 2.0))], None, (U(7, 2.0), U(3, 6.0)), probe={"depth": "yes"}))]))
    if not quick:
        out.append(("three", 20, [Variant("base", CM([up()], fine)), Variant("meta", CM([up()], fine, base=meta), -1.0), Variant("variable", CM([up(x=V(vx))], (V(fx), U(5, 3.0))))]))
        out.append(("values", 12, [Variant("base", CM([up()], fine)), Variant("one value", CM([up()], fine, values=("one",), units=("m",))), Variant("names", CM([up()], fine, values=("three", "two"), units=("none", "m/s")))]))
        out.append(("surface added", None, [Variant("base", CM([up()], None, None)), Variant("topo", CM([up()], None, fine, probe={"depth": "yes"}))]))
    return out


STEPS = ("import_domain", "import_surfaces", "import_blocks", "update_metadata", "all")


def alphabet(quick, variants, batch):
    """(steps, variant, fault) of every transition."""
    out = []
    for v in variants:
        sets = [c for n in (1, 2, 3, 4, 5) for c in itertools.combinations(STEPS, n)]
        some = [("import_domain", "import_surfaces"), ("import_surfaces", "import_blocks"), ("import_blocks", "update_metadata"), ("update_metadata", "all"), STEPS]
        out += [(s, v.name, None) for s in sets if len(s) == 1 or v is variants[0] and (not quick or s in some)]
        kinds = [k for k, _ in surfaces(v.cm)] + ["block"]
        if v is variants[0]:
            out += [(("all",), v.name, (kind, n, "raise")) for kind in kinds for n in ((1, 2) if batch and not quick else (1 + (batch is not None),))]
    return out


def faults(ctx, drv):
    """A data source that fails in any way at any of its calls: an error is reported, and repeating the step repairs the file."""
    U = lambda *a: Ax("u", *a)  # noqa: E731
    b = [Blk("upper", U(4, 4.0), U(3, 6.0), U(3, 5.0), 0.0), Blk("lower", U(4, 4.0), U(3, 6.0), U(3, 5.0), -10.0)]
    cm = CM(b, (U(7, 2.0), U(5, 3.0)), (U(4, 4.0), U(3, 6.0)))
    jobs = []
    for batch in (None, 7) if ctx.quick else (None, 4, 7, 16):
        for kind in ("initialize", "top_surface", "topography_bathymetry", "block"):
            for how in ("raise", "none", "short", "extra", "long", "text"):
                for at in range(1, 7 if batch else 2):
                    cm.probe = {"fail": kind, "how": how, "at": str(at)}
                    bad = cm.config(batch=batch)
                    cm.probe = None
                    d = str(ctx.work / f"f{len(jobs)}")
                    steps = ["all_steps"] if len(jobs) % 2 else ["import_domain", "import_surfaces", "import_blocks"]
                    jobs.append((batch, kind, how, at, {"dir": d, "configs": {"bad.cfg": bad, "m.cfg": cm.config(batch=batch)}, "dump": "model.h5",
                                                        "runs": [{"kwargs": dict({s: True for s in steps}, config_filenames=c)} for c in ("bad.cfg", "m.cfg")]}))
    v = {"a": Variant("a", cm)}
    good = State(True, "a", {k: ("a", "a", "a" if k in ("upper", "lower") else None) for k in ("upper", "lower", "top_surface", "topography_bathymetry")})
    for (batch, kind, how, at, j), r in zip(jobs, drv.run([[J("create", **j)] for *_, j in jobs])):
        a = answer(r[0])
        ctx.transitions += 2
        ctx.state(("fault", batch, kind, how, at))
        replay = {"configuration": text(j["configs"]["bad.cfg"]), "steps": a["steps"]}
        calls = {"initialize": 1, "top_surface": batches(batch, 7, 5), "topography_bathymetry": batches(batch, 4, 3), "block": 2 * batches(batch, 4, 3, 3)}[kind]
        if at <= calls and a["steps"][0]["result"] == "OK":
            ctx.violation(f"fault {kind} {how}", f"batch size {batch}: no error is reported when call {at} of the data source ({kind}) fails (how: {how})", replay)
            continue
        w = good.judge(v, a["dump"]) if a["steps"][1]["result"] == "OK" else "it fails with " + a["steps"][1]["result"]
        if w:
            ctx.violation(f"repair {kind} {how}", f"batch size {batch}: repeating the steps after a failure at call {at} ({kind}, {how}): {w}", replay)
        ctx.traces += 1


def batches(batch, *dims):
    """A lower bound of the number of batches."""
    return 1 if batch is None else -(-int(np.prod(dims)) // batch)


def explore(ctx, drv, name, batch, variants):
    var = {v.name: v for v in variants}
    root = str(ctx.work / name.replace(" ", "-").replace(",", ""))
    seen = {State().key(): (State(), None, [])}
    refs = {}
    frontier = [State().key()]
    letters = alphabet(ctx.quick, variants, batch)
    count = 0
    while frontier:
        jobs = []
        for key in frontier:
            st, path, hist = seen[key]
            for steps, vn, fault in letters:
                count += 1
                d = f"{root}-{count}"
                cm = var[vn].cm
                keep = cm.probe
                if fault:
                    cm.probe = dict(keep or {}, fail=fault[0], at=str(fault[1]), how=fault[2])
                conf = cm.config(batch=batch)
                cm.probe = keep
                argv = (count % 4 == 1)
                run = {"argv": ["--config=m.cfg"] + ["--" + s.replace("_", "-") for s in steps]} if argv else {"kwargs": dict({"config_filenames": "m.cfg"}, **{("all_steps" if s == "all" else s): True for s in steps})}
                jobs.append((key, (steps, vn, fault), {"dir": d, "configs": {"m.cfg": conf}, "copy": path, "runs": [run], "dump": "model.h5", "keep": "model.h5"}))
        new = []
        for (key, letter, j), r in zip(jobs, drv.run([[J("create", **j)] for *_, j in jobs])):
            st, path, hist = seen[key]
            a = answer(r[0])
            res = a["steps"][0]["result"]
            ctx.transitions += 1
            steps, vn, fault = letter
            h = hist + [f"{'+'.join(steps)} [{vn}]" + (f" with fault {fault}" if fault else "")]
            ok, nxt = st.step(var, steps, vn, fault)
            replay = {"scenario": name, "batch": batch, "history": h, "configurations": {v.name: text(v.cm.config(batch=batch)) for v in variants}, "result": res}

            def bad(what):
                ctx.violation(f"{name}: {'; '.join(h)}", f"{what} (after {'; '.join(h)}; scenario '{name}', batch size {batch})", replay)
            if ok is True and res != "OK":
                bad(f"fails with {res}")
                continue
            if ok is False and (res == "OK" or res == "EXIT 0"):
                bad("no error is reported")
                continue
            if ok is None:
                continue
            if not ok and len(res.split(":", 1)[-1].strip()) == 0 and not res.startswith("AssertionError"):
                bad("error without text")
            w = nxt.judge(var, a["dump"])
            if w:
                bad(w)
                continue
            ctx.traces += 1
            k = nxt.key()
            contents = json.dumps(a["dump"], sort_keys=True) if all(g != "undefined" for g in nxt.grids.values()) else None
            if k in refs and contents and refs[k][0] and contents != refs[k][0]:
                x, y = json.loads(contents), json.loads(refs[k][0])
                diff = [n for n in set(x or {}) | set(y or {}) if (x or {}).get(n) != (y or {}).get(n)]
                bad(f"file differs in {diff} from the one after {'; '.join(refs[k][1])}")
                continue
            if k not in seen:
                refs[k] = (contents, h)
                seen[k] = (nxt, j["dir"] + "/model.h5" if nxt.exists else None, h)
                new.append(k)
            else:
                f = pathlib.Path(j["dir"] + "/model.h5")
                if f.exists():
                    f.unlink()
        frontier = new
        if ctx.stopped:
            return
    for k in seen:
        ctx.state((name, k))
    ctx.notes[name] = f"{len(seen)} states x {len(letters)} transitions, closed"
    ctx.sample(max((h for _, _, h in seen.values()), key=len))


def invalid(ctx, drv):
    """Configurations and command lines that cannot work; parameters shown are those read."""
    U = lambda *a: Ax("u", *a)  # noqa: E731
    base = lambda: CM([Blk("upper", U(4, 4.0), U(3, 6.0), U(3, 5.0), 0.0)], (U(7, 2.0), U(5, 3.0)), (U(4, 4.0), U(3, 6.0))).config(batch=6)  # noqa: E731
    good = base()
    jobs = []

    def add(what, conf, want, argv=None, files=None):
        jobs.append((what, conf, want, {"dir": str(ctx.work / f"i{len(jobs)}"), "configs": dict({"m.cfg": conf}, **(files or {})), "runs": [{"argv": argv or ["--config=m.cfg", "--all"]}], "dump": "model.h5"}))
    add("unchanged", good, True)
    optional = {("domain", "batch_size"), ("top_surface", "use_surface"), ("topography_bathymetry", "use_surface")}
    for s in good:
        for k in good[s]:
            c = base()
            del c[s][k]
            add(f"without {s}.{k}", c, (s, k) in optional)
        c = base()
        del c[s]
        add(f"without section {s}", c, s in ("top_surface", "topography_bathymetry"))
    numbers = [("coordsys", "origin_x"), ("coordsys", "origin_y"), ("coordsys", "y_azimuth"), ("domain", "dim_x"), ("domain", "dim_y"), ("domain", "dim_z"), ("domain", "batch_size"), ("upper", "x_resolution"),
               ("upper", "y_resolution"), ("upper", "z_resolution"), ("upper", "z_top"), ("upper", "z_bot"), ("upper", "z_top_offset"), ("upper", "chunk_size"), ("top_surface", "x_resolution"),
               ("top_surface", "y_resolution"), ("top_surface", "chunk_size"), ("topography_bathymetry", "x_resolution"), ("topography_bathymetry", "chunk_size")]
    for s, k in numbers:
        for v in ("", "text", "1.0.0", "[1.0", "1;2"):
            c = base()
            c[s][k] = v
            if (s, k, v) == ("domain", "batch_size", ""):
                continue
            add(f"{s}.{k} = '{v}'", c, False)
    for v, ok in (("True", True), ("False", None), ("no", None), ("yes", True), ("perhaps", False), ("", False)):
        c = base()
        c["topography_bathymetry"]["use_surface"] = v
        add(f"use_surface = '{v}'", c, ok if ok is not None else "no topo")
    for s, k, v in (("data", "layout", "cell"), ("data", "layout", ""), ("domain", "blocks", "[upper, nothere]"), ("domain", "blocks", "[]"), ("geomodelgrids", "data_source", "probe.Nothing"),
                    ("geomodelgrids", "data_source", "nomodule.Src"), ("geomodelgrids", "filename", "nodir/model.h5"), ("geomodelgrids", "filename", ""),
                    ("top_surface", "x_resolution", "3.0"), ("top_surface", "x_resolution", "8.0"), ("top_surface", "y_resolution", "4.0"), ("upper", "x_resolution", "3.0"), ("upper", "chunk_size", "(9, 9, 9, 9)"), ("upper", "chunk_size", "(2, 2)")):
        c = base()
        c[s][k] = v
        add(f"{s}.{k} = '{v}'", c, False)
    for v in ("[0.0, 4.0, 8.0]", "[0.0, 4.0, 8.0, 12.0]"):
        c = base()
        del c["upper"]["x_resolution"]
        c["upper"]["x_coordinates"] = v
        add(f"x_coordinates {v} below surface with uniform resolution", c, False)
    add("config not there", good, False, ["--config=n.cfg", "--all"])
    add("second config not there", good, False, ["--config=m.cfg,n.cfg", "--all"])
    add("empty config name", good, False, ["--config=", "--all"])
    add("no config", good, False, ["--all"])
    add("no config given", good, False, ["--all", "--config"])
    add("unknown option", good, False, ["--config=m.cfg", "--all", "--nothing"])
    add("extra argument", good, False, ["--config=m.cfg", "--all", "extra"])
    add("nothing to do", good, "none", ["--config=m.cfg"])
    add("quiet", good, True, ["--config=m.cfg", "--all", "--quiet"])
    add("log and debug", good, True, ["--all", "--log=my.log", "--debug", "--config", "m.cfg"])
    add("steps together", good, True, ["--import-blocks", "--import-surfaces", "--config=m.cfg", "--import-domain"])
    over = {"geomodelgrids": {"title": "Overridden"}, "extra": {"a": "b"}}
    add("override", good, "override", ["--config=m.cfg,n.cfg", "--all"], {"n.cfg": over})
    shown = base()
    shown["geomodelgrids"].update(title="100 %% of it", KeyWithCase="Value", comment="line one\n  line two")
    add("show", shown, "show", ["--config=m.cfg", "--show-parameters", "--all"])
    add("show overridden", shown, "show over", ["--config=m.cfg,n.cfg", "--show-parameters"], {"n.cfg": over})
    add("help", good, "help", ["--help"])
    cm = CM([Blk("upper", U(4, 4.0), U(3, 6.0), U(3, 5.0), 0.0)], (U(7, 2.0), U(5, 3.0)), (U(4, 4.0), U(3, 6.0)))
    ref = None
    for (what, conf, want, j), r in zip(jobs, drv.run([[J("create", **j)] for *_, j in jobs])):
        a = answer(r[0])
        s = a["steps"][0]
        ctx.transitions += 1
        ctx.state(("invalid", what))
        replay = {"configuration": text(conf), "argv": j["runs"][0]["argv"], "result": s["result"]}

        def bad(t):
            ctx.violation(what, f"configuration or command line '{what}': {t}", replay)
        ok = s["result"] in ("OK", "EXIT 0")
        if want is False:
            if ok:
                bad("no error is reported")
            continue
        if not ok:
            bad("fails with " + s["result"])
            continue
        ctx.traces += 1
        d = a["dump"]
        if want is True:
            if what == "unchanged":
                ref = d
                v = {"a": Variant("a", cm)}
                w = State(True, "a", {k: ("a", "a", "a" if k == "upper" else None) for k in ("upper", "top_surface", "topography_bathymetry")}).judge(v, d)
                if w:
                    bad(w)
            elif d != ref and not what.startswith("without section") and not what.startswith("without domain.batch"):
                bad("file differs from that of the complete configuration")
        elif want == "no topo":
            if not d or "surfaces/topography_bathymetry" in d or any(d[k] != ref[k] for k in ref if k not in ("/", "surfaces", "surfaces/topography_bathymetry")):
                bad("surface that is not to be used is in the file, or other contents changed")
        elif want in ("none", "help", "show", "show over"):
            if d is not None:
                bad("a file was written")
            if want == "help" and ("--config" not in s["stdout"] or "usage" not in s["stdout"].lower()):
                bad("no help is printed")
            if want.startswith("show"):
                e = {k: dict(x) for k, x in conf.items()}
                e["geomodelgrids"].update(title="100 % of it", comment="line one\nline two")
                if want == "show over":
                    e["geomodelgrids"]["title"] = "Overridden"
                    e["extra"] = {"a": "b"}
                got = parse_shown(s["stdout"])
                if got != e:
                    bad(f"parameters shown are {got} instead of {e}")
        elif want == "override":
            if d["/"]["attrs"]["title"] != "Overridden" or {k: x for k, x in d.items() if k != "/"} != {k: x for k, x in ref.items() if k != "/"}:
                bad("later configuration file does not override the earlier one")


def full_disk(ctx):
    """Real runs of the program with the size of files limited: it fails, or the file is complete."""
    U = lambda *a: Ax("u", *a)  # noqa: E731
    cm = CM([Blk("upper", U(9, 1.5), U(9, 1.5), U(9, 1.25), 0.0)], (U(9, 1.5), U(9, 1.5)))
    d = ctx.work / "disk"
    d.mkdir()
    (d / "m.cfg").write_text(text(cm.config(batch=300)))
    env = dict(os.environ, PYTHONPATH=f"{ctx.paths['stage']}:{VERIF / 'lib'}", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
    prog = [sys.executable, str(REPO / "bin" / "geomodelgrids_create_model"), "--config=m.cfg", "--all"]
    if not os.access(prog[1], os.R_OK):
        raise RuntimeError("bin/geomodelgrids_create_model is missing")
    r = subprocess.run(prog + ["--log=/dev/null"], cwd=d, env=env, capture_output=True, text=True)
    if r.returncode:
        ctx.violation("program", f"bin/geomodelgrids_create_model fails: {r.stderr[-300:]}", {"configuration": (d / "m.cfg").read_text()})
        return
    full = (d / "model.h5").read_bytes()
    size = len(full)
    step = 4096 if ctx.quick else 512
    from concurrent.futures import ThreadPoolExecutor

    def one(limit):
        w = ctx.work / f"disk{limit}"
        w.mkdir()
        (w / "m.cfg").write_text((d / "m.cfg").read_text())
        r = subprocess.run(["prlimit", f"--fsize={limit}"] + prog + ["--log=/dev/null"], cwd=w, env=env, capture_output=True, text=True)
        f = w / "model.h5"
        return limit, r.returncode, r.stderr, f.read_bytes() if f.exists() else None
    with ThreadPoolExecutor(8) as ex:
        for limit, rc, err, data in ex.map(one, range(0, size + step, step)):
            ctx.transitions += 1
            ctx.state(("disk", limit))
            if rc == 0 and data != full:
                ctx.violation(f"limit {limit}", f"file size limited to {limit} of {size} bytes: exit status 0 though the file is not complete", {"configuration": (d / "m.cfg").read_text(), "limit": limit})
            if rc != 0 and (not err.strip() or limit >= size):
                ctx.violation(f"limit {limit}", f"file size limited to {limit} of {size} bytes: exit status {rc}, message '{err[-200:]}'", {"configuration": (d / "m.cfg").read_text(), "limit": limit})
    ctx.notes["disk"] = f"file of {size} bytes, limits every {step} bytes"


def check(ctx):
    drv = creator(ctx)
    for name, batch, variants in scenarios(ctx.quick):
        explore(ctx, drv, name, batch, variants)
        if ctx.stopped:
            return
    faults(ctx, drv)
    invalid(ctx, drv)
    full_disk(ctx)
    ctx.notes["rule"] = "explicit-state search over contents of the model file to closure; transitions are runs of the application"
    ctx.assumptions += ["state of the application between runs is the model file alone", "with the same configuration of blocks: blocks left from another configuration are kept"]
