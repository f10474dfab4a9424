"""C31: rules of the San Francisco Bay models.

The elastic properties are a pure function of (version of the model, fault block, zone, side of a dividing line, depth).  All versions x fault blocks x zones x
sides x depths of a lattice (refined on both sides of every depth where a rule changes) are evaluated with the real rules, forwards and backwards, and compared
with the published equations, written here in the units in which they were published (km, km/s, g/cm**3).  The same rules are then used the way the models are
created: through the EarthVision data source (stand-ins for its programs name the fault blocks and zones), the creation application and the model file."""
import itertools
import shutil

from create import *
from c15 import text
from c30 import FAKE
from build import REPO

AAG, HIR = "Aagaard et al. (2010)", "Hirakawa and Aagaard"


def poly(c, d):
    return sum(a * d ** k for k, a in enumerate(c))


def pieces(*p):
    """Piecewise polynomials in the depth below a reference: (upper limit of depth in m, reference depth in km, coefficients)."""
    def f(m):
        for lim, ref, c in p:
            if lim is None or m < lim:
                return poly(c, m / 1000.0 - ref)
    f.limits = [x[0] for x in p if x[0] is not None]
    return f


def vs_brocher(vp):
    return poly([0.7858, -1.2344, 0.7949, -0.1238, 0.0064], vp)


def rho_vp(vp):
    return 1.74 * vp ** 0.25


def nafe_drake(extra):
    return lambda vp: extra + poly([0.0, 1.6612, -0.4721, 0.0671, -0.0043, 0.0001], vp)


def q_s(vs):
    return 13.0 if vs < 0.3 else poly([-16.0, 104.13, -25.225, 8.2184], vs)


class Rule:
    def __init__(self, vp, vs=None, rho=rho_vp, limits=()):
        """vs: pieces for depths up to a limit, then the default; rho(vp, depth in m)."""
        self.vp, self.vs, self.rho = vp, vs, rho
        self.limits = sorted(set(vp.limits) | set(limits))

    def __call__(self, m):
        vp = self.vp(m)
        vs = self.vs(m, vp) if self.vs else vs_brocher(vp)
        rho = self.rho(vp, m) if self.rho is not rho_vp else rho_vp(vp)
        qs = q_s(vs)
        return [1000.0 * rho, 1000.0 * vp, 1000.0 * vs, 2.0 * qs, qs]


def franciscan(a):
    return Rule(pieces((1000.0, 0.0, [a + 2.5, 2.0]), (3000.0, 1.0, [a + 4.5, 0.45]), (None, 3.0, [a + 5.4, 0.0588])), rho=lambda vp, m: rho_vp(5.4 + a) if m < 3000.0 else rho_vp(vp))


def shallow(limit, c):
    return lambda m, vp: poly(c, m / 1000.0) if m < limit else vs_brocher(vp)


SLOPES = {
    "mantle": Rule(pieces((20000.0, 0.0, [7.77]), (None, 20.0, [7.77, 0.001])), vs=lambda m, vp: 4.41 if m < 20000.0 else 4.41 + 0.0006 * (m / 1000.0 - 20.0), rho=lambda vp, m: 3.3),
    "ophiolite": Rule(pieces((10000.0, 0.0, [5.9]), (None, 10.0, [5.9, 0.056])), rho=lambda vp, m: nafe_drake(0.227)(vp)),
    "franciscan foothills": franciscan(0.13), "franciscan napa-sonoma": franciscan(0.03), "franciscan berkeley": franciscan(-0.03),
    "salinian": Rule(pieces((500.0, 0.0, [1.5, 5.0]), (1500.0, 0.5, [4.0, 1.3]), (2500.0, 1.5, [5.3, 0.3]), (5000.0, 2.5, [5.6, 0.08]), (None, 5.0, [5.8, 0.06])),
                     rho=lambda vp, m: nafe_drake(0.06)(5.64 if m < 3000.0 else vp), limits=[3000.0]),
    "great valley": Rule(pieces((3600.0, 0.0, [2.5, 0.5833]), (8000.0, 3.6, [4.6, 0.18182]), (11000.0, 8.0, [5.4, 0.166]), (None, 11.0, [5.9, 0.0666])),
                         vs=lambda m, vp: 0.6 + 1.183 * m / 1000.0 if m < 1000.0 else 1.5 + 0.2836 * m / 1000.0 if m < 5000.0 else vs_brocher(vp), rho=lambda vp, m: rho_vp(4.25) if m < 3000.0 else rho_vp(vp), limits=[1000.0, 3000.0, 5000.0]),
    "quaternary-tertiary": Rule(pieces((40.0, 0.0, [0.7, 42.968, -575.8, 2931.6, -3977.6]), (500.0, 0.0, [1.5, 3.735, -3.543]), (10000.0, 0.0, [2.24, 0.6]), (None, 0.0, [8.24])),
                                vs=lambda m, vp: 0.08 + 2.5 * m / 1000.0 if m < 25.0 else (vp - 1.36) / 1.16 if m < 50.0 else vs_brocher(vp), limits=[25.0, 50.0]),
    "la honda": Rule(pieces((3000.0, 0.0, [2.24, 2.62, -0.74432, 0.0707]), (None, 3.0, [5.32, 0.027])), vs=shallow(50.0, [0.5, 6.633]), limits=[50.0]),
    "south bay": Rule(pieces((750.0, 0.0, [1.8, 1.2]), (4000.0, 0.75, [2.7, 0.597]), (7000.0, 4.0, [4.64, 0.417]), (None, 7.0, [5.891, 0.06])), vs=shallow(50.0, [0.5, 0.4]), limits=[50.0]),
    "half moon bay": Rule(pieces((50.0, 0.0, [0.7, 31.4]), (4000.0, 0.05, [2.24, 0.6]), (7000.0, 4.0, [4.64, 0.417]), (None, 7.0, [5.891, 0.06])), vs=shallow(50.0, [0.5, 0.4]), limits=[50.0]),
    "great valley 2008": Rule(pieces((4000.0, 0.0, [2.75, 0.4725]), (7000.0, 4.0, [4.64, 0.3]), (None, 7.0, [5.54, 0.06]))),
    "older cenozoic 2005": Rule(pieces((4000.0, 0.0, [2.24, 0.6]), (7000.0, 4.0, [4.64, 0.3]), (None, 7.0, [5.54, 0.06]))),
    "livermore": Rule(pieces((6444.44, 0.0, [1.64, 0.6]), (None, 6.44444, [5.506667, 0.06]))),
    "walnut creek": Rule(pieces((750.0, 0.0, [1.8, 1.2]), (4000.0, 0.75, [2.7, 0.597]), (7000.0, 4.0, [4.64, 0.3]), (None, 7.0, [5.54, 0.06])), vs=shallow(50.0, [0.5, 0.4]), limits=[50.0]),
}
CONST = {"water": [1030.0, 1500.0, NODATA, 63000.0, NODATA], "outside": [NODATA] * 5}
# Fault blocks divided by a line through a reference point (latitude, longitude), perpendicular to azimuth 323.638: (rule along the azimuth, rule on the other side)
SPLIT = {
    "san leandro": ((37.57, -121.95), "great valley 2008", "older cenozoic 2005"),
    "napa franciscan": ((38.25, -122.28), "franciscan napa-sonoma", "great valley 2008"),
    "napa cenozoic": ((37.96, -122.07), "older cenozoic 2005", "walnut creek"),
    "sonoma cenozoic": ((38.25, -122.46), "great valley 2008", "older cenozoic 2005"),
}
AZIMUTH = 323.638
MODEL_CRS = "+proj=tmerc +lat_0=35 +lon_0=-123 +k=0.9996 +x_0=0 +y_0=0 +ellps=GRS80 +units=m +no_defs"

DETAILED = {}
for rule, zones in {
    "mantle": ["Mantle"], "ophiolite": ["Lower Crust", "Great_Valley_Ophiolite", "San Leandro G", "Logan G"],
    "franciscan berkeley": ["Kjf_Berkeley", "Kjf_Chabot", "Kjf_Sur", "Kjf_Evergreen", "Kjf_E_Diablo", "Kjf_W_Diablo"], "franciscan foothills": ["Kjf_Foothills"],
    "franciscan napa-sonoma": ["Kjf_Merced", "Kjf_Napa_Somoma", "Kjf_Bay Block"], "salinian": ["Kgr_Gab", "Kgr_Halfmoon", "Kgr_SCoast", "Kgr_NShelf"], "great valley": ["Valley Sequence", "Great Valley Seq"],
    "south bay": ["Cenozoic", "Cenozoic_Great Valley", "Cenozoic_Ever", "T_SouthBay", "T_Pilarcitos", "T_Bay_Block_Santa_Rosa", "T_Berkeley"], "half moon bay": ["Cenozoic_Halfmoon"], "la honda": ["T_La Honda"],
    "quaternary-tertiary": ["QT_Bay_Block_Santa Rosa", "QT_Merced_Pilarcitos", "QT_South_Bay"], "water": ["water"], "outside": ["<null>", ""],
}.items():
    DETAILED.update({z: rule for z in zones})
UPDATES = {  # version 21.1: (zone, fault block)
    ("Kjf_Napa_Somoma", "Napa"): "napa franciscan", ("Valley Sequence", "San Leandro"): "san leandro", ("Valley Sequence", "Sunol"): "great valley 2008",
    ("Great Valley Seq", "Berkeley"): "great valley 2008", ("Great Valley Seq", "Chabot"): "great valley 2008", ("Great Valley Seq", "W Diablo Range"): "great valley 2008",
    ("Cenozoic", "Napa"): "napa cenozoic", ("Cenozoic", "Sonoma"): "sonoma cenozoic", ("Cenozoic", "Alexander"): "great valley 2008", ("Cenozoic", "W Diablo Range"): "livermore",
    ("T_Bay_Block_Santa_Rosa", "Santa Rosa"): "older cenozoic 2005", ("T_Berkeley", "Berkeley"): "great valley 2008", ("T_Berkeley", "Chabot"): "great valley 2008",
}
REGIONAL = {}
for rule, zones in {
    "mantle": ["mantle"], "ophiolite": ["mafic lower crust", "GV gabbro"], "franciscan foothills": ["KJf_Foothills", "KJf_Viscaino"], "franciscan berkeley": ["KJf_W_Diablo", "KJf_E_Diablo", "KJf_Sur", "KJf_Coastal_Belt"],
    "great valley": ["K"], "salinian": ["Kgr"], "franciscan napa-sonoma": ["KJF_Bay_Block"], "south bay": ["Cs_Coast Ranges", "Cs_Offshore", "T_Foothills", "T_Great_Valley", "T_Salinia"], "quaternary-tertiary": ["Q_Salinia"],
    "water": ["water"], "outside": ["<null>", ""],
}.items():
    REGIONAL.update({z: rule for z in zones})
VERSIONS = {"USGS_SFCVM_detailed_v08-3-0": (DETAILED, {}), "USGS_SFCVM_detailed_v21-1": (DETAILED, UPDATES), "USGS_SFCVM_regional_v08-3-0": (REGIONAL, {})}
FAULT_BLOCKS = ["", "<null>", "Alexander", "Bay Block", "Berkeley", "Chabot", "Napa", "San Leandro", "Santa Rosa", "Sonoma", "Sunol", "W Diablo Range", "napa", "Napa ", "W Diablo", "other"]


def reference_points():
    import pyproj
    t = pyproj.Transformer.from_crs("EPSG:4269", MODEL_CRS, always_xy=True)
    return {k: t.transform(ll[1], ll[0]) for k, (ll, *_) in SPLIT.items()}


def side(ref, x, y):
    a = math.radians(AZIMUTH)
    return (x - ref[0]) * math.sin(a) + (y - ref[1]) * math.cos(a)


def expected(refs, version, fb, zone, x, y, depth):
    zones, updates = VERSIONS[version]
    r = updates.get((zone, fb), zones[zone])
    if r in SPLIT:
        r = SPLIT[r][1 if side(refs[r], x, y) >= 0.0 else 2]
    return (r, CONST[r]) if r in CONST else (r, SLOPES[r](depth))


def depths(quick):
    lim = sorted({m for r in SLOPES.values() for m in r.limits})
    out = {0.0, -0.01, -5.0, 1.0, 10.0, 100.0, 1e5}
    for m in lim:
        out |= {m, m - 1e-3, m + 1e-3, float(np.nextafter(m, 0.0)), float(np.nextafter(m, 1e9)), m - 1.0, m + 1.0}
    step = 50.0 if quick else 10.0
    out |= {step * k for k in range(int(50000.0 / step) + 1)} | {(2.5 if quick else 0.5) * k for k in range(int(600.0 / (2.5 if quick else 0.5)))}
    return sorted(out)


def positions(refs, quick):
    a = math.radians(AZIMUTH)
    out = []
    for x0, y0 in sorted(set(refs.values())):
        for d in (0.2, -0.2, 5.0, -5.0, 20e3, -20e3):
            for t in (0.0, 30e3, -30e3) if quick else (0.0, 2e3, -2e3, 30e3, -30e3, 150e3, -150e3):
                out.append((x0 + d * math.sin(a) + t * math.cos(a), y0 + d * math.cos(a) - t * math.sin(a)))
    return out


def sane(v):
    """Properties of rocks, whatever the equations."""
    rho, vp, vs, qp, qs = v
    return 1000.0 < rho < 4000.0 and 600.0 < vp < 15000.0 and 70.0 < vs < vp / 1.4 and qs >= 12.9 and abs(qp - 2.0 * qs) < 1e-9 * qp


def same(g, w, tol):
    return len(g) == len(w) and all(a == b if b == NODATA else abs(a - b) <= tol * abs(b) for a, b in zip(g, w))


def direct(ctx, drv, refs):
    dd, pp = depths(ctx.quick), positions(refs, ctx.quick)
    few = [dd[i] for i in range(0, len(dd), max(1, len(dd) // 40))]
    path = str(REPO / "models" / "usgs_sfbay")
    jobs = []
    for v, (zones, updates) in VERSIONS.items():
        for z in zones:
            grouped = ([(fb, z) for fb in FAULT_BLOCKS if (z, fb) not in updates], [(fb, z) for fb in FAULT_BLOCKS if (z, fb) in updates])
            for k, pairs in enumerate(grouped):
                for i, pair in enumerate(pairs):
                    full = i == 0 or k == 1 or not ctx.quick
                    split = updates.get((z, pair[0])) in SPLIT
                    # all depths at two positions on either side of the lines, all positions at some depths
                    ends = [pp[j] for j in (range(0, len(pp), 3) if split else (0, len(pp) // 2))]
                    pts = [(x, y, d) for x, y in (ends if full else ends[:1]) for d in (dd if full else few)]
                    if full:
                        pts += [(x, y, d) for x, y in pp for d in few]
                    jobs.append((v, pair, pts))
    for (v, pair, pts), r in zip(jobs, drv.run([[J("rules", path=path, module=v, zones=[pair], points=pts)] for v, pair, pts in jobs])):
        fwd, back = answer(r[0])
        fb, z = pair
        ctx.traces += 1
        what = f"{v}, fault block '{fb}', zone '{z}'"
        if fwd[0][0] != "OK":
            ctx.violation(f"rules {v} {fb} {z}", f"{what}: {fwd[0]}", {"model": v, "fault_block": fb, "zone": z})
            continue
        if fwd != back:
            ctx.violation(f"rules {v} {fb} {z}", f"{what}: the answers depend on the order of the calls", {"model": v, "fault_block": fb, "zone": z})
            continue
        for (x, y, d), g in zip(pts, fwd[0][1]):
            ctx.transitions += 1
            name, w = expected(refs, v, fb, z, x, y, d)
            if d == pts[0][2] or d == 0.0:
                ctx.state((v, pair, x, y))
            if not same(g, w, 1e-9) or (name not in CONST and 0.0 <= d <= 50e3 and not sane(g)):
                ctx.violation(f"rules {v} {fb} {z}", f"{what}: at ({x}, {y}), depth {d}: (density, Vp, Vs, Qp, Qs) are {g} instead of {w} ({name})", {"model": v, "fault_block": fb, "zone": z, "point": [x, y, d], "expected": w, "got": g})
                break
    # zones that the model does not have
    unknown = ["other", "mantle ", "Mantle", "mantle", "WATER", "K", "T_La_Honda", "null", None]
    for v, (zones, _) in VERSIONS.items():
        zz = [z for z in unknown if z not in zones]
        res = answer(drv.run([[J("rules", path=path, module=v, zones=[[fb, z] for z in zz for fb in ("", "Napa")], points=[[0.0, 0.0, 100.0]])]])[0][0])[0]
        for (z, fb), a in zip(itertools.product(zz, ("", "Napa")), res):
            ctx.transitions += 1
            if a[0] == "OK":
                ctx.violation(f"unknown zone {v}", f"{v}: zone {z!r}, which the model does not have, gives {a[1]}", {"model": v, "zone": z})
    ctx.notes["rules"] = f"{len(jobs)} combinations of version, fault block and zone, {len(dd)} depths, {len(pp)} positions"


def created(ctx, drv, cpp, refs):
    """The rules as used by the creation of the models."""
    todo = []
    for n, (v, batch) in enumerate(itertools.product(VERSIONS, (None, 700) if ctx.quick else (None, 97, 700, 5000))):
        zones = list(VERSIONS[v][0])
        fbs = [f for f in FAULT_BLOCKS if f == f.strip()]
        dx = dy = 4000.0
        ax = (Ax("u", len(zones), dx), Ax("u", len(fbs), dy))
        blks = [Blk("shallow", *ax, Ax("u", 14, 4.5), 0.0), Blk("middle", *ax, Ax("u", 12, 90.5), -58.5), Blk("deep", *ax, Ax("u", 11, 2900.0), -58.5 - 11 * 90.5)]
        az = [0.0, 323.638, 30.0][n % 3]
        ref = list(refs.values())[n % len(refs)]
        cm = CM(blks, ax, None, azimuth=az, crs=MODEL_CRS, values=("density", "Vp", "Vs", "Qp", "Qs", "fault_block_id", "zone_id"), units=("kg/m**3", "m/s", "m/s", "none", "none", "none", "none"))
        a = math.radians(az)
        cx, cy = 0.37 * cm.dim[0], 0.41 * cm.dim[1]
        cm.origin = (round(ref[0] - cx * math.cos(a) - cy * math.sin(a)), round(ref[1] + cx * math.sin(a) - cy * math.cos(a)))
        d = str(ctx.work / f"sf{n}")
        os.makedirs(d + "/ev/bin")
        for p in ("ev_fp", "ev_label", "ev_facedump"):
            shutil.copyfile(FAKE / "ev.py", f"{d}/ev/bin/{p}")
            os.chmod(f"{d}/ev/bin/{p}", 0o755)
        (ca, sa), (ox, oy) = (math.cos(a), math.sin(a)), cm.origin
        lab = {"fault_blocks": fbs, "zones": zones, "zone": [-(ox * ca - oy * sa) / dx, ca / dx, -sa / dx], "fb": [-(ox * sa + oy * ca) / dy, sa / dy, ca / dy]}
        pathlib.Path(d + "/ev/labels.json").write_text(json.dumps(lab))
        pathlib.Path(d + "/ev/units.json").write_text(json.dumps({"xy": 1.0, "z": 0.3048}))
        c = cm.config(batch=batch, source="geomodelgrids.create.data_srcs.earthvision.datasrc.RulesDataSrc")
        c["earthvision"] = {"model_dir": d + "/ev", "top_surface_2grd": "[zero.2grd]", "topography_bathymetry_2grd": "[zero.2grd]", "geologic_model": "model.seq", "elev_units": "ft", "xy_units": "m",
                            "rules_fn": v + ".get_rules", "rules_pythonpath": str(REPO / "models" / "usgs_sfbay")}
        c["earthvision.environment"] = {"PATH": d + "/ev/bin:/usr/bin:/bin"}
        todo.append((v, batch, cm, fbs, zones, {"dir": d, "configs": {"m.cfg": c}, "runs": [{"kwargs": {"config_filenames": "m.cfg", "all_steps": True}}], "dump": "model.h5"}))
    scripts = []
    for (v, batch, cm, fbs, zones, j), r in zip(todo, drv.run([[J("create", **t[-1])] for t in todo])):
        a = answer(r[0])
        res = a["steps"][0]["result"]
        what = f"model created with the rules of {v}, azimuth {cm.azimuth}, batch size {batch}"
        ctx.transitions += 1
        ctx.traces += 1
        replay = {"configuration": text(j["configs"]["m.cfg"]), "result": res}
        if res != "OK":
            ctx.violation(f"created {v}", f"{what}: creation fails with {res}", replay)
            continue
        aux = json.loads(a["dump"]["/"]["attrs"]["auxiliary"])
        want = {"fault_block_ids": dict({f: i for i, f in enumerate(fbs) if f}, **{"": NODATA}), "zone_ids": dict({f: i for i, f in enumerate(zones) if f}, **{"": NODATA})}
        if aux != want:
            ctx.violation(f"ids {v}", f"{what}: ids of fault blocks and zones are {aux} instead of {want}", replay)
            continue
        ref = None
        q = [T("q.new", "q"), T("q.init", "q", MODEL_CRS, *L([j["dir"] + "/model.h5"]), *L(cm.values[:5]))]
        exp = []
        for b in cm.blocks:
            h = np.array(a["dump"]["blocks/" + b.name]["data"]).reshape(b.dims() + (7,))
            xs, ys, zs = b.x.nodes(), b.y.nodes(), b.zlogical()
            for i in np.ndindex(*b.dims()) if ref is None else ():
                ctx.transitions += 1
                zone, fb = zones[i[0]], fbs[i[1]]
                (x, y), z = cm.world(xs[i[0]], ys[i[1]]), zs[i[2]]
                if any(abs(side(rr, x, y)) < 1.0 for rr in refs.values()):
                    continue
                name, w = expected(refs, v, fb, zone, x, y, -z)
                w = w + [want["fault_block_ids"][fb], want["zone_ids"][zone]]
                if not all(abs(g - u) <= 3e-6 * abs(u) + (1e-3 if abs(u) < 1e19 else 0.0) for g, u in zip(h[i], w)):
                    ref = f"fault block '{fb}', zone '{zone}', point ({x}, {y}, {z}): stored {list(h[i])} instead of {w} ({name})"
                    break
                if i[2] == 6 and 0 < i[0] < len(zones) - 1 and 0 < i[1] < len(fbs) - 1:
                    exp.append((i, w))
                    q.append(T("q.query", "q", x, y, z))
        if ref:
            ctx.violation(f"created {v}", f"{what}: {ref}", replay)
            continue
        scripts.append((what, j, q, exp))
    for (what, j, q, exp), ans in zip(scripts, cpp.run([s[2] for s in scripts])):
        for cmd, a, (i, w) in zip(q[2:], ans[2:], exp):
            ctx.transitions += 1
            if NODATA in w[:5]:
                continue
            # positions of the grid in the file's coordinate system round to within 1e-9 of a node
            if not a.ok or int(a[1]) != 0 or any(not close(float(g), u, 1e-5, 1e-2) for g, u in zip(a[2:], w[:5])):
                ctx.violation("query of created model", f"{what}: query gives {list(a)} instead of {w[:5]}", {"script": [q[0], q[1], cmd], "files": [j["dir"] + "/model.h5"]})
                break
    ctx.notes["created"] = f"{len(todo)} models"


def check(ctx):
    drv = creator(ctx)
    cpp = Drv(ctx.paths["driver"])
    refs = reference_points()
    direct(ctx, drv, refs)
    created(ctx, drv, cpp, refs)
    ctx.assumptions += ["the EarthVision programs are replaced by stand-ins that name the fault block and zone of every point",
                        "positions closer than 0.2 m to a dividing line are not judged (the rules hold the reference points to 0.1 m)"]
