"""C26: command lines are fully honoured or refused.

Command lines of every program are enumerated (subsets, orders, repetitions and forms of the options, values of a small
grammar) and run through the real main functions.  The meaning of a command line is the set of options it gives (the last
occurrence decides); command lines with the same meaning must do the same, those that are complete must do what the library
does for these arguments, all others must be refused without touching anything."""
import hashlib
import itertools
import re

from apps import *

SENTINEL = "left over from an earlier run\n" * 400


class Tool:
    def __init__(self, name, required, optional, accumulate=(), defaults=None, same=()):
        """required/optional: {option: (value, other value)}, value None: a flag."""
        self.name, self.required, self.optional, self.accumulate, self.defaults, self.same = name, required, optional, accumulate, defaults or {}, same
        self.options = {**required, **optional}
        self.ref = {}

    def base(self, skip=(), **over):
        """Required options (in order) and all optional ones."""
        return [(o, over.get(o.replace("-", "_"), v[0] if v else None)) for o, v in self.options.items() if o not in skip]

    def meaning(self, cmd):
        m = {}
        for o, v in cmd:
            m[o] = m.get(o, ()) + (v,) if o in self.accumulate else v
        return m

    def complete(self, m):
        return all(o in m for o in self.required)

    def canonical(self, m):
        out = []
        for o in self.options:
            if o in m:
                out += [(o, v) for v in (m[o] if o in self.accumulate else (m[o],))]
        return out


def argv(cmd, form=None):
    """Arguments of a command; form: for each option, '=' or ' '."""
    out = []
    for k, (o, v) in enumerate(cmd):
        if o is None:
            out.append(v)
        elif v is None:
            out.append(f"--{o}")
        elif form and form[k] == " ":
            out += [f"--{o}", v]
        else:
            out.append(f"--{o}={v}")
    return out


class Bench:
    """Runs command lines of one tool and compares them."""
    def __init__(self, ctx, tool, drv):
        self.ctx, self.tool, self.drv, self.n = ctx, tool, drv, 0
        self.seen = set()

    def raw(self, cmds):
        """[(args, tag)] -> [(rc, stdout, stderr, output, log)]"""
        scripts, paths = [], []
        for args in cmds:
            self.n += 1
            p = {x: str(self.ctx.work / f"{self.tool.name}{self.n}.{x}") for x in ("stdout", "stderr", "OUT", "OUTB", "LOG", "LOGB")}
            for x in ("OUT", "OUTB"):
                open(p[x], "w").write(SENTINEL)

            def sub(a):
                for x in ("OUTB", "OUT", "LOGB", "LOG"):
                    a = a.replace("{" + x + "}", p[x])
                return a
            sargs = [sub(a) for a in args]
            scripts.append([T("app", self.tool.name, p["stdout"], p["stderr"], *L(sargs))])
            paths.append((p, sargs))
        res = []
        for (p, sargs), r in zip(paths, self.drv.run(scripts)):
            a = r[-1]
            rc = int(a[1]) if a[0] == "OK" else 9999

            def rd(x):
                if not os.path.exists(p[x]):
                    return None
                b = open(p[x], "rb").read()
                os.unlink(p[x])
                if b == SENTINEL.encode():
                    return "untouched"
                if b[:4] in (b"II*\0", b"MM\0*"):
                    return "tiff " + hashlib.sha1(b).hexdigest()
                return b.decode("utf-8", "replace")
            got = {x: rd(x) for x in p}
            for x in ("OUT", "OUTB"):
                t = got[x]
                if t and t.startswith("# geomodelgrids_"):
                    head, rest = t.split("\n", 1)
                    for k in p:
                        rest = rest.replace(p[k], "{" + k + "}")
                    # the header gives the command line
                    if head[2:] != " ".join(["geomodelgrids_" + self.tool.name] + sargs):
                        rest = f"[header {head!r}]\n" + rest
                    got[x] = rest
            res.append((rc, got["stdout"].replace(p["OUT"], "{OUT}"), got["stderr"], (got["OUT"], got["OUTB"]), (got["LOG"], got["LOGB"])))
        return res

    def run(self, items):
        """items: (command, form, expected: None (by meaning) or 'refused' or 'help' or ('as', meaning), tag)"""
        ctx, tool = self.ctx, self.tool
        uniq, want = [], []
        for cmd, form, exp, tag in items:
            key = tuple(argv(cmd, form))
            if key in self.seen:
                continue
            self.seen.add(key)
            m = tool.meaning([c for c in cmd if c[0] is not None])
            if exp is None:
                exp = "help" if "help" in m or not cmd or (tool.name == "info" and not set(m) - {"models"}) else ("refused" if not tool.complete(m) else ("as", m))
            uniq.append((list(key), tag))
            want.append(exp)
        # references
        need = {}
        for e in want:
            if isinstance(e, tuple):
                k = tuple(argv(tool.canonical(e[1])))
                if k not in tool.ref:
                    need[k] = e[1]
        for (k, m), r in zip(need.items(), self.raw([list(k) for k in need])):
            tool.ref[k] = r
            ctx.state((tool.name, k))
            ctx.traces += 1
            if r[0] != 0 and not (tool.name == "borehole" and r[1]):
                ctx.violation(f"{tool.name} reference {k}", f"geomodelgrids_{tool.name} {' '.join(k)}: exit status {r[0]}, {r[2][-200:]!r}", self.replay(list(k)))
        for (args, tag), e, r in zip(uniq, want, self.raw([a for a, _ in uniq])):
            ctx.transitions += 1
            ctx.traces += 1
            rc, so, se, out, log = r
            bad = None
            if e == "help":
                if rc != 0 or "Usage" not in so or f"geomodelgrids_{tool.name}" not in so:
                    bad = f"help is not printed: exit status {rc}, {so[:80]!r} {se[:80]!r}"
                elif any(f"--{o}" not in so for o in tool.options if o != "help"):
                    bad = "help does not list the options " + str([o for o in tool.options if f"--{o}" not in so])
                elif out != ("untouched",) * 2 or log != (None, None):
                    bad = "printing help writes files"
            elif e == "refused":
                if rc == 0 or rc > 255 or rc in (96, 99):
                    bad = f"exit status {rc}, expected to be refused"
                elif not (so + se).strip():
                    bad = "refused without a message"
                elif out != ("untouched",) * 2 or log != (None, None):
                    bad = f"refused, but files are written: {[str(x)[:60] for x in out + log]}"
            else:
                ref = tool.ref[tuple(argv(tool.canonical(e[1])))]
                if (rc, so, out, log) != (ref[0], ref[1], ref[3], ref[4]):
                    bad = f"differs from {' '.join(argv(tool.canonical(e[1])))}: {diff((rc, so) + out + log, (ref[0], ref[1]) + ref[3] + ref[4])}"
            if bad:
                ctx.violation(f"{tool.name} {tag}: {' '.join(args)}", f"geomodelgrids_{tool.name} {' '.join(args)} ({tag}): {bad}", self.replay(args))

    def replay(self, args):
        return {"script": [T("app", self.tool.name, "/dev/null", "/dev/stderr", *L(args))], "files": []}


def diff(a, b):
    for n, x, y in zip(("exit status", "stdout", "output", "other output", "log", "other log"), a, b):
        if x != y:
            if isinstance(x, str) and isinstance(y, str):
                for u, v in zip(x.split("\n"), y.split("\n")):
                    if u != v:
                        return f"{n}: {u[:160]!r} instead of {v[:160]!r}"
            return f"{n}: {str(x)[:160]!r} instead of {str(y)[:160]!r}"
    return "?"


# ---------------------------------------------------------------------------------------------- enumeration
def enumerate_tool(ctx, bench):
    t, quick = bench.tool, ctx.quick
    opts = list(t.options)
    base = t.base()
    small = [(o, t.options[o][0]) for o in t.required]
    items = []
    add = lambda cmd, tag, exp=None, form=None: items.append((list(cmd), form, exp, tag))  # noqa: E731

    # subsets: all of them, in the order of the table and reversed
    lean = quick and len(opts) > 9
    full = not quick or len(opts) <= 9
    for k in range(len(opts) + 1):
        for s in itertools.combinations(base, k):
            if full or len(s) <= 2 or len(s) >= len(base) - 2 or all(o in dict(s) for o in t.required) and len(s) <= len(t.required) + 1:
                add(s, "subset")
                if len(s) > 2 and (not quick or len(opts) <= 7):
                    add(s[::-1], "subset, reversed")
    # values: every pair of options with every pair of values, alone and with all other options
    for a, b in itertools.combinations(opts, 2):
        for va, vb in itertools.product(t.options[a] or (None,), t.options[b] or (None,)):
            for rest in (base,) if quick else (small, base):
                add([c for c in rest if c[0] not in (a, b)] + [(a, va), (b, vb)], "values")
    for a in opts:
        for v in t.options[a] or ():
            add([c for c in small if c[0] != a] + [(a, v)], "value")
    # orders
    depth = 2 if quick else 3
    for k in range(1, depth + 1):
        for s in itertools.permutations(base, k):
            rest = [c for c in base if c not in s]
            add(list(s) + rest, "order")
            if not lean:
                add(rest + list(s), "order")
            if k < 3:
                add([c for c in rest if c[0] in t.required] + list(s), "order")
    for s in itertools.permutations(small):
        if lean and [small.index(c) for c in s][0] != len(small) - 1:
            continue
        add(s, "order")
        add(list(s) + [c for c in base if c not in s], "order")
    flags = [c for c in base if c[0] not in t.required]
    if not quick and len(base) <= 8:
        for s in itertools.permutations(base):
            add(s, "order")
    # repetitions: the last occurrence decides (or, for options that accumulate, all count)
    for a in opts:
        if not t.options[a]:
            add(base + [(a, None)], "repeated")
            continue
        va, wa = t.options[a]
        for i in range(0, len(base) + 1, 4 if lean else 2 if quick else 1):
            for x, y in ((va, wa), (wa, va), (va, va)):
                cmd = [c for c in base if c[0] != a]
                add(cmd[:i] + [(a, x)] + cmd[i:] + [(a, y)], "repeated")
                add([(a, x)] + cmd[:i] + [(a, y)] + cmd[i:], "repeated")
        if not quick:
            for seq in itertools.product((va, wa), repeat=3):
                add([c for c in base if c[0] != a] + [(a, x) for x in seq], "repeated")
    for a, b in itertools.combinations([o for o in opts if t.options[o]], 2):
        toks = [(a, t.options[a][0]), (a, t.options[a][1]), (b, t.options[b][0]), (b, t.options[b][1])]
        for s in (itertools.permutations(toks) if not quick or len(opts) <= 7 else (toks, toks[::-1], [toks[2], toks[1], toks[0], toks[3]], [toks[1], toks[3], toks[0], toks[2]])):
            add([c for c in small if c[0] not in (a, b)] + list(s), "repeated")
    # forms
    for cmd in (base, small):
        n = [k for k, c in enumerate(cmd) if c[1] is not None]
        for form in itertools.product("= ", repeat=len(n)):
            if quick and len(n) > 6 and 2 < form.count(" ") < len(n) - 1:
                continue
            f = ["="] * len(cmd)
            for k, x in zip(n, form):
                f[k] = x
            add(cmd, "form", None, f)
    # help at every place, of complete and incomplete command lines
    for cmd in [base, small, base[:1], base[1:], base[:-1], flags] + [[c] for c in base] + [[x for x in small if x != c] for c in small]:
        for i in range(len(cmd) + 1):
            add(cmd[:i] + [("help", None)] + cmd[i:], "help")
    add([("help", None), ("help", None)], "help")
    # arguments that are not options, unknown options, options without their value
    for i in range(len(base) + 1):
        for word in ("extra", "--bogus", "--bogus=1", "-X", "", "model.h5", "--no-" + opts[-1], "---" + opts[0]):
            add(base[:i] + [(None, word)] + base[i:], f"unexpected {word!r}", "refused")
        if i <= len(small):
            for word in ("extra", "--bogus", ""):
                add(small[:i] + [(None, word)] + small[i:], f"unexpected {word!r}", "refused")
    add(base + [(None, "--"), (None, "extra")], "unexpected after --", "refused")
    for o in opts:
        if t.options[o]:
            rest = [c for c in base if c[0] != o]
            add(rest + [(None, "--" + o)], f"no value for {o}", "refused")
            add([c for c in small if c[0] != o] + [(None, "--" + o)], f"no value for {o}", "refused")
            if o in t.required:
                add(rest + [(o, "")], f"empty value of {o}", "refused")
        else:
            for i in (0, len(base)):
                add(base[:i] + [(None, f"--{o}=1")] + base[i:], f"value of flag {o}", "refused")
    # defaults as documented
    for o, v in t.defaults.items():
        for rest in (small, base):
            rest = [c for c in rest if c[0] != o]
            add(rest + [(o, v)], f"default of {o}", ("as", t.meaning(rest)))
    for cmd, as_, tag in t.same:
        add(cmd, tag, ("as", t.meaning(as_)))
    bench.run(items)
    ctx.notes[t.name] = f"{len(bench.seen)} command lines, {len(t.ref)} meanings"


NUMBER = re.compile(r"[ \t]*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?[ \t]*")


def number_strings(n, alphabet="015.-+ex, "):
    out = [""]
    for k in range(1, n + 1):
        out += ["".join(c) for c in itertools.product(alphabet, repeat=k)]
    out += ["nan", "inf", "-inf", "NaN", "1.0.0", "1.5abc", "abc", "1,5", "1e", "1e+", "--1", "+-1", "1_000", "1e400", "-1e400", "1.0f", "1 0", "0.5m", "½", "5e0", "+5.0E+0", "1,", ",1", "5.0e-1"]
    return list(dict.fromkeys(out))


def judge_number(s):
    """The number, None if malformed, 'either' if not judged."""
    if re.match(r"[ \t]*[+-]?0[xX]", s):
        return "either"
    if not NUMBER.fullmatch(s):
        return None
    v = float(s)
    return v if np.isfinite(v) else None


def numbers(ctx, bench, option, ok, over=(), n=None, typ=float, wrap=lambda s: s):
    """Every string of the grammar as the value of a numeric option; ok(v): the value is allowed."""
    t = bench.tool
    items = []
    rest = [(o, v) for o, v in ({**{o: t.options[o][0] for o in t.required}, **dict(over)}).items() if o != option]
    for s in number_strings(n or (2 if ctx.quick else 3)):
        v = judge_number(s)
        if v == "either" or (v is not None and abs(v) > 1e6) or (wrap("") and wrap(s).endswith(",")):
            continue
        good = v is not None and ok(v)
        if good and not isinstance(ok(v), bool):
            continue
        exp = ("as", t.meaning(rest + [(option, wrap(repr(typ(v))))])) if good else "refused"
        items.append((rest + [(option, wrap(s))], None, exp, f"value of {option}"))
    bench.run(items)


def malformed(ctx, bench, option, values, over=()):
    t = bench.tool
    rest = [(o, v) for o, v in ({**{o: t.options[o][0] for o in t.required}, **dict(over)}).items() if o != option]
    items = []
    for v in values:
        items.append((rest + [(option, v)], None, "refused", f"value of {option}"))
        items.append(([(option, v)] + rest, None, "refused", f"value of {option}"))
    bench.run(items)


def edits(words, allow=()):
    """Words that differ from the given ones by one character or case."""
    out = set()
    for w in words:
        out |= {w[:i] + w[i + 1:] for i in range(len(w))} | {w[:i] + "x" + w[i:] for i in range(len(w) + 1)} | {w.upper(), w.capitalize(), " " + w, w + " ", w + ",", w.replace("_", "-"), w.replace("_", "")}
    return sorted(out - set(words) - set(allow) | {"surface", "0", "1", "true"})


# ---------------------------------------------------------------------------------------------- the tools
X0, Y0 = 500000.0, 4000000.0
LOCAL = "+proj=tmerc +lat_0=0 +lon_0=-117 +k=0.9996 +x_0=0 +y_0=-4000000 +datum=WGS84 +units=m +no_defs"  # coordinates relative to (X0, Y0)


def models(w):
    """Overlapping models around (500000, 4000000) of EPSG:32611, with different values and surfaces."""
    rng = np.random.default_rng(26)
    d = lambda *s: rng.integers(0, 4000, size=s).astype(float) / 8  # noqa: E731

    def one(name, crs, x, y, size, k):
        s = SurfSpec(Axis(2, size), Axis(2, size), d(2, 2) / 50 + k)
        g = SurfSpec(Axis(2, size), Axis(2, size), d(2, 2) / 50 - 12 + k)
        sp = ModelSpec((size, size, 12000.0), [BlockSpec("up", Axis(3, size / 2), Axis(2, size), Axis(4, 50.0), 0.0, d(3, 2, 4, 2)), BlockSpec("low", Axis(2, size), Axis(2, size), Axis(2, 11850.0), -150.0, d(2, 2, 2, 2))], top=s, topo=g, origin=(x, y), crs=crs)
        return sp.write(str(w / name))
    C = "EPSG:32611"
    return one("A.h5", C, X0 - 100.0, Y0 - 100.0, 200.0, 20), one("B.h5", C, X0 - 20.0, Y0 - 150.0, 400.0, 60)


def query_tools(w, a, b):
    P = [(10.0, 20.0, -30.0), (-50.0, 60.0, -200.0), (90.0, 10.0, -7000.0), (250.0, 100.0, -20.0), (5000.0, 0.0, 0.0), (-20.0, -30.0, 3.0), (36.1448, -116.9999, -25.0), (0.2, 0.3, -15.0)]
    P = [(X0 + x, Y0 + y, z) if k < 4 else (x, y, z) for k, (x, y, z) in enumerate(P)]
    R = P[2:5] + [(X0 + 40.0, Y0 - 80.0, -90.0)] + P[5:]
    files = {}
    for nm, pts in (("p", P), ("r", R)):
        files[nm] = str(w / f"{nm}.txt"), str(w / f"{nm}2.txt")
        open(files[nm][0], "w").write("\n".join(" ".join(map(repr, p)) for p in pts) + "\n")
        open(files[nm][1], "w").write("\n".join(" ".join(map(repr, p[:2])) for p in pts) + "\n")
    points = {files["p"][0]: P, files["r"][0]: R, files["p"][1]: P, files["r"][1]: R}
    M = (f"{a},{b}", f"{b},{a}")
    CRS = ("EPSG:32611", LOCAL)
    query = Tool("query", {"values": ("one,two", "two"), "models": M, "points": (files["p"][0], files["r"][0]), "output": ("{OUT}", "{OUTB}")},
                 {"squash-surface": ("topography_bathymetry", "top_surface"), "squash-min-elev": ("-150.0", "-9000"), "points-coordsys": CRS, "log": ("{LOG}", "{LOGB}")},
                 defaults={"points-coordsys": "EPSG:4326"})
    small = [(o, v[0]) for o, v in query.required.items()] + [("points-coordsys", CRS[0])]
    S, E = "squash-surface", "squash-min-elev"
    query.same = [(small + [(S, "none")], small, "default of squash-surface"), (small + [(S, "none"), (E, "-50")], small, "no squashing"), (small + [(E, "-50"), (S, "none")], small, "no squashing"),
                  (small + [(S, "top_surface"), (S, "none")], small, "no squashing"), (small + [(E, "-150")], small + [(S, "top_surface"), (E, "-150.0")], "squash-min-elev alone"),
                  (small + [(S, "none"), (S, "top_surface")], small + [(S, "top_surface")], "squashing"), (small + [(S, "top_surface"), (E, "-10.0e+3")], small + [(S, "top_surface")], "default of squash-min-elev"),
                  (small + [(E, "-10000"), (S, "topography_bathymetry")], small + [(S, "topography_bathymetry")], "default of squash-min-elev"), (small + [(E, "-1.5e2")], small + [(S, "top_surface"), (E, "-150.0")], "squash-min-elev alone")]
    elev = Tool("queryelev", {"models": M, "points": (files["p"][1], files["r"][1]), "output": ("{OUT}", "{OUTB}")},
                {"surface": ("topography_bathymetry", "top_surface"), "points-coordsys": CRS, "log": ("{LOG}", "{LOGB}")}, defaults={"surface": "top_surface", "points-coordsys": "EPSG:4326"})
    bore = Tool("borehole", {"values": ("one,two", "two"), "models": M, "location": ("500010.5,4000020.0", "36.1448,-116.9999"), "output": ("{OUT}", "{OUTB}")},
                {"max-depth": ("200.0", "7100"), "dz": ("40.0", "700"), "points-coordsys": CRS, "log": ("{LOG}", "{LOGB}")}, defaults={"max-depth": "5.0e+3", "dz": "10", "points-coordsys": "EPSG:4326"})
    return points, query, elev, bore


def close6(x, y):
    return abs(x - y) <= 1.0e-6 * max(abs(x), abs(y)) + 1e-9


def oracle(ctx, drv, tool, points):
    """What the library answers for every meaning that was run."""
    scripts, meta = [], []
    for k, (rc, so, se, out, log) in tool.ref.items():
        m = dict(x[2:].split("=", 1) if "=" in x else (x[2:], None) for x in k)
        ms, vals, crs = m["models"].split(","), m["values"].split(",") if "values" in m else [], m.get("points-coordsys", "EPSG:4326")
        s = [T("q.new", "q"), T("q.init", "q", crs, *L(ms), *L(vals))]
        if tool.name == "query":
            mode = {"none": "none", "top_surface": "top", "topography_bathymetry": "topo"}.get(m.get("squash-surface"), "top" if "squash-min-elev" in m else "none")
            if mode != "none":
                s += [T("q.squash", "q", mode), T("q.minelev", "q", float(m.get("squash-min-elev", "-10000")))]
            q = [(p, T("q.query", "q", *p)) for p in points[m["points"]]]
        elif tool.name == "queryelev":
            q = [(p[:2], T("q.topo" if m.get("surface") == "topography_bathymetry" else "q.top", "q", *p[:2])) for p in points[m["points"]]]
        else:
            q = [((), T("q.top", "q", *map(float, m["location"].split(","))))]
        scripts.append(s + [c for _, c in q])
        meta.append((k, m, [p for p, _ in q], len(s), len(vals) or 1, rc, so, out, log))
    again = []
    for (k, m, ps, n, nv, rc, so, out, log), r in zip(meta, drv.run(scripts)):
        if tool.name == "borehole":
            top = float(r[-1][1])
            rows = None if top == NODATA else top - 1e-6 if top else 0.0
        else:
            rows = [list(p) + [float(v) for v in a[-nv:]] if a[0] == "OK" else [str(a)] for p, a in zip(ps, r[n:])]
        again.append(rows)
    if tool.name == "borehole":
        sc = []
        for (k, m, ps, n, nv, *_), top in zip(meta, again):
            dz, dd = float(m.get("dz", "10")), float(m.get("max-depth", "5000"))
            x = [float(v) for v in m["location"].split(",")]
            sc.append([T("q.new", "q"), T("q.init", "q", m.get("points-coordsys", "EPSG:4326"), *L(m["models"].split(",")), *L(m["values"].split(",")))] + ([] if top is None else [T("q.query", "q", *x, top - i * dz) for i in range(int(dd / dz + 1e-6) + 1)]))
        for i, ((k, m, ps, n, nv, *_), top, r) in enumerate(zip(meta, again, drv.run(sc))):
            dz = float(m.get("dz", "10"))
            again[i] = None if top is None else [[top - j * dz, j * dz] + [float(v) for v in a[-nv:]] if a[0] == "OK" else [str(a)] for j, a in enumerate(r[2:])]
    for (k, m, ps, n, nv, rc, so, out, log), rows in zip(meta, again):
        ctx.transitions += 1
        bad = None
        mine, other = out if m["output"] == "{OUT}" else out[::-1]
        if other != "untouched":
            bad = "another file is written"
        elif rows is None:
            bad = None if rc not in (0, 96, 99) and rc < 256 and so.strip() and mine == "untouched" else f"location outside the models: exit status {rc}, {so!r}"
        elif rc != 0 or mine in (None, "untouched"):
            bad = f"exit status {rc}, no output"
        else:
            got = [ln.split() for ln in mine.split("\n") if ln and not ln.startswith(("#", "[header"))]
            if "[header" in mine:
                bad = mine.split("\n")[0]
            elif len(got) != len(rows):
                bad = f"{len(got)} lines instead of {len(rows)}"
            for x, y in zip(got, rows) if not bad else ():
                if len(x) != len(y) or isinstance(y[0], str) or not all(close6(float(u), v) or abs(float(u) - v) < 3e-6 and tool.name == "borehole" for u, v in zip(x, y)):
                    bad = f"{x} instead of {y}"
                    break
        given = m.get("log")
        if rc == 0 and not bad and (log[0] is not None, log[1] is not None) != (given == "{LOG}", given == "{LOGB}"):
            bad = f"log file given: {given}, written: {[x is not None for x in log]}"
        if bad:
            ctx.violation(f"{tool.name} oracle {k}", f"geomodelgrids_{tool.name} {' '.join(k)}: {bad}", {"script": [T("app", tool.name, "/dev/null", "/dev/stderr", *L(k))], "files": []})


def sensitive(ctx, tool):
    """Meanings that differ in one option (its value, or whether it is given) give different results."""
    groups = {}
    for k in tool.ref:
        for x in k:
            o = x[2:].split("=")[0]
            if o not in tool.accumulate:
                groups.setdefault((o, tuple(y for y in k if y != x)), []).append(k)
    for (o, rest), ks in groups.items():
        ks = ks + ([rest] if rest in tool.ref else [])
        for p, q in itertools.combinations(ks, 2):
            default = f"--{o}={tool.defaults.get(o)}"
            if {"--depth-reference=topography_bathymetry"} == set(p) ^ set(q):
                continue  # the default
            if o == "num-search-points" and not any(y.startswith("--vres") for y in rest) or o == "models" and not any(y.startswith("--bbox-c") for y in rest):
                continue  # at a resolution finer than the grid all searches agree; one model only has coordinates in degrees
            a, b = tool.ref[p], tool.ref[q]
            ctx.transitions += 1
            if (a[1], a[3], a[4]) == (b[1], b[3], b[4]) and default not in set(p) ^ set(q):
                x = sorted(set(p) ^ set(q))
                ctx.violation(f"{tool.name} {x} with {rest}", f"geomodelgrids_{tool.name} {' '.join(rest)}: {' and '.join(x)} makes no difference", {"script": [T("app", tool.name, "/dev/null", "/dev/stderr", *L(k)) for k in (p, q)], "files": []})


# ---------------------------------------------------------------------------------------------- isosurface, info
def isosurface(ctx, drv, w):
    nod = 1201
    z = np.linspace(0, 24.0, nod)  # km

    def model(name, k, x, y, size, top, topo, crs="EPSG:32611"):
        """'one' rises through 2.8 near 2 and near 10 km, 'two' through 1.25 near 15 km."""
        d = np.zeros((2, 2, nod, 2))
        for i in range(2):
            for j in range(2):
                d[i, j, :, 0] = 2.8 + np.sin((z - 2 - 0.2 * i - k) * 2 * np.pi / 8)
                d[i, j, :, 1] = 1.25 * ((z + 0.1 * j + 0.7 * k) / 15) ** 2
        S = lambda v: SurfSpec(Axis(2, size), Axis(2, size), np.array(v, dtype=float))  # noqa: E731
        return ModelSpec((size, size, 24000.0), [BlockSpec("up", Axis(2, size), Axis(2, size), Axis(nod, 20.0), 0.0, d)], top=S(top), topo=S(topo), origin=(x, y), crs=crs).write(str(w / name))
    i1 = model("I1.h5", 0.0, X0 - 100.0, Y0 - 100.0, 200.0, [[300, 400], [350, 380]], [[-30, 40], [-60, 10]])
    i2 = model("I2.h5", 0.5, X0 - 100.0, Y0 - 100.0, 300.0, [[340, 360], [280, 220]], [[-20, 10], [-10, 0]])
    # latitude, longitude near the origin of EPSG:4326
    i3 = model("I3.h5", 0.3, -120.0, -120.0, 250.0, [[310, 320], [330, 320]], [[-20, 10], [-10, 0]], "EPSG:4326")
    t = Tool("isosurface", {"bbox": ("-40,40,-20,60", "-60,30,-30,30"), "hresolution": ("40", "20.0"), "isosurface": ("one,2.8", "two,1.25"), "max-depth": ("20000", "12000.0"), "models": (f"{i1},{i2},{i3}", f"{i3},{i2},{i1}"), "output": ("{OUT}", "{OUTB}")},
             {"bbox-coordsys": (LOCAL, "EPSG:32631"), "depth-reference": ("top_surface", "topography_bathymetry"), "num-search-points": ("20", "25"), "vresolution": ("2500", "300"), "prefer-deep": None, "log": ("{LOG}", "{LOGB}")},
             accumulate=("isosurface",), defaults={"bbox-coordsys": "EPSG:4326", "depth-reference": "topography_bathymetry", "num-search-points": "10", "vresolution": "1.0e+1"})
    bench = Bench(ctx, t, drv)
    enumerate_tool(ctx, bench)
    # several isosurfaces: every sequence, anywhere
    small = [(o, v[0]) for o, v in t.required.items() if o != "isosurface"]
    items = []
    for k in range(1, 4 if ctx.quick else 5):
        for s in itertools.product(("one,2.8", "two,1.25", "one,4"), repeat=k):
            bands = [("isosurface", x) for x in s]
            items += [(small + bands, None, None, "isosurfaces"), (bands + small, None, None, "isosurfaces"), ([c for p in itertools.zip_longest(small, bands) for c in p if c], None, None, "isosurfaces")]
    bench.run(items)
    over = {"bbox-coordsys": LOCAL}
    numbers(ctx, bench, "max-depth", lambda v: v > 0 if v <= 0 or v >= 100 else "slow", over)
    numbers(ctx, bench, "hresolution", lambda v: (v > 0 if v <= 0 or 10 <= v <= 80 else "size"), over)
    numbers(ctx, bench, "vresolution", lambda v: v > 0 if v <= 0 or v >= 1 else "slow", over)
    numbers(ctx, bench, "num-search-points", lambda v: v == int(v) and v >= 3 if v < 3 or v != int(v) or v < 100 else "slow", over, typ=int)
    numbers(ctx, bench, "isosurface", lambda v: True, over, wrap=lambda s: "one," + s)
    bx = ["-40", "40", "-20", "60"]
    bad = ["", ",", ",,,", "-40", "-40,40", "-40,40,-20", "-40,40,-20,60,80", "-40,40,-20,60,80,90", "-40 40 -20 60", "40,-40,-20,60", "-40,40,60,-20", "-40;40;-20;60", "-40,40,-20,", ",40,-20,60"]
    for i in range(4):
        for x in ("", "a", "1.0.0", "5x", "--5", "e", "nan", "inf", "1 2", "."):
            bad.append(",".join(bx[:i] + [x] + bx[i + 1:]))
    malformed(ctx, bench, "bbox", bad, over)
    malformed(ctx, bench, "isosurface", ["", ",", "one", "one,", ",1", "one,1,2", "one;1", "one 1", "1,one", "three,1", "one,x", "one,1x", "one,1.0.0", "one,nan"], over)
    malformed(ctx, bench, "depth-reference", [x for x in edits(["top_surface", "topography_bathymetry"]) + ["none", ""] if x.lower() not in ("top_surface", "topography_bathymetry")], over)
    malformed(ctx, bench, "num-search-points", ["1e10", "-3", "2.9999", "3.5", "4294967306", "-4294967290", "1e300"], over)
    malformed(ctx, bench, "bbox-coordsys", ["EPSG:999999", "garbage", "", "+proj=nothing"])
    malformed(ctx, bench, "models", [i1 + "x", f"{i1},{i2}x", f"{i1}x,{i2}", f"{i1};{i2}", str(w)], over)
    # every option makes a difference, whatever the others are
    both = [(o, v[0]) for o, v in t.required.items()] + [("isosurface", "two,1.25")]
    t2 = Tool(t.name, t.required, t.optional, t.accumulate)
    bench = Bench(ctx, t2, drv)
    items = []
    for k in range(len(t.optional) + 1):
        for s in itertools.combinations([(o, v[0] if v else None) for o, v in t.optional.items()], k):
            items.append((both + list(s), None, None, "options"))
            for j, (o, v) in enumerate(s):
                if t.optional[o] and (not ctx.quick or k in (1, 2, len(t.optional))):
                    items.append((both + list(s[:j]) + [(o, t.optional[o][1])] + list(s[j + 1:]), None, None, "options"))
            for j, (o, v) in enumerate(both[:-1]):
                if o != "isosurface" and (not ctx.quick or k in (0, 1, len(t.optional))):
                    items.append((both[:j] + [(o, t.required[o][1])] + both[j + 1:] + list(s), None, None, "options"))
    bench.run(items)
    sensitive(ctx, t2)
    ctx.notes["isosurface"] = f"{len(bench.seen)} command lines, {len(t.ref)} meanings"


def info(ctx, drv, a, b):
    t = Tool("info", {"models": (f"{a},{b}", b)}, {"description": None, "coordsys": None, "values": None, "blocks": None, "verify": None, "all": None})
    bench = Bench(ctx, t, drv)
    enumerate_tool(ctx, bench)
    # sections: each option adds its part, in a fixed order, for each model
    flags = list(t.optional)
    for ms in ([a], [b], [a, b], [b, a], [a, b, a]):
        cmds = [["--" + f for f in s] + ["--models=" + ",".join(ms)] for k in range(1, len(flags) + 1) for s in itertools.combinations(flags, k)]
        single = {(f, m): r for (f, m), r in zip(itertools.product(flags, ms), bench.raw([[f"--{f}", f"--models={m}"] for f, m in itertools.product(flags, ms)]))}
        for args, r in zip(cmds, bench.raw(cmds)):
            ctx.transitions += 1
            want = ""
            for m in ms:
                head = f"Model: {m}\n"
                want += head
                given = [x[2:] for x in args[:-1]]
                for f in ("verify", "description", "coordsys", "values", "blocks"):
                    if f in given or "all" in given:
                        want += single[(f, m)][1][len(head):]
            if r[0] != 0 or r[1] != want:
                ctx.violation(f"info parts {args}", f"geomodelgrids_info {' '.join(args)}: exit status {r[0]}, {diff((0, r[1]), (0, want))}", bench.replay(args))
    malformed(ctx, bench, "models", [a + "x", f"{a},{b}x", f"{a}x,{b}"], {"values": None})
    ctx.notes["info"] = f"{len(bench.seen)} command lines, {len(t.ref)} meanings"


# ---------------------------------------------------------------------------------------------- model creation
def creation(ctx):
    from create import Ax, Blk, CM, J, answer, creator
    from c15 import text
    drv = creator(ctx)
    U = lambda *x: Ax("u", *x)  # noqa: E731
    cm = lambda shift: CM([Blk("upper", U(4, 4.0), U(3, 6.0), U(3, 5.0), 0.0)], (U(7, 2.0), U(5, 3.0)), (U(4, 4.0), U(3, 6.0))).config(batch=6)  # noqa: E731
    old, new, other = cm(0), cm(0), cm(0)
    old["geomodelgrids"]["title"] = "Old"
    old.setdefault("probe", {})["shift"] = "100.0"
    other["geomodelgrids"]["title"] = "Other"
    files = {"old.cfg": old, "m.cfg": new, "o.cfg": other, "over.cfg": {"geomodelgrids": {"title": "Over"}}}
    S = ["import-domain", "import-surfaces", "import-blocks", "update-metadata", "all", "show-parameters"]
    jobs, meta = [], []

    def add(args, want, tag, start="old"):
        d = str(ctx.work / f"k{len(jobs)}")
        runs = ([{"argv": ["--config=old.cfg", "--all", "--log=first.log"], "dump": "model.h5"}] if start else []) + [{"argv": args}]
        jobs.append({"dir": d, "configs": files, "runs": runs, "dump": "model.h5"})
        meta.append((args, want, tag, d))
    C = "--config=m.cfg"
    for k in range(len(S) + 1):
        for s in itertools.combinations(S, k):
            want = "nothing" if "show-parameters" in s or not s else frozenset(s)
            orders = {tuple([C] + ["--" + x for x in s]), tuple(["--" + x for x in s] + [C]), tuple(["--" + x for x in s[::-1]] + [C])}
            if not ctx.quick or k <= 2:
                orders |= set(itertools.permutations([C] + ["--" + x for x in s])) if k <= (2 if ctx.quick else 4) else set()
            for o in sorted(orders):
                add(list(o), want, "subset")
    full = frozenset(["all"])
    for extra in ([], ["--quiet"], ["--debug"], ["--log=x.log"], ["--log", "x.log"], ["--quiet", "--debug", "--log=x.log"]):
        for i in range(3):
            x = [C, "--all"]
            add(x[:i] + extra + x[i:], full, "options")
    add(["--config", "m.cfg", "--all"], full, "form")
    add(["--all", "--config", "m.cfg"], full, "form")
    add(["--config=o.cfg", "--all", "--config=m.cfg"], full, "repeated")
    add(["--all", "--all", C], full, "repeated")
    for args in (["--help"], [C, "--all", "--help"], ["--help", C, "--all"], ["-h"], ["--all", "--help"]):
        add(args, "help", "help")
    for args in (["--all"], ["--all", "--config"], ["--config=", "--all"], ["--config=none.cfg", "--all"], ["--config=m.cfg,none.cfg", "--all"], [C, "--all", "extra"], [C, "extra", "--all"], ["extra", C, "--all"], [C, "--all", "--bogus"], [C, "--bogus=1", "--all"],
                 [C, "--all=1"], ["m.cfg", "--all"], [C, "--all", "--log"], ["--config=m.cfg;o.cfg", "--all"], ["--import-domain"], ["--show-parameters"]):
        add(args, "refused", "refused")
    # what the steps do, one at a time
    base = len(jobs)
    singles = {}
    for s in {m[1] for m in meta if isinstance(m[1], frozenset)}:
        seq = [x for x in ("import-domain", "import-surfaces", "import-blocks") if x in s or "all" in s] + (["update-metadata"] if "update-metadata" in s else [])
        jobs.append({"dir": str(ctx.work / f"k{len(jobs)}"), "configs": files, "runs": [{"argv": ["--config=old.cfg", "--all", "--log=first.log"]}] + [{"argv": [C, "--" + x]} for x in seq], "dump": "model.h5"})
        singles[s] = len(jobs) - 1
    res = [answer(r[0]) for r in drv.run([[J("create", **j)] for j in jobs])]
    strip = lambda d: d  # noqa: E731
    for (args, want, tag, d), a in zip(meta, res):
        ctx.transitions += 1
        ctx.traces += 1
        ctx.state(("create", tuple(args)))
        first, s = a["steps"]
        before, after = strip(first["dump"]), strip(a["dump"])
        ok = s["result"] in ("OK", "EXIT 0")
        bad = None
        if want == "refused":
            if ok:
                bad = "no error is reported"
            elif before != after:
                bad = "refused, but the model is changed"
        elif not ok:
            bad = "fails with " + s["result"]
        elif want in ("nothing", "help"):
            if before != after:
                bad = "the model is changed"
            elif want == "help" and "--import-domain" not in s["stdout"]:
                bad = f"help is not printed: {s['stdout'][:100]!r}"
            elif "--show-parameters" in args and "z_top_offset" not in s["stdout"]:
                bad = "parameters are not shown"
        else:
            ref = res[singles[want]]
            if any(x["result"] != "OK" for x in ref["steps"]):
                bad = f"a single step fails: {[x['result'] for x in ref['steps']]}"
            elif strip(ref["dump"]) != after:
                bad = "model differs from the one made by " + " then ".join(" ".join(r["argv"]) for r in jobs[singles[want]]["runs"][1:])
        if bad:
            ctx.violation(f"create_model {' '.join(args)}", f"geomodelgrids_create_model {' '.join(args)} ({tag}): {bad}", {"argv": args, "configuration": text(new), "result": s["result"]})
    n = {frozenset([k]): v for k, v in singles.items()}
    dumps = {k: str(res[v]["dump"]) for k, v in singles.items()}
    for x, y in ((("import-domain",), ("import-surfaces",)), (("import-surfaces",), ("import-blocks",)), (("import-blocks",), ("update-metadata",)), (("all",), ("import-surfaces",)), (("all",), ("import-blocks",)), (("all",), ("update-metadata",))):
        if dumps[frozenset(x)] == dumps[frozenset(y)]:
            ctx.violation(f"create_model {x} {y}", f"geomodelgrids_create_model: {x} and {y} make the same model", {})
    ctx.notes["create_model"] = f"{base} command lines, {len(n)} sets of steps"


def documented(ctx, drv):
    """Every command line in the documentation is understood (its files do not exist here)."""
    import re
    import shlex
    from build import REPO
    seen, d = set(), ctx.work / "documented"
    d.mkdir()
    for f in sorted((REPO / "docs").rglob("*.md")):
        for ln in re.sub(r"\\\s*\n", " ", f.read_text()).split("\n"):
            m = re.match(r"\s*\$?\s*(?:\./)?geomodelgrids_(query|queryelev|borehole|isosurface|info)((?:\s+--[a-z]\S*)+)", ln)
            if m:
                seen.add((f.name, m[1], tuple(re.sub(r"^(--output|--log)=", rf"\1={d}/", x) for x in shlex.split(m[2]))))
    jobs = sorted(seen)
    scripts = [[T("app", name, str(d / f"o{i}"), str(d / f"e{i}"), *L(args)), T("x.read", str(d / f"o{i}")), T("x.read", str(d / f"e{i}"))] for i, (_, name, args) in enumerate(jobs)]
    for (f, name, args), s, r in zip(jobs, scripts, drv.run(scripts)):
        ctx.transitions += 1
        ctx.state(("documented", name, args))
        said = " ".join(list(r[1][1:]) + list(r[2][1:]))
        if not r[0].ok or any(x in said for x in ("unrecognized", "requires an argument", "ambiguous", "Unknown option", "invalid option")):
            ctx.violation(f"documented {f} {args}", f"geomodelgrids_{name} {' '.join(args)}, as in {f}, is not understood: {list(r[0])} {said[:200]}", {"script": s})
    if not jobs:
        raise RuntimeError("no command lines in the documentation")
    ctx.notes["documented"] = f"{len(jobs)} command lines"


def check(ctx):
    drv = ctx.driver()
    fast = Drv(_exe(ctx, "driver-fast"))
    ctx.drvs = [drv, fast]
    w = ctx.work
    a, b = models(w)
    points, query, elev, bore = query_tools(w, a, b)
    num = lambda v: True  # noqa: E731
    for tool in (query, elev, bore):
        C = {"points-coordsys": LOCAL, **({"location": "10.5,20.0"} if tool is bore else {})}
        bench = Bench(ctx, tool, fast)
        enumerate_tool(ctx, bench)
        malformed(ctx, bench, "models", [a + "x", f"{a},{b}x", f"{a}x,{b}", f"{a};{b}", f",{a}", f"{a},,{b}", str(w)], C)
        malformed(ctx, bench, "points-coordsys", ["EPSG:999999", "garbage", "EPSG", "+proj=nothing", "3311"])
        if tool is query:
            numbers(ctx, bench, "squash-min-elev", lambda v: True if v < 0 else "surface", C)
            malformed(ctx, bench, "squash-surface", edits(["none", "top_surface", "topography_bathymetry"]) + [""], C)
        if tool is elev:
            malformed(ctx, bench, "surface", edits(["top_surface", "topography_bathymetry"]) + ["none", ""], C)
        if tool is bore:
            numbers(ctx, bench, "max-depth", lambda v: v >= 0, {**C, "dz": "3000"})
            numbers(ctx, bench, "dz", lambda v: v > 0 if v <= 0 or v > 1e-3 else "slow", {**C, "max-depth": "3.0"})
            numbers(ctx, bench, "location", num, C, wrap=lambda s: "5," + s)
            numbers(ctx, bench, "location", num, C, wrap=lambda s: s + ",-5")
            malformed(ctx, bench, "location", ["", ",", "5", "5,", ",5", "5,5,5", "5;5", "5 5", "5,,5", "5,5,5,5", "5,x", "x,5", "5,5x", "(5,5)", "5,1.0.0", "nan,5", "5,inf"], C)
        if tool is not elev:
            malformed(ctx, bench, "values", ["", ",", ",one", "one,,two", "three", "one,three", "one two", "one;two", "one, two"], C)
        malformed(ctx, bench, "output", [str(w / "nodir" / "x"), str(w)], C)
        if tool is not bore:
            malformed(ctx, bench, "points", [str(w / "nothere.txt")], C)
        oracle(ctx, drv, tool, points)
        ctx.notes[tool.name] = f"{len(bench.seen)} command lines, {len(tool.ref)} meanings"
    isosurface(ctx, fast, w)
    info(ctx, fast, a, b)
    # a part of the command lines with the instrumented build
    for tool in (query, elev, bore):
        t2 = Tool(tool.name, tool.required, tool.optional)
        bench = Bench(ctx, t2, drv)
        base = t2.base()
        bench.run([(base[:i] + base[i + 1:], None, None, "one missing") for i in range(len(base))] + [(base[::-1], None, None, "reversed"), ([("help", None)], None, None, "help"), ([], None, None, "nothing"), (base + [(None, "x")], None, "refused", "extra")])
    documented(ctx, drv)
    creation(ctx)
    ctx.sample("--values=one,two --models=A.h5,B.h5 --points=p.txt --output=OUT --squash-min-elev=-150.0 --squash-surface=none")
    ctx.notes.update(driver_commands=sum(d.commands for d in ctx.drvs), rule="states = meanings of command lines (options and their values); transitions = command lines")


def _exe(ctx, name):
    return ctx.build("driver", "driver-fast")[name]
