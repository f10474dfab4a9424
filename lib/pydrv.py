#!/usr/bin/python3
"""Speaks the driver's line protocol (commands q.*, m.*, echo) through the Python interface of the library."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ["GMG_STAGE"])
import numpy as np  # noqa: E402
import geomodelgrids as G  # noqa: E402


def unesc(s):
    if "\\" not in s:
        return s
    out, i = [], 0
    while i < len(s):
        if s[i] == "\\" and i + 1 < len(s):
            i += 1
            out.append({"n": "\n", "t": "\t", "r": "\r"}.get(s[i], s[i]))
        else:
            out.append(s[i])
        i += 1
    return "".join(out)


def esc(s):
    return s.replace("\\", "\\\\").replace("\n", "\\n").replace("\t", "\\t").replace("\r", "\\r")


def lst(a, i):
    n = int(a[i])
    return [unesc(x) for x in a[i + 1:i + 1 + n]], i + 1 + n


def fmt(v):
    return "%.17g" % v


SQ = {"none": "SQUASH_NONE", "top": "SQUASH_TOP_SURFACE", "topo": "SQUASH_TOPOGRAPHY_BATHYMETRY"}
FORMS = {
    "plain": lambda p: np.array(p, dtype=np.float64), "list": lambda p: p, "fortran": lambda p: np.asfortranarray(np.array(p, dtype=np.float64)),
    "strided": lambda p: np.repeat(np.repeat(np.array(p, dtype=np.float64), 2, axis=0), 3, axis=1)[::2, ::3], "reversed": lambda p: np.array(p, dtype=np.float64)[::-1][::-1],
    "f4": lambda p: np.array(p, dtype=np.float32), "int": lambda p: np.array(p, dtype=np.int64), "big": lambda p: np.array(p, dtype=">f8"),
    "readonly": lambda p: (lambda a: (a.setflags(write=False), a)[1])(np.array(p, dtype=np.float64)), "tuple": lambda p: tuple(tuple(x) for x in p), "int32": lambda p: np.array(p, dtype=np.int32),
    "1d": lambda p: np.array(p, dtype=float).ravel(), "3d": lambda p: np.array(p, dtype=float)[None], "wide": lambda p: np.hstack([np.array(p, dtype=float)] * 2), "narrow": lambda p: np.array(p, dtype=float)[:, :-1],
    "0d": lambda p: np.array(3.0), "transposed": lambda p: np.array([p[0]] * 7, dtype=float).T, "text": lambda p: "no points", "none": lambda p: None,
}
objs = {}


def do(a):
    c, i = a[0], a[1] if len(a) > 1 else ""
    o = objs.get(i)
    if c == "q.new":
        objs[i] = G.Query()
        return []
    if c == "m.new":
        objs[i] = G.Model()
        return []
    if c in ("q.del", "m.del"):
        objs.pop(i)
        return []
    if c == "q.init":
        m, k = lst(a, 3)
        v, k = lst(a, k)
        o.initialize(models=m, values=v, input_crs=unesc(a[2]))
        return []
    if c == "q.query":
        v, e = o.query(np.array([[float(x) for x in a[2:5]]]))
        assert v.ndim == 2 and v.shape[0] == 1 and e.shape == (1,)
        return [int(e[0])] + [fmt(x) for x in v[0]]
    if c in ("q.top", "q.topo", "m.top", "m.topo"):
        f = o.query_top_elevation if c.endswith("top") else o.query_topobathy_elevation
        v = f(np.array([[float(x) for x in a[2:4]]]))
        assert v.shape == (1,)
        return [fmt(v[0])]
    if c in ("q.many", "m.many"):  # id what form n coordinates...
        nd = 2 if a[2] in ("top", "topo") else 3
        n = int(a[4])
        pts = [[float(x) for x in a[5 + nd * k:5 + nd * k + nd]] for k in range(n)]
        P = FORMS[a[3]](pts) if n else np.zeros((0, nd))
        f = {"query": o.query, "top": o.query_top_elevation, "topo": o.query_topobathy_elevation, "contains": getattr(o, "contains", None)}[a[2]]
        before = P.copy() if isinstance(P, np.ndarray) else None
        r = f(points=P)
        if before is not None and not np.array_equal(before, P):
            return ["INPUT CHANGED"]
        if isinstance(r, tuple):
            return [str(r[0].shape), str(r[1].shape)] + [x for k in range(len(r[1])) for x in [int(r[1][k])] + [fmt(y) for y in r[0][k]]]
        return [str(r.shape)] + [fmt(y) for y in np.asarray(r).ravel()]
    if c == "q.minelev":
        o.set_squash_min_elev(float(a[2]))
        return []
    if c == "q.squash":
        o.set_squashing(getattr(G.Query, SQ[a[2]]))
        return []
    if c == "q.final":
        o.finalize()
        return []
    if c == "q.err":
        return [int(o.get_error_handler().get_status())]
    if c == "q.reset":
        o.get_error_handler().reset_status()
        return []
    if c == "m.crs":
        o.set_input_crs(unesc(a[2]))
        return []
    if c == "m.open":
        o.open(unesc(a[2]), G.Model.READ)
        return []
    if c == "m.load":
        o.load_metadata()
        return []
    if c == "m.init":
        o.initialize()
        return []
    if c == "m.close":
        o.close()
        return []
    if c == "m.contains":
        r = o.contains(np.array([[float(x) for x in a[2:5]]]))
        assert r.shape == (1,)
        return [int(r[0])]
    if c == "m.query":
        r = o.query(np.array([[float(x) for x in a[2:5]]]))
        return [r.shape[1]] + [fmt(x) for x in r[0]]
    if c == "m.meta":
        return [len(o.value_names)] + list(o.value_names) + [len(o.value_units)] + list(o.value_units) + [int(o.data_layout)] + [3] + [fmt(x) for x in o.dims] + \
            [2] + [fmt(x) for x in o.origin] + [fmt(o.y_azimuth), o.crs]
    if c == "m.info":
        n = o.get_info()
        if n is None:
            return ["<noinfo>"]
        r = []
        for k in ["title", "id", "description", "keywords", "history", "comment", "creator_name", "creator_institution", "creator_email", "acknowledgement", "authors", "references",
                  "repository_name", "repository_url", "repository_doi", "version", "license", "auxiliary"]:
            v = getattr(n, k)
            r += [len(v)] + list(v) if isinstance(v, list) else [v]
        return r
    if c == "echo":
        return a[1:]
    sys.stderr.write(f"DRIVER: unknown command {c!r}\n")
    os._exit(97)


def main():
    fd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(fd, "w", encoding="utf-8", errors="surrogateescape")
    for line in sys.stdin.buffer.read().decode("utf-8", "surrogateescape").split("\n"):
        if not line:
            continue
        a = line.split("\t")
        if a[0] == "#":
            objs.clear()
            r = ["OK"]
        else:
            try:
                r = ["OK"] + [esc(str(x)) for x in do(a)]
            except Exception as e:
                r = ["EXC", type(e).__name__, esc(str(e))]
        out.write("\t".join(r) + "\n")
        out.flush()


main()
