"""Family of configurations for the creation tools and the positions, values and metadata they imply."""
import itertools
import json
import math
import os
import sys

import numpy as np

from gmg import *

sys.dont_write_bytecode = True
NODATA = -1.0e+20
DIRTEXT = "probe.ProbeSrc"


def creator(ctx):
    ctx.build("python", "driver")
    return Drv(str(VERIF / "lib" / "creator.py"), env={"GMG_STAGE": ctx.paths["stage"], "PYTHONPATH": str(VERIF / "lib" / "fake"), "LD_PRELOAD": "", "OMP_NUM_THREADS": "1", "OPENBLAS_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"})


def J(kind, **job):
    return T(kind, json.dumps(job))


def answer(r):
    if r[0] != "OK":
        raise RuntimeError(str(r))
    return json.loads(r[1])


class Ax:
    """Uniform ('u', n, res) or variable ('v', coordinates as listed in the configuration)."""

    def __init__(self, kind, *a):
        self.kind = kind
        if kind == "u":
            self.n, self.res = a
            self.coords = None
        else:
            self.listed = list(a[0])
            self.n = len(self.listed)

    def nodes(self):
        return np.arange(self.n) * self.res if self.kind == "u" else np.array(sorted(self.listed), dtype=float)

    def span(self):
        return float(self.nodes()[-1])

    def conf(self, axis):
        return {f"{axis}_resolution": repr(self.res)} if self.kind == "u" else {f"{axis}_coordinates": "[" + ", ".join(map(repr, self.listed)) + "]"}

    def attrs(self, axis, reverse=False):
        return {f"{axis}_resolution": float(self.res)} if self.kind == "u" else {f"{axis}_coordinates": sorted(map(float, self.listed), reverse=reverse)}

    def __repr__(self):
        return f"{self.n} at {self.res}" if self.kind == "u" else str(self.listed)


class Blk:
    def __init__(self, name, x, y, z, z_top=None, off=0.0):
        """z variable: elevations."""
        self.name, self.x, self.y, self.z, self.off = name, x, y, z, off
        self.z_top = z_top if z.kind == "u" else max(z.listed)

    def zlogical(self):
        return self.z_top - np.arange(self.z.n) * self.z.res if self.z.kind == "u" else np.array(sorted(self.z.listed, reverse=True), dtype=float)

    def dims(self):
        return (self.x.n, self.y.n, self.z.n)

    def bottom(self):
        return float(self.zlogical()[-1])


BASE = {"title": "A title", "id": "model-id", "description": "Text, with = signs; and more", "keywords": "[key one, two]", "history": "First", "comment": "", "version": "1.0.1",
        "creator_name": "Jane Doe", "creator_institution": "Agency", "creator_email": "a@b.org", "acknowledgement": "Thanks", "authors": "[Doe, Jane | Smith, J.]",
        "references": "[First, A. (2020), Title | Second]", "repository_name": "repo", "repository_url": "https://somewhere.org", "repository_doi": "doi", "license": "CC0"}


class CM:
    """A configuration."""

    def __init__(self, blocks, top=None, topo=None, dim_z=None, azimuth=0.0, origin=(10.0, 20.0), crs="EPSG:3311", values=("one", "two"), units=("m", "m/s"), chunk=2, base=None, probe=None):
        self.blocks, self.top, self.topo = blocks, top, topo
        self.dim_z = dim_z if dim_z is not None else -min(b.bottom() for b in blocks)
        self.azimuth, self.origin, self.crs, self.values, self.units, self.chunk = azimuth, origin, crs, values, units, chunk
        self.top_shift = 0.0
        self.base, self.probe = dict(BASE, **(base or {})), probe
        self.dim = (blocks[0].x.span(), blocks[0].y.span())

    def config(self, filename="model.h5", batch=None, source=DIRTEXT):
        c = {"geomodelgrids": dict(self.base, filename=filename, data_source=source),
             "coordsys": {"crs": self.crs, "origin_x": repr(self.origin[0]), "origin_y": repr(self.origin[1]), "y_azimuth": repr(self.azimuth)},
             "data": {"values": "[" + ", ".join(self.values) + "]", "units": "[" + ", ".join(self.units) + "]", "layout": "vertex"},
             "domain": {"dim_x": repr(self.dim[0]), "dim_y": repr(self.dim[1]), "dim_z": repr(self.dim_z), "blocks": "[" + ", ".join(b.name for b in self.blocks) + "]"}}
        if batch:
            c["domain"]["batch_size"] = str(batch)
        for name, s in (("top_surface", self.top), ("topography_bathymetry", self.topo)):
            if s:
                c[name] = dict(s[0].conf("x"), **s[1].conf("y"), use_surface="True", chunk_size="(%d, %d, 1)" % (min(self.chunk, s[0].n), min(self.chunk, s[1].n)))
        for b in self.blocks:
            d = dict(b.x.conf("x"), **b.y.conf("y"), **b.z.conf("z"), z_top_offset=repr(b.off))
            if b.z.kind == "u":
                d.update(z_top=repr(b.z_top), z_bot=repr(b.bottom()))
            d["chunk_size"] = "(%d, %d, %d, %d)" % tuple(min(self.chunk, n) for n in b.dims() + (len(self.values),))
            c[b.name] = d
        if self.probe:
            c["probe"] = self.probe
        return c

    def world(self, xl, yl):
        a = math.radians(self.azimuth)
        return self.origin[0] + xl * math.cos(a) + yl * math.sin(a), self.origin[1] - xl * math.sin(a) + yl * math.cos(a)

    def surf_xy(self, s):
        x, y = np.meshgrid(s[0].nodes(), s[1].nodes(), indexing="ij")
        return self.world(x, y)

    def points(self, b, mirrored=False, offset=True):
        """World coordinates of the nodes of a block as handed to the data source: [nx, ny, nz, 3]."""
        import field
        xl, yl, zl = np.meshgrid(b.x.nodes(), b.y.nodes(), b.zlogical() if not mirrored else b.z_top - b.zlogical(), indexing="ij")
        x, y = self.world(xl, yl)
        if self.top:
            t = (field.top(x, y) + self.top_shift).astype(np.float32).astype(float)
            z = -self.dim_z + (t + self.dim_z) / self.dim_z * (zl + self.dim_z)
        else:
            z = zl.copy()
        if offset:
            z[:, :, 0] += b.off
        return np.stack([x, y, z], axis=-1)

    def npoints(self):
        return max([int(np.prod(b.dims())) for b in self.blocks] + [s[0].n * s[1].n for s in (self.top, self.topo) if s])

    def surf_attrs(self, s):
        return dict(s[0].attrs("x"), **s[1].attrs("y"))

    def block_attrs(self, b):
        d = dict(b.x.attrs("x"), **b.y.attrs("y"), **b.z.attrs("z", reverse=True))
        if b.z.kind == "u":
            d["z_top"] = float(b.z_top)
        return d

    def describe(self):
        return f"blocks {[(b.x, b.y, b.z, b.z_top, b.off) for b in self.blocks]}, top {self.top}, topo {self.topo}, azimuth {self.azimuth}"


def split(text, sep=","):
    t = text.strip()
    if t[:1] in "[(" and t[:1]:
        t = t[1:-1]
    return [x.strip() for x in t.split(sep)]


def domain_attrs(cm):
    d = {k: (split(v, "|" if k in ("authors", "references") else ",") if k in ("keywords", "authors", "references") else v) for k, v in cm.base.items()}
    d.update(data_values=list(cm.values), data_units=list(cm.units), data_layout="vertex", crs=cm.crs, origin_x=cm.origin[0], origin_y=cm.origin[1], y_azimuth=cm.azimuth,
             dim_x=cm.dim[0], dim_y=cm.dim[1], dim_z=cm.dim_z)
    return d


# spans are 12 x 12 for every combination of axes
X = {"u": lambda: Ax("u", 4, 4.0), "v": lambda: Ax("v", [0.0, 1.0, 5.0, 12.0])}
Y = {"u": lambda: Ax("u", 3, 6.0), "v": lambda: Ax("v", [0.0, 4.0, 12.0])}
SX = {"u": lambda f: Ax("u", 3 * f + 1, 4.0 / f), "v": lambda f: Ax("v", [0.0, 1.0, 5.0, 12.0] + [0.5, 3.0, 7.5, 10.0][:2 * (f - 1)])}
SY = {"u": lambda f: Ax("u", 2 * f + 1, 6.0 / f), "v": lambda f: Ax("v", [0.0, 4.0, 12.0] + [2.0, 9.0, 11.0][:2 * (f - 1)])}


def family(quick, exact=False):
    """All kinds of axes x kinds of surfaces; azimuths, offsets and numbers of blocks vary along."""
    out = []
    combos = itertools.product("uv", "uv", "uv", ("none", "same", "finer", "mixed", "topo"))
    for n, (kx, ky, kz, surf) in ((i + shift, c) for i, c in enumerate(combos) for shift in (range(1) if quick else range(5))):
        zs = {"u": Ax("u", 3, 5.0), "v": Ax("v", [0.0, -3.0, -10.0])}[kz]
        blocks = [Blk("upper", X[kx](), Y[ky](), zs, 0.0, [0.0, -0.25][n % 2])]
        if n % 3:
            z2 = {"u": Ax("v", [-10.0, -12.0, -17.0, -20.0]), "v": Ax("u", 2, 10.0)}[kz] if n % 3 == 1 else Ax("u", 3, 5.0)
            bx = {"u": Ax("u", 2, 12.0), "v": Ax("v", [0.0, 5.0, 12.0])}[kx]
            blocks.append(Blk("lower", bx, Y[ky](), z2, -10.0))
        top = topo = None
        if surf in ("same", "finer", "mixed"):
            f = {"same": 1, "finer": 2, "mixed": 3}[surf]
            top = (SX[kx](f), SY[ky](1 if surf == "mixed" else f))
        if surf in ("finer", "mixed", "topo"):
            topo = (SX[kx](1 if surf == "finer" else 2), SY[ky](2))
        out.append(CM(blocks, top, topo, azimuth=0.0 if exact else [0.0, 30.0, 310.0, 0.0][n % 4], origin=[(10.0, 20.0), (-128.0, 64.0)][n % 2] if exact else [(10.0, 20.0), (-450.25, -2239.5)][n % 2],
                      values=[("one", "two"), ("one",), ("one", "two", "three")][n % 3], units=[("m", "m/s"), ("m",), ("m", "m/s", "none")][n % 3], chunk=1 + n % 4))
    # roundoff in the number of points, sizes of one, coordinates in another order, fine grids in degrees, three blocks
    out.append(CM([Blk("a", Ax("u", 4, 0.1), Ax("u", 3, 0.1), Ax("u", 4, 0.1), 0.0)], top=(Ax("u", 4, 0.1), Ax("u", 3, 0.1))))
    out[-1].dim = (0.3, 0.2)
    out.append(CM([Blk("a", Ax("u", 4, 0.7), Ax("u", 7, 0.1), Ax("u", 7, 0.1), 0.0)], top=(Ax("u", 7, 0.35), Ax("u", 13, 0.05)), topo=(Ax("u", 4, 0.7), Ax("u", 7, 0.1))))
    out[-1].dim = (2.1, 0.6)
    out.append(CM([Blk("a", Ax("v", [12.0, 0.0, 5.0, 1.0]), Ax("v", [4.0, 12.0, 0.0]), Ax("v", [-10.0, 0.0, -3.0]), 0.0)], top=(Ax("v", [5.0, 12.0, 0.0, 1.0]), Ax("v", [12.0, 4.0, 0.0]))))
    out.append(CM([Blk("a", Ax("v", [12.0, 0.0, 5.0]), Ax("u", 3, 6.0), Ax("u", 3, 5.0), 0.0)], top=(Ax("v", [5.0, 12.0, 0.0, 1.0, 3.0]), Ax("u", 5, 3.0))))
    out.append(CM([Blk("a", Ax("u", 4, 0.005), Ax("u", 3, 0.01), Ax("u", 3, 5.0), 0.0)], top=(Ax("u", 7, 0.0025), Ax("u", 5, 0.005))))
    out[-1].dim = (0.015, 0.02)
    out.append(CM([Blk("a", Ax("v", [0.0, 0.003, 0.004, 0.02]), Ax("v", [0.0, 0.001, 0.004]), Ax("u", 3, 5.0), 0.0)], top=(Ax("v", [0.0, 0.001, 0.003, 0.004, 0.01, 0.02]), Ax("v", [0.0, 0.001, 0.002, 0.004]))))
    out.append(CM([Blk("a", Ax("v", [0.0, 0.1, 5.3, 12.0]), Ax("v", [0.0, 3.7, 12.0]), Ax("v", [0.0, -3.3, -10.0]), 0.0), Blk("b", Ax("v", [0.0, 11.9, 12.0]), Ax("v", [0.0, 12.0]), Ax("v", [-10.0, -10.1, -19.9, -20.0]), -10.0)],
                  top=(Ax("v", [0.0, 0.1, 2.2, 5.3, 11.9, 12.0]), Ax("v", [0.0, 3.7, 12.0])), topo=(Ax("v", [0.0, 0.1, 0.7, 5.3, 11.9, 12.0]), Ax("v", [0.0, 0.1, 3.7, 12.0]))))
    out.append(CM([Blk("a", Ax("u", 4, 4.0), Ax("u", 3, 6.0), Ax("u", 3, 5.0), 0.0), Blk("b", Ax("u", 2, 12.0), Ax("u", 3, 6.0), Ax("u", 2, 10.0), -10.0), Blk("c", Ax("u", 3, 6.0), Ax("u", 2, 12.0), Ax("u", 3, 5.0), -20.0)],
                  top=(Ax("u", 7, 2.0), Ax("u", 5, 3.0)), topo=(Ax("u", 13, 1.0), Ax("u", 5, 3.0)), azimuth=0.0 if exact else 45.0))
    out.append(CM([Blk("a", Ax("u", 2, 12.0), Ax("u", 2, 12.0), Ax("u", 2, 10.0), 0.0)], dim_z=10.0))
    out.append(CM([Blk("a", Ax("u", 5, 3.0), Ax("u", 5, 3.0), Ax("u", 2, 10.0), 0.0, -0.5), Blk("b", Ax("u", 5, 3.0), Ax("u", 2, 12.0), Ax("u", 5, 1.5), -10.0, -0.125)], top=(Ax("u", 5, 3.0), Ax("u", 5, 3.0))))
    return out
