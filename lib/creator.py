#!/usr/bin/python3
"""Runs the creation tools of the working tree: one JSON job per line (same line protocol as the driver)."""
import contextlib
import gc
import io
import json
import os
import pathlib
import shutil
import sys
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ["GMG_STAGE"])
import h5py  # noqa: E402
import numpy as np  # noqa: E402
import geomodelgrids.create  # noqa: E402,F401
from geomodelgrids.create.apps import create_model  # noqa: E402
import probe  # noqa: E402


def text(config):
    out = []
    for s, kv in config.items():
        out.append(f"[{s}]")
        out += [f"{k} = {v}" for k, v in kv.items()]
        out.append("")
    return "\n".join(out)


def attr(v):
    if isinstance(v, bytes):
        return v.decode("utf-8")
    if isinstance(v, np.ndarray):
        return [attr(x) for x in v]
    if isinstance(v, np.generic):
        return attr(v.item())
    return v


def dump(path):
    """Contents of a model file: attributes, shapes, values, storage."""
    if not os.path.exists(path):
        return None
    out = {}
    with h5py.File(path, "r") as h5:
        out["/"] = {"attrs": {k: attr(v) for k, v in h5.attrs.items()}, "members": sorted(h5)}

        def visit(name, obj):
            e = {"attrs": {k: attr(v) for k, v in obj.attrs.items()}}
            if isinstance(obj, h5py.Dataset):
                e.update(shape=list(obj.shape), dtype=str(obj.dtype), chunks=list(obj.chunks or []), compression=obj.compression, data=obj[:].ravel().tolist())
            else:
                e["members"] = sorted(obj)
            out[name] = e
        h5.visititems(visit)
    return out


def job_create(j):
    """Run the creation application; {"dir", "configs", "runs": [{"kwargs"} or {"argv"}], "dump"}."""
    os.makedirs(j["dir"], exist_ok=True)
    os.chdir(j["dir"])
    for name, c in j["configs"].items():
        pathlib.Path(name).write_text(c if isinstance(c, str) else text(c), encoding="utf-8")
    for name, t in j.get("files", {}).items():
        pathlib.Path(name).write_text(t, encoding="utf-8")
    if j.get("fresh"):
        for f in j["fresh"]:
            if os.path.exists(f):
                os.unlink(f)
    if j.get("copy"):
        shutil.copyfile(j["copy"], j["keep"])
    steps = []
    for run in j["runs"]:
        probe.CALLS.clear()
        so, se = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                if "argv" in run:
                    old = sys.argv
                    sys.argv = ["geomodelgrids_create_model"] + run["argv"]
                    try:
                        create_model.cli()
                    finally:
                        sys.argv = old
                else:
                    create_model.App(show_progress=False).main(**run["kwargs"])
            r = "OK"
        except SystemExit as e:
            r = f"EXIT {e.code}"
        except Exception as e:
            r = f"{type(e).__name__}: {e}"
            if os.environ.get("GMG_TB"):
                traceback.print_exc()
        s = {"result": r, "stdout": so.getvalue(), "stderr": se.getvalue()}
        if j.get("calls"):
            s["calls"] = [[k, b, rg, list(p.shape), p.ravel().tolist()] for k, b, rg, p in probe.CALLS]
        if run.get("dump"):
            s["dump"] = dump(run["dump"])
        steps.append(s)
    gc.collect()
    return {"steps": steps, "dump": dump(j["dump"]) if j.get("dump") else None}


def job_batch(j):
    """All maxima for one set of dimensions; returns list of violations and the number of batches seen."""
    from geomodelgrids.create.utils import batch
    dims = j["dims"]
    gen = batch.BatchGenerator2D if len(dims) == 2 else batch.BatchGenerator3D
    total = int(np.prod(dims))
    bad, nb = [], 0
    for mx in j["max"]:
        try:
            seen = np.zeros(dims, dtype=np.int32)
            why = None
            it = gen(*dims) if mx == "omitted" else gen(*dims, mx)
            for b in it:
                nb += 1
                r = [b.x_range, b.y_range] + ([b.z_range] if len(dims) == 3 else [])
                if any(not (0 <= lo < hi <= n) for (lo, hi), n in zip(r, dims)):
                    why = f"batch {r} is empty or outside the grid"
                    break
                seen[tuple(slice(lo, hi) for lo, hi in r)] += 1
                size = int(np.prod([hi - lo for lo, hi in r]))
                if mx not in (None, "omitted", 0) and size > max(mx, 1):
                    why = f"batch {r} holds {size} points"
                    break
                if nb > 10 ** 7:
                    why = "endless batches"
                    break
                text = str(b)
                if not all(f"{lo}:{hi}" in text for lo, hi in r):
                    why = f"batch {r} described as {text}"
                    break
            if why is None and not (seen == 1).all():
                k = tuple(int(x) for x in np.argwhere(seen != 1)[0])
                why = f"point {k} is in {int(seen[k])} batches"
            if why is None and next(it, None) is not None:
                why = "iteration continues after it has ended"
        except Exception as e:
            why = f"{type(e).__name__}: {e}"
        if why:
            bad.append([dims, mx, why])
    return {"bad": bad[:20], "batches": nb, "total": total}


def job_script(j):
    """Run a script of the package as a program: {"dir", "script", "files", "runs": [argv or {"write": name, "text": t} or {"topo": [from, to, coefficients]}], "read": [names]}."""
    import gzip
    import logging
    import runpy
    os.makedirs(j["dir"], exist_ok=True)
    os.chdir(j["dir"])
    os.environ.setdefault("USER", "nobody")
    for name, t in j.get("files", {}).items():
        os.makedirs(os.path.dirname(os.path.abspath(name)), exist_ok=True)
        pathlib.Path(name).write_text(t, encoding="utf-8")
    results = []
    for run in j["runs"]:
        if isinstance(run, dict):  # elevations at the points of a file, in the same order
            try:
                xy = np.loadtxt(run["from"], ndmin=2)
                a = run["coef"]
                z = a[0] + a[1] * (xy[:, 0] - a[4]) + a[2] * (xy[:, 1] - a[5]) + a[3] * (xy[:, 0] - a[4]) * (xy[:, 1] - a[5])
                np.savetxt(run["to"], np.column_stack([xy, z / run.get("scale", 1.0)]), fmt="%.17g")
                results.append("OK")
            except Exception as e:
                results.append(f"{type(e).__name__}: {e}")
            continue
        so, se, old = io.StringIO(), io.StringIO(), sys.argv
        sys.argv = [j["script"]] + run
        try:
            with contextlib.redirect_stdout(so), contextlib.redirect_stderr(se):
                runpy.run_path(os.path.join(os.environ["GMG_STAGE"], j["script"]), run_name="__main__")
            r = "OK"
        except SystemExit as e:
            r = f"EXIT {e.code}"
        except Exception as e:
            r = f"{type(e).__name__}: {e}"
        finally:
            sys.argv = old
            logging.shutdown()
            logging.root.handlers.clear()
        results.append(r)
    out = {}
    for name in j.get("read", []):
        if os.path.exists(name):
            with (gzip.open(name, "rt") if name.endswith(".gz") else open(name)) as f:
                out[name] = [[float(x) for x in ln.replace(",", " ").split()] for ln in f if ln.strip() and not ln.startswith("#")]
    listing = sorted(str(f.relative_to(j["dir"])) for f in pathlib.Path(j["dir"]).rglob("*") if f.is_file())
    shutil.rmtree(j["dir"], ignore_errors=True)
    return {"results": results, "read": out, "listing": listing}


def job_call(j):
    """Call a helper function: {"fn": dotted path, "args": [...]}."""
    from importlib import import_module
    mod, fn = j["fn"].rsplit(".", 1)
    f = getattr(import_module(mod), fn)
    out = []
    for a in j["args"]:
        try:
            out.append(["OK", f(*a)])
        except Exception as e:
            out.append(["EXC", type(e).__name__, str(e)])
    return out


def job_rules(j):
    """Rules of a model: {"path", "module", "zones": [[fault block, zone]], "points": [[x, y, depth]]} -> values, in the order zones x points; twice, the second time backwards."""
    from importlib import import_module
    if j["path"] not in sys.path:
        sys.path.append(j["path"])
    get_rules = import_module(j["module"]).get_rules
    passes = []
    for back in (False, True):
        out = []
        for fb, zone in (j["zones"][::-1] if back else j["zones"]):
            try:
                rule = get_rules(fb, zone)
                vals = [list(map(float, rule(*p))) for p in (j["points"][::-1] if back else j["points"])]
                out.append(["OK", vals[::-1] if back else vals])
            except Exception as e:
                out.append(["EXC", type(e).__name__, str(e)])
        passes.append(out[::-1] if back else out)
    return passes


def main():
    fd = os.dup(1)
    os.dup2(2, 1)
    out = os.fdopen(fd, "w", encoding="utf-8")
    for line in sys.stdin.buffer.read().decode("utf-8").split("\n"):
        if not line:
            continue
        c, _, a = line.partition("\t")
        if c == "#":
            r = "OK"
        else:
            j = json.loads(a.replace("\\\\", "\\"))
            r = "OK\t" + json.dumps(globals()["job_" + c](j)).replace("\\", "\\\\")
        out.write(r + "\n")
        out.flush()


main()
