"""C19: geomodelgrids_queryelev answers every point of its input, in order."""
from apps import *


def check(ctx):
    A, B, a, b = family(ctx.work)
    settings = []
    for models in ([a], [b], [a, b], [b, a]):
        for crs in ("EPSG:3311", None):
            for surface in (None, "top_surface", "topography_bathymetry"):
                args = [f"--models={','.join(models)}"] + ([f"--points-coordsys={crs}"] if crs else []) + ([f"--surface={surface}"] if surface else [])
                q = "q.topo" if surface == "topography_bathymetry" else "q.top"
                settings.append((f"models {[x[-4:] for x in models]} crs {crs} surface {surface}", args, [T("q.new", "q"), T("q.init", "q", crs or "EPSG:4326", *L(models), *L([]))], 1, q))
    # the oracle of points_app is told apart by the setting: one family per surface
    for q in ("q.top", "q.topo"):
        points_app(ctx, "queryelev", 2, [s[:4] for s in settings if s[4] == q], lambda pts: [T(q, "q", *p) for p in pts], full=q == "q.top" or not ctx.quick)
    ctx.sample("two points separated by tabs, the last one without a newline")
    ctx.notes.update(rule="states = (settings, text of the points file) and (failing call)")
