"""C18: geomodelgrids_query answers every point of its input, in order."""
from apps import *


def check(ctx):
    A, B, a, b = family(ctx.work)
    C = "EPSG:3311"
    settings = []

    def add(desc, models, values, crs, squash=None, minelev=None, log=False):
        args = [f"--models={','.join(models)}", f"--values={','.join(values)}"] + ([f"--points-coordsys={crs}"] if crs else [])
        setup = [T("q.new", "q"), T("q.init", "q", crs or "EPSG:4326", *L(models), *L(values))]
        if squash:
            args.append(f"--squash-surface={squash}")
        if minelev is not None:
            args.append(f"--squash-min-elev={minelev!r}")
        mode = {"top_surface": "top", "topography_bathymetry": "topo", "none": "none", None: None}[squash]
        if mode is None and minelev is not None:
            mode = "top"
        if mode in ("top", "topo"):
            setup += [T("q.squash", "q", mode), T("q.minelev", "q", -10.0e+3 if minelev is None else minelev)]
        if log:
            args.append(f"--log={ctx.work}/log.txt")
        settings.append((desc, args, setup, len(values)))
    sq = [(None, None), ("top_surface", None), ("topography_bathymetry", None), ("none", None), (None, -50.0), ("top_surface", -30.0), ("topography_bathymetry", -50.0), ("none", -30.0),
          ("top_surface", -9999.0), ("topography_bathymetry", -20000.0), (None, -1.0e6), ("top_surface", -1.0), ("top_surface", -59.999)]
    for models in ([a], [b], [a, b], [b, a]):
        for values in (["one"], ["two", "one"], ["ONE", "Two", "one"]):
            for s, m in (sq if models in ([a], [a, b]) and len(values) == 2 else sq[:1] + sq[5:6] + sq[9:10]):
                add(f"models {[x[-4:] for x in models]} values {values} squash {s} {m}", models, values, C, s, m)
    add("default coordinate system", [a, b], ["one", "two"], None)
    add("log", [a, b], ["one", "two"], C, log=True)
    points_app(ctx, "query", 3, settings, lambda pts: [T("q.query", "q", *p) for p in pts])
    ctx.sample("three points separated by blank lines, the last one without a newline")
    ctx.notes.update(rule="states = (settings, text of the points file) and (failing call)")
