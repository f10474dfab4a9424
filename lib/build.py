"""Build the harness binaries from /repo's current working tree (out of tree, in /verif/build)."""
import glob
import hashlib
import os
import pathlib
import shutil
import subprocess
import sys
import fcntl

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get("GMG_REPO", "/repo"))
BUILD = pathlib.Path(os.environ.get("GMG_BUILD", str(VERIF / "build")))
sys.path.insert(0, str(VERIF / "lib"))
import gen_faults  # noqa: E402

PORTINFO = """#define GEOMODELGRIDS_VERSION "1.0.0rc3"
#define GEOMODELGRIDS_RELEASE_VERSION 0
#define HAVE_LIBGDAL 1
#define HAVE_LIBHDF5 1
#define HAVE_LIBPROJ 1
#define STDC_HEADERS 1
"""
INC = "-I/usr/include/hdf5/serial -I/usr/include/gdal"
LIBS = "-L/usr/lib/x86_64-linux-gnu/hdf5/serial -lgdal -lproj -lhdf5"
MAINS = {"query": "query", "queryelev": "queryelev", "borehole": "borehole", "isosurface": "isosurface", "info": "info"}


class BuildError(Exception):
    pass


def _sync(src, dst, patterns):
    """Copy changed files only (content comparison), delete files that vanished."""
    want = set()
    for pat in patterns:
        for f in glob.glob(str(src / pat), recursive=True):
            if os.path.isfile(f) and "__pycache__" not in f:
                want.add(os.path.relpath(f, src))
    for rel in sorted(want):
        d = dst / rel
        data = (src / rel).read_bytes()
        if not d.exists() or d.read_bytes() != data:
            d.parent.mkdir(parents=True, exist_ok=True)
            d.write_bytes(data)
    if dst.exists():
        for f in list(dst.rglob("*")):
            if f.is_file() and os.path.relpath(f, dst) not in want:
                f.unlink()
    return sorted(want)


def _write(path, text):
    if not path.exists() or path.read_text() != text:
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_text(text)


def build(targets=("driver",)):
    """targets: subset of {"driver", "driver-fast", "python"}.  Returns dict of paths."""
    BUILD.mkdir(parents=True, exist_ok=True)
    with open(BUILD / ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(targets)


def _stage(stage, built):
    """The Python package: files of the working tree and the extension just built."""
    _sync(REPO / "geomodelgrids", stage / "geomodelgrids_src", ["**/*.py"])
    pkg = stage / "geomodelgrids"
    # the package directory = python files of the working tree + the extension just built
    for rel in [os.path.relpath(f, stage / "geomodelgrids_src") for f in (stage / "geomodelgrids_src").rglob("*.py")]:
        _write(pkg / rel, (stage / "geomodelgrids_src" / rel).read_text())
    for f in list(pkg.rglob("*.py")):
        if not (stage / "geomodelgrids_src" / os.path.relpath(f, pkg)).exists():
            f.unlink()
    so = pkg / "_geomodelgrids.so"
    data = built.read_bytes()
    if not so.exists() or so.read_bytes() != data:
        so.write_bytes(data)
    sc = stage / "bin"
    sc.mkdir(exist_ok=True)
    shutil.copyfile(REPO / "bin" / "geomodelgrids_create_model", sc / "geomodelgrids_create_model")


def _build(targets):
    src = BUILD / "src"
    files = _sync(REPO, src, ["libsrc/**/*.cc", "libsrc/**/*.hh", "libsrc/**/*.h", "modulesrc/**/*.cc",
                              "modulesrc/**/*.hh", "bin/*.cc", "bin/geomodelgrids_create_model"])
    _write(BUILD / "inc" / "portinfo", PORTINFO)
    h = BUILD / "harness"
    h.mkdir(exist_ok=True)
    for f in ("driver.cc", "faults.hh"):
        _write(h / f, (VERIF / "lib" / f).read_text())
    tmp = h / "faults.cc.new"
    gen_faults.main(str(tmp))
    _write(h / "faults.cc", tmp.read_text())
    tmp.unlink()

    lib = [f for f in files if f.startswith("libsrc/") and f.endswith(".cc")]
    pymod = [f for f in files if f.startswith("modulesrc/") and f.endswith(".cc")]
    flavours = {
        "asan": "-g1 -O1 -fsanitize=address -fno-omit-frame-pointer -fno-common",
        "fast": "-g1 -O1",
        "pic": "-g1 -O1 -fPIC -fvisibility=default",
        "picasan": "-g1 -O1 -fPIC -fvisibility=default -fsanitize=address -fno-omit-frame-pointer",
    }
    n = ["builddir = .", f"inc = -I{BUILD}/inc -I{src}/libsrc -I{h} {INC}",
         "rule cxx", "  command = g++ -std=c++14 -w -MMD -MF $out.d $flags -DWITH_GDAL $inc -c $in -o $out",
         "  depfile = $out.d", "  deps = gcc",
         "rule link", "  command = g++ $flags -o $out $in $libs"]

    def obj(fl, rel, extra=""):
        o = f"obj-{fl}/{rel}.o"
        n.append(f"build {o}: cxx {src / rel}")
        n.append(f"  flags = {flavours[fl]} {extra}")
        return o

    for fl, exe in (("asan", "driver"), ("fast", "driver-fast")):
        os_ = [obj(fl, f) for f in lib]
        for m, fn in MAINS.items():
            os_.append(obj(fl, f"bin/{m}.cc", f"-Dmain={fn}_main"))
        for f in ("driver.cc", "faults.cc"):
            o = f"obj-{fl}/{f}.o"
            n.append(f"build {o}: cxx {h / f}")
            n.append(f"  flags = {flavours[fl]}")
            os_.append(o)
        n.append(f"build {exe}: link {' '.join(os_)}")
        n.append(f"  flags = {flavours[fl]} {gen_faults.WRAPFLAGS}")
        n.append(f"  libs = {LIBS}")
    pyi = subprocess.run(["/usr/bin/python3", "-c", "import pybind11,sysconfig;print('-I'+pybind11.get_include(),'-I'+sysconfig.get_paths()['include'])"],
                         capture_output=True, text=True, check=True).stdout.strip()
    for fl, so in (("pic", "_geomodelgrids.so"), ("picasan", "asan/_geomodelgrids.so")):
        os_ = [obj(fl, f) for f in lib] + [obj(fl, f, pyi) for f in pymod]
        n.append(f"build {so}: link {' '.join(os_)}")
        n.append(f"  flags = {flavours[fl]} -shared")
        n.append(f"  libs = {LIBS}")
    _write(BUILD / "build.ninja", "\n".join(n) + "\n")
    tmap = {"driver": "driver", "driver-fast": "driver-fast", "python": "_geomodelgrids.so", "python-asan": "asan/_geomodelgrids.so"}
    cmd = ["ninja", "-C", str(BUILD), "-j8"] + [tmap[t] for t in targets]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError(r.stdout[-6000:] + r.stderr[-2000:])
    for target, so_name, stage in (("python", "_geomodelgrids.so", BUILD / "stage"), ("python-asan", "asan/_geomodelgrids.so", BUILD / "stage-asan")):
        if target in targets:
            _stage(stage, BUILD / so_name)
    return {"driver": str(BUILD / "driver"), "driver-fast": str(BUILD / "driver-fast"), "stage": str(BUILD / "stage"), "stage-asan": str(BUILD / "stage-asan")}


if __name__ == "__main__":
    try:
        print(build(sys.argv[1:] or ["driver", "driver-fast", "python"]))
    except BuildError as e:
        print(e)
        sys.exit(2)
