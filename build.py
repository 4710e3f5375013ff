"""Compiles MParT from /repo's working tree (outside /repo) together with a harness.

Objects go through ccache (content-addressed) in /verif/build/ccache when ccache is installed, so unchanged
translation units are not recompiled; without ccache everything is compiled from scratch.
"""
import concurrent.futures as cf
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

BASE = ["-std=c++17", "-fPIC", "-fopenmp", "-DKOKKOS_ENABLE_CXX17", "-DKOKKOS_DEPENDENCE",
        "-DMPART_HAS_CEREAL", "-DMPART_HAS_NLOPT", "-w",
        "-I", REPO, "-isystem", "/usr/include/eigen3"]
VARIANTS = {
    "plain": ["-O1"],
    # memory errors become visible failures: ASan, bounds-checked std containers and bounds-checked Kokkos views
    "asan": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS",
             "-DKOKKOS_ENABLE_DEBUG_BOUNDS_CHECK"],
    # (Kokkos' own bounds checks throw where a subview is out of range, which would hide a missing check of the library's)
    "asan0": ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-D_GLIBCXX_ASSERTIONS"],
}
LIBS = ["-lkokkoscore", "-lkokkoscontainers", "-lnlopt_cxx", "-ldl"]


class BuildError(Exception):
    pass


def _env():
    e = dict(os.environ)
    e["CCACHE_DIR"] = os.path.join(BUILD, "ccache")
    e["CCACHE_COMPILERCHECK"] = "content"
    e["CCACHE_MAXSIZE"] = "4G"
    e["CCACHE_NOHASHDIR"] = "1"
    e["CCACHE_NOINODECACHE"] = "1"  # always compare contents
    e.pop("CCACHE_DISABLE", None)
    e["LANG"] = "C.UTF-8"
    e["LC_ALL"] = "C.UTF-8"
    return e


def _cc():
    return (["ccache"] if shutil.which("ccache") else []) + ["g++"]


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=_env())
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))


def _compile(src, obj, flags):
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    _run(_cc() + flags + ["-c", src, "-o", obj])
    return obj


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def lib_sources():
    return sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True))


def build(harnesses, variant="plain", jobs=8, only=None):
    """Builds libmpart.so (variant) and the named harnesses; returns {name: binary path}.

    only: glob patterns below src/ that are enough for these harnesses. If linking with that subset fails (code has
    moved between files), everything is built.
    """
    if only is not None:
        try:
            return _build(harnesses, variant, jobs, only)
        except BuildError as e:
            if "undefined reference" not in str(e) and "undefined symbol" not in str(e):
                raise
    return _build(harnesses, variant, jobs, None)


def _build(harnesses, variant, jobs, only):
    t0 = time.time()
    d = os.path.join(BUILD, variant)
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    flags = BASE + VARIANTS[variant]
    srcs = lib_sources()
    if only is not None:
        import fnmatch
        srcs = [q for q in srcs if any(fnmatch.fnmatch(os.path.relpath(q, os.path.join(REPO, "src")), g) for g in only)]
    objs = {}
    out = {}
    hobjs = {}
    os.makedirs(os.path.join(d, "obj"), exist_ok=True)
    with cf.ThreadPoolExecutor(jobs) as ex:
        futs = {}
        # harnesses first: they are the longest single compilations
        for h in harnesses:
            s = os.path.join(VERIF, "harness", h + ".cpp")
            o = os.path.join(d, "obj", "h_" + h + ".o")
            hobjs[h] = o
            futs[ex.submit(_compile, s, o, flags + ["-I", os.path.join(VERIF, "harness")])] = s
        for s in sorted(srcs, key=lambda s: (0 if "FactoryImpl" in s or "LinearAlgebra" in s else 1, s)):
            o = os.path.join(d, "obj", os.path.relpath(s, REPO).replace("/", "_") + ".o")
            objs[s] = o
            futs[ex.submit(_compile, s, o, flags)] = s
        for f in cf.as_completed(futs):
            f.result()
    libname = "mpart" if only is None else "mpart_" + "_".join(harnesses)
    lib = os.path.join(d, "lib%s.so" % libname)
    san = ["-fsanitize=address"] if variant.startswith("asan") else []
    tag = os.path.join(d, libname + ".sha")
    dig = _digest(list(objs.values()))
    if not (os.path.exists(lib) and os.path.exists(tag) and open(tag).read() == dig):
        _run(["g++", "-shared", "-fopenmp", "-o", lib] + san + sorted(objs.values()) + LIBS)
        open(tag, "w").write(dig)
    for h in harnesses:
        b = os.path.join(d, "h_" + h)
        _run(["g++", "-fopenmp", "-o", b] + san + [hobjs[h], "-L", d, "-l" + libname, "-Wl,-rpath," + d] + LIBS)
        out[h] = b
    sys.stderr.write("build %s %s: %.1fs\n" % (variant, ",".join(harnesses), time.time() - t0))
    return out


def build_python(jobs=8):
    """Builds libmpart.so (plain) and the pympart extension; returns the directory to put on PYTHONPATH."""
    t0 = time.time()
    build([], "plain", jobs)
    d = os.path.join(BUILD, "py")
    od = os.path.join(d, "obj")
    pkg = os.path.join(d, "mpart")
    os.makedirs(od, exist_ok=True)
    shutil.rmtree(pkg, ignore_errors=True)
    os.makedirs(pkg)
    bdir = os.path.join(REPO, "bindings")
    srcs = sorted(glob.glob(os.path.join(bdir, "python", "src", "*.cpp")) + glob.glob(os.path.join(bdir, "common", "src", "*.cpp")))
    srcs = [s for s in srcs if os.path.basename(s) != "DebugMap.cpp"]
    flags = BASE + VARIANTS["plain"] + ["-I", os.path.join(bdir, "python", "include"), "-I", os.path.join(bdir, "common", "include"),
                                        "-isystem", "/usr/include/python3.12"]
    with cf.ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(lambda s: _compile(s, os.path.join(od, os.path.relpath(s, bdir).replace("/", "_") + ".o"), flags), srcs))
    lib = os.path.join(BUILD, "plain")
    _run(["g++", "-shared", "-fopenmp", "-o", os.path.join(pkg, "pympart.cpython-312-x86_64-linux-gnu.so")] + objs
         + ["-L", lib, "-lmpart", "-Wl,-rpath," + lib] + LIBS)
    for f in glob.glob(os.path.join(bdir, "python", "package", "*.py")):
        shutil.copy(f, pkg)
    sys.stderr.write("build python: %.1fs\n" % (time.time() - t0))
    return d


if __name__ == "__main__":
    names = sys.argv[2:] or [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(VERIF, "harness", "c*.cpp")))]
    build(names, sys.argv[1] if len(sys.argv) > 1 else "plain")
