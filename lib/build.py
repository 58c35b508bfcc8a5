"""Builds the conformance driver from the working tree of copc-lib (never from its object files)."""
import glob, hashlib, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
FLAGS = ["-std=c++17", "-w", "-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address",
         "-include", os.path.join(VERIF, "standin/prelude.hpp"), "-I" + os.path.join(REPO, "cpp/include"),
         "-I" + os.path.join(VERIF, "standin"), "-I" + os.path.join(VERIF, "driver")]


class BuildError(Exception):
    pass


def _hash(paths, extra):
    h = hashlib.sha256(repr(extra).encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def headers():
    r = glob.glob(REPO + "/cpp/include/**/*.hpp", recursive=True) + glob.glob(VERIF + "/standin/**/*.hpp", recursive=True)
    r += glob.glob(VERIF + "/driver/*.hpp") + glob.glob(VERIF + "/standin/pybind11/*.h")
    return r


def _compile(job):
    src, obj, flags = job
    if os.path.exists(obj):
        return None
    tmp = obj + ".%d.tmp.o" % os.getpid()
    p = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        return "compiling %s failed:\n%s" % (src, p.stderr[-3000:])
    os.replace(tmp, obj)
    return None


def _prune(keep):
    files = sorted(glob.glob(CACHE + "/*"), key=os.path.getmtime)
    for f in files[:-keep] if len(files) > keep else []:
        try:
            os.remove(f)
        except OSError:
            pass


def build(name="driver", sources=None, flags=None, link=None):
    """Compiles the library and the given sources; returns the path of the executable."""
    os.makedirs(CACHE, exist_ok=True)
    flags = FLAGS if flags is None else flags
    link = ["-fsanitize=address"] if link is None else link
    own = sources or sorted(glob.glob(VERIF + "/driver/*.cpp"))
    srcs = sorted(glob.glob(REPO + "/cpp/src/**/*.cpp", recursive=True)) + [VERIF + "/standin/lazperf/lazperf.cpp"] + own
    hh = _hash(headers(), flags)
    jobs = []
    for s in srcs:
        jobs.append((s, os.path.join(CACHE, os.path.basename(s)[:-4] + "-" + _hash([s], hh + s) + ".o"), flags))
    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    exe = os.path.join(CACHE, name + "-" + hashlib.sha256("".join(sorted(j[1] for j in jobs)).encode()).hexdigest()[:24])
    if os.path.exists(exe):
        for j in jobs:
            if os.path.exists(j[1]):
                os.utime(j[1])
        os.utime(exe)
        return exe
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(_compile, jobs) if e]
    if errs:
        raise BuildError(errs[0])
    tmp = exe + ".%d.tmp" % os.getpid()
    p = subprocess.run(["g++"] + link + [j[1] for j in jobs] + ["-Wl,--allow-multiple-definition", "-o", tmp],
                       capture_output=True, text=True)
    if p.returncode:
        raise BuildError("linking failed:\n" + p.stderr[-3000:])
    os.replace(tmp, exe)
    _prune(400)
    return exe


PYINC = "/usr/include/python3.12"
PYFLAGS = ["-std=c++17", "-w", "-O1", "-g1", "-fPIC", "-include", os.path.join(VERIF, "standin/prelude.hpp"),
           "-I" + os.path.join(REPO, "cpp/include"), "-I" + os.path.join(VERIF, "standin"), "-I" + PYINC]


def build_python():
    """Compiles the Python extension copclib._core from the working tree; returns its path."""
    return build("core", [os.path.join(REPO, "python/bindings.cpp"), os.path.join(VERIF, "driver/py/extra.cpp")], PYFLAGS, ["-shared"])


if __name__ == "__main__":
    print(build())
    print(build_python())
