"""Builds the simulator binaries from /repo's working tree, with an object cache keyed by content."""
import hashlib, os, subprocess, sys, glob, shutil, threading, time
from collections import defaultdict
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("LIBRF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = shutil.which("clang++-16") or "clang++-16"
LIBFLAGS = ["-DLIBRF_USE_STATIC_LIBRARY", "-std=gnu++20", "-fcoroutines-ts", "-stdlib=libstdc++",
            "-pthread", "-g", "-O0", "-fno-pie", "-fsanitize=thread", "-Wno-everything"]
RTFLAGS = ["-std=c++20", "-O2", "-g", "-fno-pie", "-fno-strict-aliasing"]


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _tree_hash(paths, *extra):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode() + b"\0" + hashlib.sha256(_read(p)).digest())
    for e in extra:
        h.update(repr(e).encode())
    return h.hexdigest()[:24]


def _files(d):
    r = []
    for base, dirs, names in os.walk(d):
        dirs.sort()
        r += [os.path.join(base, n) for n in names if n.endswith((".h", ".hpp", ".inl", ".cpp", ".ipp", ".in", ".c", ".cc"))]
    return r


_locks = defaultdict(threading.Lock)


def _compile(src, flags, key, odir):
    with _locks[key]:
        return _compile1(src, flags, key, odir)


def _compile1(src, flags, key, odir):
    obj = os.path.join(odir, key + ".o")
    if os.path.exists(obj):
        try:
            os.utime(obj)
        except OSError:
            pass
        return obj
    tmp = f"{obj}.{os.getpid()}.{threading.get_ident()}.tmp"
    p = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], capture_output=True, text=True)
    if p.returncode:
        try:
            os.unlink(tmp)
        except OSError:
            pass
        raise BuildError(f"compiling {src} failed:\n{p.stderr[-6000:]}")
    os.rename(tmp, obj)
    return obj


def build(harnesses, extra_flags=()):
    """Returns the path of a simulator binary with these harness files, built from REPO's working tree."""
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    hdrs = _files(os.path.join(REPO, "include")) + _files(os.path.join(REPO, "asio"))
    hdrh = _tree_hash(hdrs, CXX)
    libflags = LIBFLAGS + ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "sim")] + list(extra_flags)
    jobs = []
    for s in sorted(glob.glob(os.path.join(REPO, "source", "*.cpp"))):
        jobs.append((s, libflags, _tree_hash([s], hdrh, libflags)))
    common = [os.path.join(VERIF, "harness", f) for f in os.listdir(os.path.join(VERIF, "harness")) if f.endswith(".h")] + [os.path.join(VERIF, "sim", "rt.h")]
    for h in harnesses:
        s = os.path.join(VERIF, "harness", h + ".cpp")
        fl = libflags + (["-I" + REPO, "-I" + os.path.join(REPO, "asio")] if "asio" in h else [])
        jobs.append((s, fl, _tree_hash([s] + common, hdrh, fl)))
    simh = [os.path.join(VERIF, "sim", f) for f in ("rt.h", "rt_internal.h")]
    for f in ("rt.cpp", "main.cpp"):
        s = os.path.join(VERIF, "sim", f)
        jobs.append((s, RTFLAGS, _tree_hash([s] + simh, CXX, RTFLAGS)))
    with ThreadPoolExecutor(8) as ex:
        objs = list(ex.map(lambda j: _compile(j[0], j[1], j[2], odir), jobs))
    key = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "sim-" + key)
    with _locks[exe]:
        return _link(exe, objs)


def _link(exe, objs):
    if not os.path.exists(exe):
        tmp = f"{exe}.{os.getpid()}.tmp"
        p = subprocess.run([CXX, "-no-pie", "-stdlib=libstdc++"] + objs + ["-o", tmp, "-ldl", "-pthread"], capture_output=True, text=True)
        if p.returncode:
            raise BuildError("linking failed:\n" + p.stderr[-6000:])
        os.rename(tmp, exe)
    else:
        os.utime(exe)
    return exe


def prune(max_age=3 * 3600, keep_mb=3000):
    """Removes old objects and binaries, oldest first, when the cache has grown."""
    files = []
    for d in (BUILD, os.path.join(BUILD, "obj")):
        if os.path.isdir(d):
            for f in os.listdir(d):
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    st = os.stat(p)
                    files.append((st.st_mtime, st.st_size, p))
    total = sum(f[1] for f in files)
    for mt, sz, p in sorted(files):
        if total < keep_mb << 20 or time.time() - mt < 600:
            break
        try:
            os.unlink(p)
        except OSError:
            pass
        total -= sz


if __name__ == "__main__":
    from props import PROPS
    t = time.time()
    hs = sorted(set(h for p in PROPS.values() for h in p["h"]))
    try:
        # compile everything once in parallel, then link each property's binary
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(lambda p: build(p["h"], p.get("flags", ())), PROPS.values()))
    except BuildError as e:
        print(e)
        sys.exit(1)
    print(f"built {len(PROPS)} simulator binaries ({len(hs)} harness files) in {time.time() - t:.1f} s")
