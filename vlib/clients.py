"""Client programs over the public header, built with many compilers and options (C18, C19)."""
import concurrent.futures as cf
import hashlib, os, re, shutil, subprocess
from . import build as B, cplxgen


def header_tree():
    """A copy of the tree's public headers with the configuration header the build would generate."""
    lib = B.Lib("o1", B.BACKENDS.keys() if False else ("sse2", "avx", "avx2"))
    import fcntl
    fcntl.flock(lib.lock, fcntl.LOCK_UN)
    return lib


def cpu_has(flag):
    try:
        return re.search(r"\b%s\b" % flag, open("/proc/cpuinfo").read()) is not None
    except OSError:
        return False


def run(cmd):
    return subprocess.run(cmd, capture_output=True, text=True, env=B._env())


def cached(out, cmd):
    """compile unless there; returns error text or None"""
    if os.path.exists(out):
        return None
    tmp = out + ".tmp.%d.o" % os.getpid()
    r = run(B._ccache() + cmd + ["-o", tmp])
    if r.returncode:
        return r.stderr[-3000:]
    os.rename(tmp, out)
    return None


def key(*a):
    return hashlib.sha256(repr(a).encode()).hexdigest()[:14]


def headers_ok(inc):
    """the header itself compiles"""
    r = subprocess.run(["g++", "-std=c++11", "-fsyntax-only", "-x", "c++", "-I" + inc, "-"], input='#include "otfft.h"\n', capture_output=True, text=True)
    return r.returncode == 0, r.stderr[-2000:]


def build_all(jobs):
    """jobs: list of (out, cmd); returns {out: error}"""
    bad = {}
    with cf.ThreadPoolExecutor(B.JOBS) as ex:
        for (out, _), err in zip(jobs, ex.map(lambda j: cached(*j), jobs)):
            if err:
                bad[out] = err
    return bad
