"""Builds instrumented variants of /repo's current sources, outside /repo.

A build is keyed by the content of the sources and the flags, so an unchanged tree is compiled once
per sandbox and any change of the tree gives a new build.  Source lists are read from CMakeLists.txt.
"""
import concurrent.futures as cf
import fcntl, hashlib, os, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OTV_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")
JOBS = os.cpu_count() or 4

BACKENDS = {
    "sse2": ["-msse2", "-DUSE_SSE2", "-DOTFFT_NAMESPACE=OTFFT_SSE2"],
    "avx": ["-mavx", "-DUSE_AVX", "-DOTFFT_NAMESPACE=OTFFT_AVX"],
    "avx2": ["-mavx2", "-DUSE_AVX2", "-DOTFFT_NAMESPACE=OTFFT_AVX2"],
}
BASE = ["-std=c++11", "-fpermissive", "-w", "-fPIC"]
FPG = ["-frounding-math", "-fno-finite-math-only", "-fsignaling-nans"]

CFG = {
    # name: compiler, flags, openmp, lib link flags
    # o1: the SIMD kernels (intrinsics, forced inline) take twice as long at -O3; all other units are built as shipped
    "o1": dict(cxx="g++", flags=["-O1", "-DNDEBUG"] + FPG, omp=True, link=[], rest=["-O3"]),
    "o3": dict(cxx="g++", flags=["-O3", "-DNDEBUG"] + FPG, omp=True, link=[]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"] + FPG, omp=True,
                 link=["-fsanitize=thread", "-pthread"]),
    "asan": dict(cxx="clang++", omp=True, link=["-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,unreachable,return,vla-bound,null,alignment", "-pthread"],
                 flags=["-O1", "-g1", "-fno-omit-frame-pointer",
                        "-fsanitize=address,signed-integer-overflow,shift,integer-divide-by-zero,bounds,float-cast-overflow,unreachable,return,vla-bound",
                        "-fno-sanitize-recover=all"]),
    "msan": dict(cxx="clang++", omp=True, link=["-fsanitize=memory", "-pthread"],
                 flags=["-O1", "-g1", "-DNDEBUG", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-recover=all"]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def source_lists():
    common, algo = [], []
    try:
        t = open(os.path.join(REPO, "CMakeLists.txt")).read()
        t = re.sub(r"#.*", "", t)
        for m in re.finditer(r"set\s*\(\s*(OTFFT_SOURCE_FILES(?:_ALGO)?)\s+([^)]*)\)", t):
            fs = re.findall(r"src/[\w./-]+\.cpp", m.group(2))
            (algo if m.group(1).endswith("ALGO") else common).extend(fs)
    except OSError:
        pass
    if not common or not algo:
        allf = sorted("src/" + f for f in os.listdir(os.path.join(REPO, "src")) if f.endswith(".cpp"))
        algo = [f for f in allf if "otfft_algo" in f]
        common = [f for f in allf if f not in algo]
    return common, algo


def tree_files():
    out = []
    for d in ("inc", "src"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            for f in fs:
                p = os.path.join(root, f)
                rel = os.path.relpath(p, REPO)
                if rel == "inc/otfft_config.h":
                    continue  # generated
                out.append(rel)
    return sorted(out)


_treehash = None


def tree_hash():
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for rel in tree_files():
            h.update(rel.encode() + b"\0" + _read(os.path.join(REPO, rel)) + b"\0")
        h.update(repr(source_lists()).encode())
        _treehash = h.hexdigest()
    return _treehash


def _compiler_id(cxx):
    return subprocess.run([cxx, "--version"], capture_output=True, text=True).stdout.split("\n")[0]


def _env():
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_NOHASHDIR="1",
             CCACHE_MAXSIZE="3G", CCACHE_SLOPPINESS="time_macros")
    for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPPFLAGS"):
        e.pop(k, None)
    return e


def _ccache():
    return ["ccache"] if shutil.which("ccache") else []


# rough relative cost, to start the slow ones first
def _weight(backend, f):
    w = {"dit16": 16, "dif16": 15, "dif8": 12, "dit8": 12, "dif4": 9, "dit4": 9, "sixstep": 8}
    for k, v in w.items():
        if k in f:
            return v * (3 if backend == "sse2" and "16" in k else 1.6 if backend == "sse2" else 1)
    return 1


LAZY = ("otfft_algo_dit16",)  # compiled only if the link asks for it


def prune(keep=10):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD) if d.startswith("lib-")]
    except OSError:
        return
    ds.sort(key=lambda d: os.path.getmtime(d), reverse=True)
    for d in ds[keep:]:
        if time.time() - os.path.getmtime(d) > 1800:
            shutil.rmtree(d, ignore_errors=True)


class Lib:
    """Objects of the library in one build configuration with a subset of backends."""

    def __init__(self, cfg, backends=("sse2", "avx", "avx2"), extra=(), lean=False):
        """lean: leave out the SSE2 radix-16 kernel; the harness skips cases that need it."""
        self.cfg, self.backends, self.extra = cfg, tuple(backends), list(extra)
        self.lean = lean
        c = CFG[cfg]
        self.cxx = c["cxx"]
        self.link_flags = c["link"]
        self.flags = BASE + c["flags"] + (["-fopenmp"] if c["omp"] else []) + self.extra
        h = hashlib.sha256()
        h.update(tree_hash().encode())
        self.rest = c.get("rest", [])
        h.update(repr((self.flags, self.rest, self.backends, _compiler_id(self.cxx))).encode())
        self.key = h.hexdigest()[:16]
        self.dir = os.path.join(BUILD, "lib-%s-%s" % (cfg, self.key))
        self.tree = os.path.join(self.dir, "tree")
        self.inc = ["-I" + os.path.join(self.tree, "inc"), "-I" + os.path.join(self.tree, "src")]
        self.built = 0
        self.seconds = 0.0
        self._prepare()

    def _prepare(self):
        os.makedirs(self.dir, exist_ok=True)
        os.utime(self.dir)
        self.lock = open(os.path.join(self.dir, "lock"), "w")
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(self.tree, ".ok")):
            shutil.rmtree(self.tree, ignore_errors=True)
            for rel in tree_files():
                dst = os.path.join(self.tree, rel)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(os.path.join(REPO, rel), dst)
            tmpl = os.path.join(REPO, "src/otfft_config.h.in")
            if os.path.exists(tmpl):
                t = open(tmpl).read()
                def sub(m):
                    b = m.group(1).replace("OTFFT_WITH_", "").lower()
                    if b in BACKENDS and b not in self.backends:
                        return "/* #undef %s */" % m.group(1)
                    return "#define %s" % m.group(1)
                t = re.sub(r"#cmakedefine\s+(\w+)", sub, t)
            else:
                t = "#pragma once\n" + "".join("#define OTFFT_WITH_%s\n" % b.upper() for b in self.backends)
            with open(os.path.join(self.tree, "inc/otfft_config.h"), "w") as f:
                f.write(t)
            open(os.path.join(self.tree, ".ok"), "w").close()

    def _units(self):
        common, algo = source_lists()
        u = []
        defs = ["-DUSE_" + b.upper() for b in self.backends]
        for f in common:
            u.append((0, f, defs, "common_" + os.path.basename(f)[:-4] + ".o"))
        for b in self.backends:
            for f in algo:
                if self.lean and b == "sse2" and f.endswith("algo_dif16.cpp"):
                    continue
                u.append((_weight(b, f), f, BACKENDS[b], b + "_" + os.path.basename(f)[:-4] + ".o"))
        u.sort(key=lambda t: -t[0])
        return u

    def _compile(self, unit):
        _, f, defs, out = unit
        o = os.path.join(self.dir, out)
        if os.path.exists(o):
            return None
        kernel = re.search(r"di[ft]\d", os.path.basename(f))
        cmd = _ccache() + [self.cxx] + self.flags + ([] if kernel else self.rest) + list(defs) + ["-Iinc", "-Isrc", "-c", f, "-o", o + ".tmp.o"]
        r = subprocess.run(cmd, cwd=self.tree, capture_output=True, text=True, env=_env())
        if r.returncode != 0:
            return "compile failed: %s\n%s" % (" ".join(cmd), r.stderr[-4000:])
        os.rename(o + ".tmp.o", o)
        self.built += 1
        return None

    def compile(self, lazy=False, skip=LAZY):
        t0 = time.time()
        units = [u for u in self._units() if lazy or not any(s in u[1] for s in skip)]
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for err in ex.map(self._compile, units):
                if err:
                    raise BuildError(err)
        self.seconds += time.time() - t0
        return [os.path.join(self.dir, u[3]) for u in units]

    def harness_objs(self, sources, flags=(), cxx=None, lib_flags=True):
        """Compile harness sources (list of (file, [extra flags])) against this library's headers."""
        out = []
        jobs = []
        for src in sources:
            fl = []
            if isinstance(src, tuple):
                src, fl = src
            p = os.path.join(HARNESS, src)
            h = hashlib.sha256(_read(p))
            for hdr in sorted(os.listdir(HARNESS)):
                if hdr.endswith((".hpp", ".h")):
                    h.update(_read(os.path.join(HARNESS, hdr)))
            cmd = [cxx or self.cxx, "-std=c++17", "-w", "-pthread"] + list(flags) + list(fl) + self.inc + ["-I" + HARNESS]
            h.update(repr(cmd).encode())
            o = os.path.join(self.dir, "h_%s_%s.o" % (os.path.basename(src), h.hexdigest()[:12]))
            out.append(o)
            if not os.path.exists(o):
                jobs.append((cmd + ["-c", p, "-o", o + ".tmp.o"], o))
        def run(j):
            r = subprocess.run(j[0], capture_output=True, text=True, env=_env())
            if r.returncode != 0:
                return "harness compile failed: %s\n%s" % (" ".join(j[0]), r.stderr[-4000:])
            os.rename(j[1] + ".tmp.o", j[1])
        with cf.ThreadPoolExecutor(JOBS) as ex:
            for err in ex.map(run, jobs):
                if err:
                    raise BuildError(err)
        return out

    def link(self, name, sources, hflags=("-O2",), lflags=(), hcxx=None, shim=None, unlock=True):
        """Build library + harness, return the path of the program.

        shim: use our OpenMP runtime instead of libgomp (default: for the sanitizer builds only)."""
        try:
            return self._link(name, sources, hflags, lflags, hcxx, shim, unlock)
        except BuildError as e:
            # a tree that is only meant to be built with every backend and every unit, as it is shipped
            if set(self.backends) == set(BACKENDS):
                raise
            try:
                whole = Lib(self.cfg, tuple(BACKENDS), self.extra, self.lean)
                out = whole._link(name, sources, hflags, lflags, hcxx, shim, unlock)
            except BuildError:
                raise e
            sys.stderr.write("note: %s does not build with %s alone; built with every backend\n" % (name, "+".join(self.backends)))
            return out

    def _link(self, name, sources, hflags, lflags, hcxx, shim, unlock):
        if shim is None:
            shim = self.cfg in ("tsan", "asan", "msan")
        sources = list(sources) + ([("shim.cpp", ["-fsanitize=thread"] if self.cfg == "tsan" else [])] if shim else [])
        lflags = list(lflags) + ([] if shim else ["-fopenmp"])
        try:
            with cf.ThreadPoolExecutor(2) as ex:
                fh = ex.submit(self.harness_objs, sources, hflags, hcxx)
                objs = self.compile()
                hobjs = fh.result()
            for attempt in (0, 1):
                key = hashlib.sha256(repr((hobjs, objs, lflags)).encode()).hexdigest()[:12]
                out = os.path.join(self.dir, "%s-%s" % (name, key))
                if os.path.exists(out):
                    return out
                cmd = [self.cxx] + hobjs + objs + ["-o", out + ".tmp"] + list(self.link_flags) + list(lflags) + ["-lm", "-lpthread"]
                r = subprocess.run(cmd, capture_output=True, text=True, env=_env())
                if r.returncode == 0:
                    os.rename(out + ".tmp", out)
                    return out
                if attempt == 0:
                    self.lean = False
                    objs = self.compile(lazy=True)
                else:
                    raise BuildError("link failed: %s\n%s" % (name, r.stderr[-4000:]))
        finally:
            if unlock:
                fcntl.flock(self.lock, fcntl.LOCK_UN)
                prune()
