"""One function per property: what is built, run and observed."""
import hashlib, os, sys, time
from . import build as B
from .driver import Check, THOROUGH, SEED, NCPU

COMMON = ["main.cpp", "otv.cpp"]
ALL3 = ("sse2", "avx", "avx2")
LEAN = dict(backends=("sse2", "avx2"), lean=True)
PROPS = {}


def prop(pid):
    def deco(f):
        PROPS[pid] = f
        return f
    return deco


def _dft(pid, kind, what, opts=()):
    rule = ("%s objects over lengths (every small one, powers of two, parallel mixed radix, large primes, thresholds), three backends, all modes, "
            "17 input shapes, 1-8 threads; every output element compared with a long double reference. Distinct = (kind, backend, mode, length) "
            "combinations whose full output was compared." % what)
    c = Check(pid, "exploration", rule)
    # The kernels of every backend are compared in full by C01; the others leave out what takes longest to compile.
    lib = B.Lib("o1", ALL3) if kind == 0 or THOROUGH else B.Lib("o1", **LEAN)
    prog = lib.link("otv-dft", COMMON + ["dft.cpp", "huge.cpp", "domain.cpp"])
    c.pool(prog, "dft", ["kind=%d" % kind] + list(opts))
    c.pool(prog, "huge", ["kind=%d" % kind] + list(opts), workers=1, case_timeout=600)
    if THOROUGH:
        prog = B.Lib("o3", ALL3).link("otv-dft", COMMON + ["dft.cpp", "domain.cpp"])
        c.pool(prog, "dft", ["kind=%d" % kind, "salt=3"] + list(opts))
    return c.finish()


@prop("C01")
def c01(): return _dft("C01", 0, "complex")


@prop("C02")
def c02(): return _dft("C02", 1, "real (forward)", ["dirs=1"])


@prop("C03")
def c03(): return _dft("C03", 1, "real (inverse)", ["dirs=2"])


@prop("C04")
def c04(): return _dft("C04", 2, "cosine")


@prop("C05")
def c05(): return _dft("C05", 3, "Bluestein")


MON = COMMON + ["dft.cpp", "domain.cpp", "monitors.cpp", "mem.cpp", "alloc.cpp"]


def lean(cfg="o1", shim=None):
    return B.Lib(cfg, **LEAN).link("otv-mon" + ("-shim" if shim else ""), MON, shim=shim)


def _simple(pid, cmd, rule, level="exploration", shim=None, opts=(), cfg="o1"):
    c = Check(pid, level, rule)
    c.pool(lean(cfg, shim=shim), cmd, opts)
    if THOROUGH:
        c.pool(B.Lib("o3", ALL3).link("otv-mon" + ("-shim" if shim else ""), MON, shim=shim), cmd, opts)
    return c.finish()


@prop("C06")
def c06():
    return _simple("C06", "norm", "random lengths over all classes, every mode: round trips in both orders, mode-to-mode ratios and Parseval sums compared to "
                   "rounding error. Distinct = (kind, backend, length, relation) combinations checked.")


@prop("C09")
def c09():
    return _simple("C09", "align", "the same call on buffers at 8-byte offsets within a cache line, mixed input/output offsets and page ends, bit-compared with an "
                   "aligned run. Distinct = (kind, backend, length, call, offset) combinations.", cfg="o3")


@prop("C13")
def c13():
    return _simple("C13", "setup", "random setup histories (same, halved, doubled, unrelated lengths; started empty or not) with transforms in between; after each "
                   "setup bit-compared with a fresh object, freed memory poisoned, live bytes counted. Distinct = (kind, backend, length class to length class) transitions.")


@prop("C14")
def c14():
    return _simple("C14", "hist", "random histories of calls with ordinary, NaN, infinite, huge and tiny data on one object; a probe call is repeated and bit-compared. "
                   "Distinct = (kind, backend, length class, probe call, preceding call and data) combinations.")


@prop("C16")
def c16():
    c = Check("C16", "fault_enumeration", "for each object and length, create and setup are run once per allocation request i with request i failing, and once with all from i "
              "on failing; leaks, exception type, recovery and other objects observed; likewise for lengths up to 2^30 for which no memory is given. "
              "Distinct = (kind, backend, length class, path, i) injected.")
    progs = [lean(shim=True)]
    if THOROUGH:
        progs.append(B.Lib("o3", ALL3).link("otv-mon-shim", MON, shim=True))
    for p in progs:
        c.pool(p, "fail")
        c.pool(p, "vast")
    return c.finish()


@prop("C17")
def c17():
    return _simple("C17", "scale", "input scaled by powers of two (bit-compare) or negated (bit-compare), and runs at magnitudes near 1e290, 1e-290 and subnormal "
                   "against the reference. Distinct = (kind, backend, length, call, relation) combinations.")


ASAN_ENV = dict(ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64", UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1")


@prop("C07")
def c07():
    c = Check("C07", "exploration", "whole object lifetimes (created empty or not, set up again, every call, destroyed) with (a) every library block and caller array against an "
              "inaccessible page or fill words, blocks counted, on the optimised build, and (b) exact heap arrays under AddressSanitizer and UBSan. "
              "Distinct = (kind, backend, length, call, placement) combinations.")
    c.pool(lean(), "guard")
    asan = B.Lib("asan", ("avx2",) if not THOROUGH else ALL3).link("otv-asan", COMMON + ["domain.cpp", "use.cpp"])
    c.pool(asan, "use", env=ASAN_ENV)
    import random
    rnd = random.Random(SEED * 1000 + 7)
    c.fresh(asan, "exit", ["objects=%d only=%d seed=%d" % (rnd.randint(1, 6), rnd.choice([-1, 0, 1, 2, 3]), rnd.randrange(10**9)) for _ in range(200 if THOROUGH else 32)], env=ASAN_ENV)
    if THOROUGH:
        c.pool(B.Lib("o3", ALL3).link("otv-mon", MON), "guard")
    return c.finish()


@prop("C08")
def c08():
    c = Check("C08", "exploration", "(a) the same object and call with the heap, the stack and the output array pre-filled with different patterns, bit-compared; (b) MemorySanitizer "
              "over object lifetimes, every output word checked. Distinct = (kind, backend, length, call, pattern) combinations.")
    c.pool(lean(), "poison")
    msan = B.Lib("msan", ("avx2",) if not THOROUGH else ALL3).link("otv-msan", ["msan_main.cpp"], hflags=("-O1", "-g1", "-fsanitize=memory", "-fno-sanitize-recover=all"))
    c.pool(msan, "msan")
    if THOROUGH:
        c.pool(B.Lib("o3", ALL3).link("otv-mon", MON), "poison")
    return c.finish()


ENV = COMMON + ["dft.cpp", "domain.cpp", ("env.cpp", ["-fopenmp"]), "alloc.cpp"]
CONC = COMMON + ["domain.cpp", ("conc.cpp", ["-fopenmp"])]
TSAN_ENV = dict(TSAN_OPTIONS="halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4")


def conc(cfg, shim):
    if cfg == "tsan":
        return B.Lib("tsan", ALL3 if THOROUGH else ("avx2",)).link("otv-conc-tsan", CONC)
    lib = B.Lib("o3", ALL3) if cfg == "o3" else B.Lib("o1", **LEAN)
    return lib.link("otv-conc" + ("-shim" if shim else ""), CONC, shim=shim)


@prop("C10")
def c10():
    c = Check("C10", "exploration", "calls and setups over lengths around and above the parallel thresholds with teams of 1 to 33 threads changing between calls and setups, and inside "
              "regions of the caller; bit-compared with one thread under libgomp, under a runtime that runs the threads of a team one at a time in adversarial orders per barrier phase, "
              "and under one with random pauses; ThreadSanitizer over the latter. Distinct = (kind, backend, length, call, setup team, call team) combinations.")
    for cfg in ("o1", "o3") if THOROUGH else ("o1",):
        c.pool(conc(cfg, False), "par", ["rounds=6", "mixed=80", "pownm=4"])
        c.pool(conc(cfg, False), "par", ["rounds=2", "mixed=%d" % (80 if THOROUGH else 16), "salt=1"],
               env=dict(OMP_THREAD_LIMIT="3", OMP_DYNAMIC="true", OMP_SCHEDULE="dynamic,5", OMP_NESTED="true", OMP_WAIT_POLICY="passive"))
        s = conc(cfg, True)
        c.pool(s, "par", ["omp=2", "pownm=8"])
        c.pool(s, "par", ["omp=1"])
    t = conc("tsan", True)
    for m in (0, 1):
        c.pool(t, "par", ["omp=%d" % m, "rounds=2", "pownm=8", "mixed=%d" % (80 if THOROUGH else 24), "maxlog=%d" % (19 if THOROUGH else 17), "maxteam=6"], env=TSAN_ENV)
    return c.finish()


@prop("C11")
def c11():
    c = Check("C11", "exploration", "2 to 6 threads each live a random sequence of create, set up, call and destroy on their own objects; every result is hashed and compared with the "
              "same sequence run alone; under ThreadSanitizer, with random pauses, and in fresh processes where all threads make the first use of the library. "
              "Distinct = (operation, kind, length, call, number of threads) logged.")
    import random
    rnd = random.Random(SEED * 1000 + 11)
    c.pool(conc("o1", False), "own", ["huge=1", "count=%d" % (4000 if THOROUGH else 500)])
    c.pool(conc("o1", False), "crowd")
    c.pool(conc("o1", False), "busy", workers=3)
    t = conc("tsan", True)
    c.pool(t, "crowd", ["count=%d" % (100 if THOROUGH else 24)], env=TSAN_ENV)
    c.pool(t, "busy", ["rounds=40", "count=%d" % (100 if THOROUGH else 20)], env=TSAN_ENV, workers=4)
    c.pool(t, "own", ["omp=0", "count=%d" % (1500 if THOROUGH else 250)], env=TSAN_ENV)
    c.pool(t, "own", ["omp=1", "count=%d" % (1500 if THOROUGH else 150)], env=TSAN_ENV)
    cases = ["threads=%d steps=%d big=0 same=%d only=%d seed=%d" % (rnd.randint(2, 6), rnd.randint(1, 3), rnd.random() < 0.7, rnd.choice([-1, -1, 0, 1, 2, 3]), rnd.randrange(10**9))
             for _ in range(600 if THOROUGH else 120)]
    c.fresh(t, "own", cases, env=TSAN_ENV)
    c.fresh(conc("o1", False), "own", cases[:60])
    return c.finish()


@prop("C12")
def c12():
    c = Check("C12", "exploration", "2 to 6 threads call forward and inverse functions of one real transform object on their own arrays, each with 1 to 4 OpenMP threads for large lengths; "
              "each result is bit-compared with the same call alone; under ThreadSanitizer and at full speed. Distinct = (length, backend, threads, OpenMP threads, call mix) combinations.")
    c.pool(conc("o1", False), "shared", ["small=%d" % (3000 if THOROUGH else 500), "reps=150"], workers=3)
    t = conc("tsan", True)
    for m in (0, 1):
        c.pool(t, "shared", ["omp=%d" % m], env=TSAN_ENV)
    return c.finish()


@prop("C20")
def c20():
    c = Check("C20", "exploration", "(a) every observable of the caller's environment (MXCSR, x87, OpenMP settings, OpenMP threads' state, signals, descriptors, output, locale, limits, "
              "random state) compared before and after each creation (also failing ones), setup, call and destruction, from random initial states; (b) results under the four rounding "
              "modes compared with the reference. Distinct = (kind, backend, length, call) watched and (kind, backend, mode, length, rounding modes) compared.")
    progs = [B.Lib("o1", **LEAN).link("otv-env", ENV)]
    if THOROUGH:
        progs.append(B.Lib("o3", ALL3).link("otv-env", ENV))
    for p in progs:
        c.pool(p, "env")
        c.pool(p, "rounding")
    return c.finish()


CPU_PROFILES = 21


def code_ranges(mapfile, out):
    """Ranges of the program's ordinary code that comes from objects compiled for one backend.

    Inline functions (sections of their own) may be taken from any object and are left out."""
    import re
    rs = []
    try:
        for line in open(mapfile, errors="replace"):
            m = re.match(r" \.text\s+0x([0-9a-f]+)\s+0x([0-9a-f]+) (.*)$", line)
            if m:
                b = os.path.basename(m.group(3)).split("_")[0]
                a, n = int(m.group(1), 16), int(m.group(2), 16)
                if b in B.BACKENDS and n and a:
                    rs.append((a, a + n, ALL3.index(b) + 1))
    except OSError:
        pass
    base = 0x400000 if rs and min(rs)[0] >= 0x400000 else 0
    with open(out, "w") as f:
        for a, b, i in rs:
            f.write("%x %x %d\n" % (a - base, b - base, i))
    return len(rs)


@prop("C15")
def c15():
    c = Check("C15", "exploration", "a process per emulated processor (21: SSE2 only to AVX-512, missing operating-system support, limited CPUID) single-steps the library from before the "
              "first static constructor, answers CPUID and XGETBV, classifies every instruction, and requests every backend and kind in random order; results compared with the definition, "
              "exceptions and heap blocks observed. Distinct = (processor, backend, kind, way of setting up, call) combinations.")
    import random
    rnd = random.Random(SEED * 1000 + 15)
    progs = [B.Lib("o1", ALL3, lean=True)]
    if THOROUGH:
        progs += [B.Lib("o3", ALL3), B.Lib("o1", ("sse2", "avx2"), lean=True), B.Lib("o1", ("sse2",), lean=True), B.Lib("o1", ("avx",)), B.Lib("o1", ("avx", "avx2"))]
    for lib in progs:
        tag = hashlib.sha256(b"".join(open(os.path.join(B.HARNESS, f), "rb").read() for f in sorted(os.listdir(B.HARNESS)))).hexdigest()[:12]
        mp = os.path.join(lib.dir, "cpu-%s.map" % tag)
        prog = lib.link("otv-cpu", ["cpu_main.cpp", "otv.cpp", "alloc.cpp"], lflags=["-Wl,-Map=" + mp])
        n = code_ranges(mp, mp + ".ranges")
        if n:
            c.sum["code_ranges"] = n
        else:
            c.notes.append("no link map: which backend's code ran was not observed")
        c.fresh(prog, "cpu", ["profile=%d seed=%d" % (p, rnd.randrange(10**6)) for p in range(CPU_PROFILES) for _ in range(25 if THOROUGH else 5)], env=dict(OTV_RANGES=mp + ".ranges"))
    if c.sum.get("not_emulated") and not c.sum.get("refused"):
        c.notes.append("the library does not ask the processor through CPUID in its own code; capabilities could not be emulated")
    return c.finish()


def _client_variants():
    v = []
    for cxx in ("g++", "clang++"):
        for o in ("-O0", "-O1", "-O2", "-O3", "-Os"):
            v.append((cxx, [o, "-std=c++11"]))
        v.append((cxx, ["-O2", "-std=c++17", "-mavx2", "-mfma"]))
        v.append((cxx, ["-O3", "-std=c++14", "-mavx"]))
        v.append((cxx, ["-O1", "-std=c++11", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]))
        if THOROUGH:
            for o in ("-O0", "-O1", "-O2", "-O3"):
                v.append((cxx, [o, "-std=c++20"]))
                v.append((cxx, [o, "-std=c++11", "-mavx2", "-mfma", "-frounding-math" if cxx == "g++" else "-ffp-contract=fast"]))
                v.append((cxx, [o, "-std=c++17", "-fno-strict-aliasing", "-fPIC"]))
            v.append((cxx, ["-Og" if cxx == "g++" else "-Oz", "-std=c++11"]))
            v.append((cxx, ["-O2", "-std=c++11", "-fno-inline"]))
    return v


@prop("C18")
def c18():
    import concurrent.futures as cf
    from . import clients as CL, cplxgen
    c = Check("C18", "exploration", "random client programs over the complex type (expression trees, compound assignments with the object or its parts as operand, references naming the "
              "same object, loops, operands changed between two evaluations) compiled by gcc and clang at several optimisation levels; every value left behind compared with a long double "
              "evaluation with error bounds. Distinct = (compiler options, operation, operand kinds, program) judged.")
    lib = CL.header_tree()
    inc = os.path.join(lib.tree, "inc")
    ok, err = CL.headers_ok(inc)
    if not ok:
        raise B.BuildError("the public header does not compile\n" + err)
    rounds = [(SEED, 150)] + [(SEED * 1000 + i, 150) for i in range(1, 9 if THOROUGH else 2)]
    d = os.path.join(B.BUILD, "clients")
    os.makedirs(d, exist_ok=True)
    main = os.path.join(d, "main-%s.o" % CL.key(B.tree_hash(), open(os.path.join(B.HARNESS, "cplx_main.cpp")).read(), open(os.path.join(B.HARNESS, "otv.hpp")).read()))
    err = CL.cached(main, ["g++", "-O2", "-w", "-std=c++17", "-I" + inc, "-I" + B.HARNESS, "-c", os.path.join(B.HARNESS, "cplx_main.cpp")])
    if err:
        raise B.BuildError(err)
    jobs, progs = [], []
    for seed, count in rounds:
        text, _ = cplxgen.generate(seed, count)
        src = os.path.join(d, "gen-%s.cpp" % CL.key(text))
        if not os.path.exists(src):
            with open(src + ".tmp%d" % os.getpid(), "w") as f:
                f.write(text)
            os.rename(src + ".tmp%d" % os.getpid(), src)
        for cxx, fl in _client_variants():
            k = CL.key(B.tree_hash(), text, cxx, fl, main)
            o, p = os.path.join(d, "gen-%s.o" % k), os.path.join(d, "cplx-%s" % k)
            jobs.append((o, [cxx, "-w"] + fl + ["-I" + inc, "-c", src]))
            progs.append((p, o, cxx, fl, seed))
    bad = CL.build_all(jobs)
    for o, e in sorted(bad.items()):
        c.add_violation("does-not-compile", "client program", "a client of the complex type does not compile: " + e.strip().split("\n")[0][:300])
    def go(job):
        p, o, cxx, fl, seed = job
        if o in bad:
            return
        san = [f for f in fl if f.startswith("-fsanitize")]
        e = CL.cached(p, [cxx, main, o] + san + ["-lm", "-lpthread"])
        if e:
            raise B.BuildError(e)
        spec = "options=%s seed=%d inputs=%d pairs=%d" % (",".join([cxx] + fl), seed, 600 if THOROUGH else 150, 40000 if THOROUGH else 3000)
        c.fresh_one(p, "cplx", spec, dict(ASAN_OPTIONS="detect_leaks=0"))
        with c.mu:
            c.sum["compiler_variants_run"] = c.sum.get("compiler_variants_run", 0) + 1
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(go, progs))
    return c.finish()


@prop("C19")
def c19():
    import concurrent.futures as cf
    from . import clients as CL
    c = Check("C19", "exploration", "random histories of several arrays of seven element types (construction, setup, destroy, destruction, scope exit, element and address access, failing "
              "allocations, more than 2^31 bytes) and of raw blocks, compiled for SSE2, SSE4, AVX, AVX2 and AVX-512 by gcc and clang, with a counting, guarding and failing allocator and "
              "under AddressSanitizer. Distinct = (options, element type, operation, failure) observed.")
    lib = CL.header_tree()
    inc = os.path.join(lib.tree, "inc")
    ok, err = CL.headers_ok(inc)
    if not ok:
        raise B.BuildError("the public header does not compile\n" + err)
    d = os.path.join(B.BUILD, "clients")
    os.makedirs(d, exist_ok=True)
    text = [open(os.path.join(B.HARNESS, f)).read() for f in ("arr_main.cpp", "alloc.cpp", "alloc.h")]
    al = os.path.join(d, "alloc-%s.o" % CL.key(text))
    err = CL.cached(al, ["g++", "-O2", "-w", "-std=c++17", "-I" + B.HARNESS, "-c", os.path.join(B.HARNESS, "alloc.cpp")])
    if err:
        raise B.BuildError(err)
    variants = []
    for cxx in ("g++", "clang++"):
        for isa in ([], ["-msse4.2"], ["-mavx"], ["-mavx2", "-mfma"], ["-mavx512f"], ["-march=native"]):
            if "-mavx512f" in isa and not CL.cpu_has("avx512f"):
                continue
            for o in ("-O0", "-O2") + (("-O1", "-O3", "-Os") if THOROUGH else ()):
                variants.append((cxx, [o, "-std=c++11"] + isa))
        variants.append((cxx, ["-O1", "-g1", "-std=c++17", "-mavx", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DOTV_ASAN"]))
        variants.append((cxx, ["-O0", "-g1", "-std=c++11", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-DOTV_ASAN"]))
    jobs, progs = [], []
    for cxx, fl in variants:
        k = CL.key(B.tree_hash(), text, cxx, fl)
        o, p = os.path.join(d, "arr-%s.o" % k), os.path.join(d, "arr-%s" % k)
        jobs.append((o, [cxx, "-w"] + fl + ["-I" + inc, "-I" + B.HARNESS, "-c", os.path.join(B.HARNESS, "arr_main.cpp")]))
        progs.append((p, o, cxx, fl))
    bad = CL.build_all(jobs)
    for o, e in sorted(bad.items()):
        c.add_violation("does-not-compile", "client program", "a client of the array type does not compile: " + e.strip().split("\n")[0][:300])
    def go(job):
        p, o, cxx, fl = job
        if o in bad:
            return
        san = [f for f in fl if f.startswith("-fsanitize")]
        e = CL.cached(p, [cxx, o] + ([] if san else [al]) + san + ["-lm", "-lpthread"])
        if e:
            raise B.BuildError(e)
        for i in range(4 if THOROUGH else 1):
            c.fresh_one(p, "arr", "options=%s seed=%d rounds=%d" % (",".join([cxx] + fl), SEED * 100 + i, 400 if THOROUGH else 60), dict(ASAN_OPTIONS="detect_leaks=1"))
        with c.mu:
            c.sum["compiler_variants_run"] = c.sum.get("compiler_variants_run", 0) + 1
    with cf.ThreadPoolExecutor(NCPU) as ex:
        list(ex.map(go, progs))
    return c.finish()


def replay(d):
    """Rebuild and run the single case of a replay file."""
    print("replay of %s: %s\n  %s" % (d["property"], d["case"], d["what"]))
    print("recorded program: %s %s" % (d.get("prog"), " ".join(d.get("cmdline") or [])))
    prog = d.get("prog")
    if not prog or not os.path.exists(prog) or d.get("tree") != B.tree_hash():
        print("the program is not built for this tree any more; running the whole check with its seed")
        os.environ["VERIF_SEED"] = str(d["seed"])
        return PROPS[d["property"]]()
    c = Check(d["property"], "exploration", "replay")
    ok, rep, p = c.one(prog, d["cmdline"], d["case"], d["env"])
    for r in rep:
        if "viol" in r and "done" not in r:
            print("  %s: %s" % (r["viol"], r["what"]))
    print(c.stderr(p)[-3000:])
    print("held" if ok else "timed out" if ok is None else "violated")
    return 0 if ok else 1
