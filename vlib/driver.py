"""Runs monitors, collects what they observed, and turns it into a verdict and an evidence file."""
import concurrent.futures as cf
import hashlib, json, mmap, os, re, resource, signal, struct, subprocess, sys, tempfile, threading, time
from . import build as B

VERIF = B.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
THOROUGH = TIER == "thorough"
NCPU = B.JOBS


def load_findings():
    """known-findings.txt: 'open: property=ID match=<regex> :: text' and 'fixed: property=ID commit text'."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"open: property=(\w+) match=(.*?) :: (.*)$", l.strip())
            if m:
                out.append(dict(property=m.group(1), rx=re.compile(m.group(2)), text=m.group(3)))
    return out


class Check:
    def __init__(self, pid, level, rule):
        self.pid, self.level, self.rule = pid, level, rule
        self.t0 = time.time()
        self.viol = []          # dicts: cls, case, what, replay(dict)
        self.sum, self.max = {}, {}
        self.cells = set()
        self.samples = []
        self.notes = []
        self.inconclusive = []
        self.extra = {}
        self.tmp = tempfile.mkdtemp(prefix="otv-%s-" % pid)
        self.mu = threading.Lock()
        self.spawn_mu = threading.Lock()
        self.serial = 0

    # -------------------------------------------------------------- results
    def add_violation(self, cls, case, what, prog=None, cmdline=None, env=None, log=None):
        with self.mu:
            self.viol.append(dict(cls=cls, case=case, what=what, prog=prog, cmdline=cmdline, env=env, log=log))

    def absorb(self, d):
        with self.mu:
            for k, v in d.get("sum", {}).items():
                self.sum[k] = self.sum.get(k, 0) + v
            for k, v in d.get("max", {}).items():
                self.max[k] = max(self.max.get(k, v), v)
            self.cells.update(d.get("cells", []))
            for s in d.get("samples", []):
                if len(self.samples) < 24:
                    self.samples.append(s)

    # -------------------------------------------------------------- processes
    def spawn(self, argv, env=None, tag="p", limits=None):
        rep = os.path.join(self.tmp, "rep-%s-%d" % (tag, time.monotonic_ns()))
        err = rep + ".err"
        e = dict(os.environ)
        for k in list(e):
            if k.startswith(("OMP_", "GOMP_", "KMP_", "ASAN_", "TSAN_", "UBSAN_", "MSAN_", "LSAN_", "LD_PRELOAD", "MALLOC_", "GLIBC_")):
                del e[k]
        e["OMP_WAIT_POLICY"] = "passive"
        e.update(env or {})
        with self.spawn_mu:
            return self._spawn(argv, e, rep, err, limits)

    def _spawn(self, argv, e, rep, err, limits):
        rf = os.open(rep, os.O_CREAT | os.O_RDWR | os.O_TRUNC | os.O_APPEND)
        ef = open(err, "wb")
        def pre():
            os.setsid()
            if rf != 3:
                os.dup2(rf, 3)
            else:
                os.set_inheritable(3, True)
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            if limits:
                limits()
        p = subprocess.Popen(argv, stdin=subprocess.DEVNULL, stdout=ef, stderr=ef, env=e, close_fds=False, preexec_fn=pre)
        os.close(rf)
        ef.close()
        p.rep, p.err = rep, err
        p.t0 = time.time()
        return p

    @staticmethod
    def kill(p):
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()

    @staticmethod
    def report(p):
        out = []
        try:
            for l in open(p.rep, errors="replace"):
                try:
                    out.append(json.loads(l))
                except ValueError:
                    pass
        except OSError:
            pass
        return out

    @staticmethod
    def stderr(p, n=6000):
        try:
            t = open(p.err, errors="replace").read()
        except OSError:
            return ""
        return t if len(t) <= n else t[: n // 2] + "\n...\n" + t[-n // 2:]

    # -------------------------------------------------------------- pools
    def pool(self, prog, cmd, opts=(), env=None, workers=NCPU, case_timeout=240, max_deaths=6, rerun_hang=True,
             san=None, wrap=()):
        """Run monitor `cmd` of `prog` over all its cases with dynamic distribution over workers.

        san: optional function(stderr text) -> list of (class, text) for sanitizer logs of workers that
        carried on (halt_on_error=0)."""
        ctr = os.path.join(self.tmp, "ctr-%d" % time.monotonic_ns())
        size = 4096 + 1024 * workers
        with open(ctr, "wb") as f:
            f.write(b"\0" * size)
        fd = os.open(ctr, os.O_RDWR)
        mm = mmap.mmap(fd, size)
        os.close(fd)
        base = [prog, cmd, "seed=%d" % SEED, "thorough=%d" % (1 if THOROUGH else 0)] + list(opts)
        deaths = 0
        live = {}
        def start(i):
            mm[4096 + 1024 * i:4096 + 1024 * (i + 1)] = b"\0" * 1024
            live[i] = (self.spawn(list(wrap) + base + ["shard=%d" % i, "shards=%d" % workers, "ctr=" + ctr], env, tag="%s-%d" % (cmd, i)), [b"", time.time()])
        for i in range(workers):
            start(i)
        hangs = []
        while live:
            time.sleep(0.05)
            for i in list(live):
                p, prog_state = live[i]
                slot = bytes(mm[4096 + 1024 * i:4096 + 1024 * (i + 1)]).split(b"\0")[0]
                if slot != prog_state[0]:
                    prog_state[0], prog_state[1] = slot, time.time()
                rc = p.poll()
                if rc is None:
                    if time.time() - prog_state[1] > case_timeout:
                        self.kill(p)
                        hangs.append(slot.decode(errors="replace"))
                        del live[i]
                        deaths += 1
                        if deaths <= max_deaths:
                            start(i)
                    continue
                del live[i]
                rep = self.report(p)
                done = False
                nviol = 0
                for d in rep:
                    if "fatal" in d:
                        raise RuntimeError(d["fatal"])
                    if "viol" in d and "done" not in d:
                        nviol += 1
                        self.add_violation(d["viol"], d["case"], d["what"], prog, [cmd] + list(opts), env,
                                           self.stderr(p) if d["viol"] in ("crash", "sanitizer") else None)
                    if d.get("done"):
                        done = True
                        self.absorb(d)
                if san:
                    for cls, text in san(open(p.err, errors="replace").read()):
                        nviol += 1
                        self.add_violation(cls, slot.decode(errors="replace"), text.split("\n")[0][:300], prog, [cmd] + list(opts), env, text)
                if not done:
                    if nviol == 0:
                        if rc == -9 and not self._oom_ours():
                            self.inconclusive.append("a worker was killed from outside (case %s)" % slot.decode(errors="replace"))
                        else:
                            self.add_violation("crash", slot.decode(errors="replace"), "the process died with status %d" % rc, prog, [cmd] + list(opts), env, self.stderr(p))
                    deaths += 1
                    if deaths <= max_deaths:
                        start(i)
        handed = struct.unpack("<Q", mm[:8])[0]
        mm.close()
        os.unlink(ctr)
        for h in hangs:
            if not rerun_hang:
                self.add_violation("hang", h, "no result within %d s" % case_timeout, prog, [cmd] + list(opts), env)
                continue
            ok, rep, p = self.one(prog, [cmd] + list(opts), h, env, timeout=case_timeout, wrap=wrap)
            if ok is None:
                self.add_violation("hang", h, "no result within %d s, twice" % case_timeout, prog, [cmd] + list(opts), env)
        if deaths > max_deaths:
            self.inconclusive.append("stopped after %d worker deaths in %s" % (deaths, cmd))
        return handed

    def fresh_one(self, prog, cmd, case, env=None, opts=(), timeout=240):
        """Run one case in a process of its own."""
        ok, rep, p = self.one(prog, [cmd, "seed=%d" % SEED] + list(opts), case, env, timeout)
        if ok is None:
            ok, rep, p = self.one(prog, [cmd, "seed=%d" % SEED] + list(opts), case, env, timeout)
        if ok is None:
            self.add_violation("hang", case, "no result within %d s, twice" % timeout, prog, [cmd] + list(opts), env)
            return
        done = False
        for d in rep:
            if "fatal" in d:
                raise RuntimeError(d["fatal"])
            if "viol" in d and "done" not in d:
                self.add_violation(d["viol"], d["case"], d["what"], prog, [cmd] + list(opts), env, self.stderr(p))
            if d.get("done"):
                done = True
                self.absorb(d)
        if (not done or p.returncode) and not any("viol" in d and "done" not in d for d in rep):
            log = self.stderr(p)
            m = re.search(r"(runtime error: [^\n]*|ERROR: \w+Sanitizer: [^\n]*)", log)
            self.add_violation("sanitizer" if m else "crash", case, m.group(1)[:300] if m else "the process died with status %d" % p.returncode, prog, [cmd] + list(opts), env, log)
        with self.mu:
            self.sum["fresh_processes"] = self.sum.get("fresh_processes", 0) + 1

    def fresh(self, prog, cmd, cases, opts=(), env=None, timeout=240):
        """Run every case in a process of its own (what happens on first use can happen only there)."""
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(lambda case: self.fresh_one(prog, cmd, case, env, opts, timeout), cases))

    def one(self, prog, cmdline, case, env=None, timeout=240, wrap=()):
        """Run one case. Returns (True|False|None for held|violated|timed out, report, process)."""
        p = self.spawn(list(wrap) + [prog] + list(cmdline) + ["--one=" + case], env, tag="one")
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill(p)
            return None, self.report(p), p
        rep = self.report(p)
        bad = any("viol" in d and "done" not in d for d in rep) or not any(d.get("done") for d in rep)
        return (not bad), rep, p

    def _oom_ours(self):
        return False

    # -------------------------------------------------------------- verdict
    def finish(self, coverage=None):
        pid = self.pid
        findings = [f for f in load_findings() if f["property"] == pid]
        rc = 0
        known, seen, shown = {}, set(), 0
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        for v in self.viol:
            text = "%s | %s | %s" % (v["cls"], v["case"], v["what"])
            hit = next((f for f in findings if f["rx"].search(text)), None)
            if hit:
                known.setdefault(hit["text"], 0)
                known[hit["text"]] += 1
                continue
            rc = 1
            if shown >= 12:
                continue
            key = (v["cls"], v["what"][:60])
            if key in seen:
                continue
            seen.add(key)
            shown += 1
            h = hashlib.sha256(text.encode()).hexdigest()[:10]
            path = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, h))
            with open(path, "w") as f:
                json.dump(dict(property=pid, cls=v["cls"], case=v["case"], what=v["what"], prog=v["prog"], cmdline=v["cmdline"], env=v["env"],
                               log=v["log"], seed=SEED, tier=TIER, tree=B.tree_hash()), f, indent=1)
            print("  %s: %s [%s]" % (v["cls"], v["what"], v["case"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        for f in findings:
            if f["text"] in known:
                print("KNOWN-FINDING: property=%s %s" % (pid, f["text"]))
        cov = dict(evaluations=int(self.sum.get("calls", self.sum.get("cases", 0))), distinct_nontrivial=len(self.cells), rule=self.rule,
                   samples=self.samples[:8], observed={k: v for k, v in sorted(self.sum.items())},
                   maxima={k: v for k, v in sorted(self.max.items()) if "." not in k})
        cov.update(self.extra)
        cov.update(coverage or {})
        if self.notes:
            cov["notes"] = self.notes
        if self.inconclusive:
            cov["inconclusive"] = self.inconclusive
        ev = dict(property=pid, tier=TIER, seed=SEED, level=self.level, coverage=cov, wall_s=round(time.time() - self.t0, 1),
                  violations=len(self.viol) - sum(known.values()), known_findings=known)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
        subprocess.run(["rm", "-rf", self.tmp])
        if rc == 0 and (self.inconclusive or cov["distinct_nontrivial"] == 0):
            print("inconclusive: %s" % ("; ".join(self.inconclusive) or "nothing was observed"))
            return 2
        print("%s %s: %d evaluations, %d distinct, %.0f s, %s" % (pid, TIER, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"], "VIOLATED" if rc else "held"))
        return rc
