"""Runs harness modes in parallel workers, classifies what happens, and reports verdicts and evidence."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time
import vbuild

VERIF = vbuild.VERIF
NPROC = min(8, os.cpu_count() or 4)
SOFT_LIMIT = 660          # seconds after which no further work is started (evidence says so)

ASAN = "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=700:quarantine_size_mb=32:handle_abort=1:symbolize=1:detect_stack_use_after_return=1"
UBSAN = "print_stacktrace=1:halt_on_error=1:exitcode=86"
MSAN = "exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=700:handle_abort=1:symbolize=1"
TSAN = "exitcode=86:halt_on_error=1:second_deadlock_stack=1"


def san_env(extra=None):
    e = dict(os.environ)
    e.update(ASAN_OPTIONS=ASAN, UBSAN_OPTIONS=UBSAN, MSAN_OPTIONS=MSAN, TSAN_OPTIONS=TSAN,
             ASAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18", MSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18",
             TSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18", UBSAN_SYMBOLIZER_PATH="/usr/bin/llvm-symbolizer-18", LC_ALL="C", AT_DATE_ZERO="yes")
    e.pop("LOCPATH", None)
    if extra:
        e.update(extra)
    return e


def classify(stderr, rc):
    """-> (key, message, resource) for a process that died. resource: memory ran out, not a verdict."""
    txt = stderr
    kind = None
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", txt)
    if m:
        kind = m.group(1)
        if kind == "attempting":
            m2 = re.search(r"AddressSanitizer: attempting ([\w -]+?) on", txt)
            kind = (m2.group(1) if m2 else "attempting").replace(" ", "-")
    if not kind or kind in ("ABRT",):
        m = re.search(r"Assertion `([^']*)' failed", txt)
        if m:
            kind = "assert:" + re.sub(r"\s+", "", m.group(1))[:60]
    if not kind:
        m = re.search(r"runtime error: (.*)", txt)
        if m:
            kind = "ub:" + re.sub(r"[^a-z]+", "-", re.sub(r"0x[0-9a-f]+|-?\d[\d.e+-]*|'[^']*'", "", m.group(1)).lower()).strip("-")[:60]
    if not kind:
        m = re.search(r"WARNING: MemorySanitizer: ([\w-]+)|ERROR: MemorySanitizer: ([\w-]+)", txt)
        if m:
            kind = "msan:" + (m.group(1) or m.group(2))
    if not kind:
        m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", txt)
        if m:
            kind = "tsan:" + m.group(1).strip().replace(" ", "-")
    resource = False
    if kind and (kind.startswith("assert:") or "allocation-size-too-big" in kind or "out-of-memory" in kind or "rss-limit" in kind):
        resource = bool(re.search(r"failed to allocate|exceeds maximum supported size|allocation-size-too-big|out-of-memory|rss-limit", txt))
    fr = None
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(\S+) (/\S+?):(\d+)", txt):
        if m.group(2).startswith(vbuild.MIRROR + "/"):
            fr = "%s:%s" % (os.path.relpath(m.group(2), vbuild.MIRROR), m.group(1).split("(")[0])
            break
    if not fr:
        m = re.search(re.escape(vbuild.MIRROR) + r"/(\S+?):\d+:\d+: runtime error", txt)
        if m:
            fr = m.group(1)
    if not kind:
        kind = "signal-%d" % -rc if rc < 0 else "exit-%d" % rc
    key = kind + ("@" + fr if fr else "")
    first = ""
    for ln in txt.splitlines():
        if re.search(r"ERROR: |runtime error|WARNING: (Memory|Thread)San|Assertion", ln):
            first = ln.strip()
            break
    return key, first or txt.strip()[:200], resource


class Result:
    def __init__(self, prop):
        self.prop = prop
        self.known = {}           # text of a known finding -> number of times seen
        self.evals = 0
        self.hashes = set()
        self.violations = []      # dict(key, msg, replay dict)
        self.samples = []
        self.counters = {}
        self.inconclusive = []
        self.errors = []
        self.modes = {}
        self.lock = threading.Lock()
        self.cut_short = False

    def count(self, name, v=1):
        with self.lock:
            self.counters[name] = self.counters.get(name, 0) + v

    def sample(self, s):
        with self.lock:
            if len(self.samples) < 12 and s not in self.samples:
                self.samples.append(s)

    def violation(self, key, msg, **replay):
        """Returns False for a known finding."""
        k = match_known(self.prop, key, msg)
        with self.lock:
            if k:
                self.known[k] = self.known.get(k, 0) + 1
            elif len(self.violations) < 60:
                self.violations.append(dict(key=key, msg=msg, replay=replay))
        return not k


class Run:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.t0 = time.time()
        self.res = Result(prop)
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir="/var/tmp" if os.path.isdir("/var/tmp") else None)
        self.bdirs = {}

    @property
    def thorough(self):
        return self.tier == "thorough"

    def time_left(self):
        return SOFT_LIMIT - (time.time() - self.t0)

    def build(self, variant, targets=("vh",)):
        self.bdirs[variant] = vbuild.build(variant, targets)
        return self.bdirs[variant]

    # ---- harness modes ----
    def mode(self, variant, mode, n, arg="", cpu=40, per=None, env=None, stop_after=6, quiet=False):
        """Runs cases 0..n-1 of a mode; returns the hash each case computed."""
        if any(v["key"] == "hang" for v in self.res.violations):
            return {}         # the verdict is settled, and further cases would hang too
        bdir = self.bdirs.get(variant) or self.build(variant)
        vh = os.path.join(bdir, "vh")
        chunk = per or max(1, min(200, n // (NPROC * 3) or 1))
        todo = [(a, min(n, a + chunk)) for a in range(0, n, chunk)]
        todo.reverse()
        res = self.res
        st = dict(crashes=0, evals=0, nontrivial=set(), by_case={}, hung=False)
        lk = threading.Lock()
        tag = "%s/%s%s" % (variant, mode, "/" + arg if arg else "")

        def base_cmd(a, b, log, sd, cpu_):
            cmd = [vh, mode, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--log", log, "--scratch", sd, "--cpu", str(cpu_)]
            if self.thorough:
                cmd.append("--thorough")
            if arg:
                cmd += ["--arg", arg]
            return cmd

        def replay(c, cpu_):
            d = dict(cmd=base_cmd(c, c + 1, "/dev/stderr", "/tmp", cpu_) + ["-v"])
            if env:
                d["env"] = ["%s=%s" % kv for kv in sorted(env.items())]
            return d

        def one(a, b, sd, cpu_, depth=0):
            """Runs [a,b); returns the next case to run after a death, or b."""
            log = os.path.join(sd, "log")
            err = os.path.join(sd, "err")
            for f in (log, err):
                if os.path.exists(f):
                    os.unlink(f)
            with open(err, "wb") as ef, open(os.path.join(sd, "out"), "wb") as of:
                p = subprocess.Popen(base_cmd(a, b, log, sd, cpu_), stdout=of, stderr=ef, stdin=subprocess.DEVNULL, env=san_env(env), cwd=sd)
                last, t = -1, time.time()
                stuck = False
                while True:
                    try:
                        p.wait(timeout=2)
                        break
                    except subprocess.TimeoutExpired:
                        pass
                    if st["hung"]:
                        p.kill()
                        p.wait()
                        return b
                    sz = os.path.getsize(log) if os.path.exists(log) else 0
                    if sz != last:
                        last, t = sz, time.time()
                    elif time.time() - t > 60 + 2 * cpu_:
                        stuck = True
                        p.kill()
                        p.wait()
                        break
            rc = p.returncode
            began = None
            timed = stuck
            done = False
            viol = []
            try:
                lines = open(log, errors="replace").read().splitlines()
            except FileNotFoundError:
                lines = []
            for ln in lines:
                k = ln[:1]
                if k == "B":
                    began = int(ln[2:])
                elif k == "E":
                    _, c, h, nt = ln.split()
                    with lk:
                        st["evals"] += 1
                        st["by_case"][int(c)] = h
                        if nt == "1":
                            st["nontrivial"].add(h)
                    began = None
                elif k == "V":
                    _, c, key, *rest = ln.split(" ", 3)
                    viol.append((int(c), key, rest[0] if rest else ""))
                elif k == "S":
                    res.sample("[%s] %s" % (tag, ln[2:]))
                elif k == "N":
                    _, nm, v = ln.split(" ", 2)
                    res.count(nm, float(v))
                elif k == "T":
                    timed = True
                elif k == "X":
                    with res.lock:
                        res.errors.append("%s: %s" % (tag, ln[2:]))
                elif k == "D":
                    done = True
            for c, key, msg in viol:
                if res.violation(key, msg, **replay(c, cpu_)):
                    with lk:
                        st["crashes"] += 1
            if done:
                return b
            if rc in (98, 99):
                with res.lock:
                    if not res.errors:
                        res.errors.append("%s: harness ended with %d" % (tag, rc))
                return b
            bad = began if began is not None else a
            if timed:
                if depth == 0:
                    # a timeout is no verdict: run that case alone once more with three times the time
                    res.count("cases_run_again_with_more_time")
                    one(bad, bad + 1, sd, cpu_ * 3, 1)
                    return bad + 1
                if res.violation("hang", "case %d did not end within %d s of CPU time, twice" % (bad, cpu_), **replay(bad, cpu_)):
                    st["hung"] = True
                return b
            txt = open(err, errors="replace").read()
            if any(k == "exit-called" for _, k, _ in viol):
                return bad + 1
            key, msg, resource = classify(txt, rc)
            if resource:
                with res.lock:
                    res.inconclusive.append("%s case %d: memory limit" % (tag, bad))
            else:
                m = re.search(r"ERROR: \w+Sanitizer|WARNING: \w+Sanitizer|runtime error:|Assertion `", txt)
                at = max(0, m.start() - 500) if m else max(0, len(txt) - 6000)
                if res.violation(key, msg, stderr=txt[at:at + 6000], **replay(bad, cpu_)):
                    with lk:
                        st["crashes"] += 1
            return bad + 1

        def worker(i):
            sd = os.path.join(self.scratch, "%s-%s-%d" % (variant, mode, i))
            os.makedirs(sd, exist_ok=True)
            while True:
                with lk:
                    if not todo or st["hung"] or st["crashes"] >= stop_after or res.errors:
                        break
                    if self.time_left() < 0:
                        res.cut_short = True
                        break
                    a, b = todo.pop()
                while a < b:
                    with lk:
                        if st["hung"] or st["crashes"] >= stop_after or res.errors:
                            break
                    a = one(a, b, sd, cpu)
            shutil.rmtree(sd, ignore_errors=True)

        ths = [threading.Thread(target=worker, args=(i,)) for i in range(NPROC)]
        for t in ths:
            t.start()
        for t in ths:
            t.join()
        if quiet:         # only a helper: its cases are not evaluations
            return st["by_case"]
        with res.lock:
            res.evals += st["evals"]
            res.hashes |= {tag.split("/")[1] + h for h in st["nontrivial"]}
            res.modes[tag] = dict(cases=st["evals"], distinct_nontrivial=len(st["nontrivial"]), requested=n)
        return st["by_case"]

    # ---- verdict ----
    def finish(self, rule, assumptions=()):
        res = self.res
        shutil.rmtree(self.scratch, ignore_errors=True)
        fresh = res.violations
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level=self.level,
                  coverage=dict(evaluations=res.evals, distinct_nontrivial=len(res.hashes), rule=rule, samples=res.samples[:12],
                                observed={k: (int(v) if v == int(v) else round(v, 3)) for k, v in sorted(res.counters.items())},
                                modes=res.modes, inconclusive=len(res.inconclusive), inconclusive_examples=res.inconclusive[:5], cut_short=res.cut_short),
                  assumptions=list(assumptions), violations=len(fresh),
                  violated=[dict(key=v["key"], message=v["msg"][:500]) for v in fresh][:20],
                  wall_s=round(time.time() - self.t0, 2))
        os.makedirs(os.path.join(VERIF, "evidence", "replay"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", self.prop + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(VERIF, "evidence", self.prop + ".json"))
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d inconclusive, %.1f s" %
              (self.prop, self.tier, self.seed, res.evals, len(res.hashes), len(res.inconclusive), time.time() - self.t0))
        for k, v in sorted(ev["coverage"]["observed"].items()):
            print("  %s = %s" % (k, v))
        for k in sorted(res.known):
            print("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        if fresh:
            path = os.path.join(VERIF, "evidence", "replay", "%s-%s-%d.txt" % (self.prop, self.tier, self.seed))
            with open(path, "w") as f:
                for v in fresh:
                    f.write("key: %s\nmessage: %s\n" % (v["key"], v["msg"]))
                    for a, b in v["replay"].items():
                        f.write("%s: %s\n" % (a, " ".join(map(str, b)) if isinstance(b, (list, tuple)) else b))
                    f.write("\n")
            shown = set()
            for v in fresh:
                if v["key"] not in shown and len(shown) < 10:
                    shown.add(v["key"])
                    print("  violated: %s: %s" % (v["key"], v["msg"][:300]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
            sys.exit(1)
        if res.errors:
            print("ERROR of the check: " + "; ".join(res.errors[:3]))
            sys.exit(2)
        if res.evals == 0 or not res.hashes:
            print("ERROR of the check: nothing was observed")
            sys.exit(2)
        sys.exit(0)


def match_known(prop, key, msg):
    """Known findings are matched by property, the violation's key and a pattern on its message."""
    path = os.path.join(VERIF, "known-findings.txt")
    if not os.path.exists(path):
        return None
    for ln in open(path):
        m = re.match(r"known: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", ln.strip())
        if m and m.group(1) == prop and re.fullmatch(m.group(2), key) and re.search(m.group(3), msg):
            return m.group(4)
    return None
