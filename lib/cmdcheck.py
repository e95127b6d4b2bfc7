"""Drives the command and compares it with the library and with what must fail."""
import concurrent.futures, os, random, resource, shutil, signal, subprocess
from vrun import NPROC, classify, san_env

FLOATS = {"corner-always-threshold": (0, 180), "corner-threshold": (0, 180), "despeckle-tightness": (0, 8), "error-threshold": (0.05, 8),
          "line-reversion-threshold": (0, 2), "line-threshold": (0, 4), "noise-removal": (0, 1), "width-weight-factor": (0, 10)}
UNSIGNED = {"color-count": (1, 12), "corner-surround": (1, 8), "despeckle-level": (1, 20), "filter-iterations": (0, 8), "tangent-surround": (1, 8)}
FLAGS = ["centerline", "preserve-width", "remove-adjacent-corners", "remove-knees"]
OTHER = ["align-threshold", "background-color", "debug-arch", "debug-bitmap", "charcode", "dpi", "help", "input-format", "list-output-formats", "list-input-formats", "log",
         "output-file", "output-format", "range", "report-progress", "version"]
NAMES = list(FLOATS) + list(UNSIGNED) + FLAGS + OTHER
DOCUMENTED = [n for n in NAMES if n not in ("align-threshold", "range")]
OUT = "eps ai p2e sk svg ugs fig emf mif er dxf epd pdf cgm dr2d pov plt ild".split()
ENC = ["pnm", "bmp", "tga", "png", "gf"]          # readers of the harness's encoders


def spelled(rnd, name, value=None):
    """One way of writing an option on the command line."""
    n = name
    if rnd.random() < 0.25:
        for k in range(1, len(name)):
            if sum(x.startswith(name[:k]) for x in NAMES) == 1:
                n = name[:rnd.randint(k, len(name))]
                break
    dash = rnd.choice(["-", "--"])
    if value is None:
        return [dash + n]
    return [dash + n + "=" + value] if rnd.random() < 0.5 else [dash + n, value]


def num(rnd, lo, hi):
    v = rnd.uniform(lo, hi)
    return rnd.choice(["%.3g" % v, "%.6f" % v, "%d" % round(v), "%.2e" % v])


class Driver:
    def __init__(self, run, bdir):
        self.run, self.res = run, run.res
        self.exe = os.path.join(bdir, "repo", "autotrace")
        self.dir = os.path.join(run.scratch, "cmd")
        os.makedirs(self.dir, exist_ok=True)

    def library(self, jobs):
        """Runs the jobs through the library; fills in status, charcode, why and output of each."""
        path = os.path.join(self.dir, "jobs")
        with open(path, "w") as f:
            for j in jobs:
                f.write("\t".join("%s=%s" % (k, v) for k, v in j.items()) + "\n")
        self.run.mode("asan", "job", len(jobs), arg=path, per=max(1, min(50, len(jobs) // NPROC or 1)), quiet=True)
        out = []
        for j in jobs:
            d = dict(status="none", charcode="0", why="", data=b"")
            try:
                t = open(j["out"] + ".status", errors="replace").read().split("\n", 2)
                d.update(status=t[0], charcode=t[1], why=t[2].strip())
                if t[0] == "ok":
                    d["data"] = open(j["out"], "rb").read()
            except OSError:
                pass
            out.append(d)
        return out

    def command(self, args, cwd, stdout=None, limit=None, timeout=50, close_stdout=False):
        """-> (rc, stdout bytes, stderr text). limit: no file may grow beyond so many bytes. None when it did not end twice."""
        def prep():
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            if close_stdout:
                os.close(1)
        for t in (timeout, 3 * timeout):
            try:
                p = subprocess.run([self.exe] + args, cwd=cwd, stdin=subprocess.DEVNULL, stdout=stdout or subprocess.PIPE, stderr=subprocess.PIPE, env=san_env(), timeout=t,
                                   preexec_fn=prep if limit is not None or close_stdout else None)
                return p.returncode, p.stdout or b"", p.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                if stdout and hasattr(stdout, "truncate"):
                    stdout.seek(0)
                    stdout.truncate()
        return None, b"", ""

    def judge_end(self, rc, err, args, what):
        """Ends normally? -> False when a violation was reported."""
        line = " ".join(args)
        if rc is None:
            self.res.violation("hang", "%s: autotrace %s does not end" % (what, line), args=args)
            return False
        if rc < 0 or rc in (86, 134, 139) or "AddressSanitizer" in err or "runtime error:" in err:
            key, msg, resource_ = classify(err, rc)
            if resource_:
                with self.res.lock:
                    self.res.inconclusive.append("%s: memory limit" % line)
                return False
            self.res.violation(key, "%s: autotrace %s: %s" % (what, line, msg), args=args, stderr=err[:4000])
            return False
        if rc != 0 and not err.strip():
            self.res.violation("silent-failure", "%s: autotrace %s ended with %d without a message" % (what, line, rc), args=args)
            return False
        return True

    def parallel(self, fn, items):
        def guarded(x):
            if self.run.time_left() < 0:
                self.res.cut_short = True
            elif len(self.res.violations) < 20 and not any(v["key"] == "hang" for v in self.res.violations):
                fn(x)
        with concurrent.futures.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(guarded, items))


def conversion(rnd, d, k, draw=0.8, opts=True):
    """A command line that converts, and the job that says what the library does for it."""
    cwd = os.path.join(d, "c%d" % k)
    os.makedirs(cwd, exist_ok=True)
    job = dict(seed=rnd.getrandbits(48))
    if rnd.random() < draw:
        job["kind"] = "draw"
        fmt = rnd.choice(["pnm", "ppm", "pgm", "PPM"])
    else:
        e = rnd.randrange(len(ENC))
        job["kind"] = str(e)
        fmt = ENC[e]
    # one option whose effect should show, and what it needs for that
    focus = rnd.choice([None] + list(FLOATS) + list(UNSIGNED) + FLAGS + ["background-color", "dpi", "charcode"]) if opts else None
    need = {"preserve-width": ["centerline"], "width-weight-factor": ["centerline", "preserve-width"], "despeckle-tightness": ["despeckle-level"], "noise-removal": ["despeckle-level"]}.get(focus, [])
    few = rnd.random() < 0.6
    if focus == "charcode":
        job["kind"], fmt = "4", "gf"
    elif focus in ("despeckle-tightness", "noise-removal", "despeckle-level", "color-count"):
        job["kind"], fmt = "noise", rnd.choice(["pnm", "ppm"])
    args = []
    name = rnd.choice(["in", "pic.a", "a b", "x-y_z"])
    if rnd.random() < 0.3:
        args.append(spelled(rnd, "input-format", rnd.choice([fmt, fmt.upper()])))
        name += rnd.choice(["", ".dat", "." + fmt, ".svg"])
    else:
        name += "." + rnd.choice([fmt, fmt.upper()])
    job.update(**{"in": os.path.join(cwd, name), "informat": fmt.lower()})
    if opts:
        def given(o, p):
            return o == focus or o in need or rnd.random() < (p * 0.3 if few and focus else p)
        for o, (lo, hi) in FLOATS.items():
            if given(o, 0.22):
                vs = [num(rnd, lo, hi) for _ in range(2 if rnd.random() < 0.15 else 1)]
                args += [spelled(rnd, o, v) for v in vs]
                job[o] = vs[-1]
        for o, (lo, hi) in UNSIGNED.items():
            if given(o, 0.22):
                vs = [str(rnd.randint(lo, hi)) for _ in range(2 if rnd.random() < 0.15 else 1)]
                args += [spelled(rnd, o, v) for v in vs]
                job[o] = vs[-1]
        for o in FLAGS:
            if given(o, 0.3):
                args += [spelled(rnd, o)] * (2 if rnd.random() < 0.1 else 1)
                job[o] = "1"
        if given("background-color", 0.4) or need == ["centerline"]:
            vs = [rnd.choice(["FFFFFF", "ffffff", "000000", "%06x" % rnd.getrandbits(24), "%06X" % rnd.getrandbits(24)]) for _ in range(2 if rnd.random() < 0.1 else 1)]
            if job["kind"] == "draw" and rnd.random() < 0.5:
                vs[-1] = "FFFFFF"
            args += [spelled(rnd, "background-color", v) for v in vs]
            job["background-color"] = vs[-1]
    if opts and given("dpi", 0.3):
        job["dpi"] = str(rnd.randint(1, 600))
        args.append(spelled(rnd, "dpi", job["dpi"]))
    if job["kind"] == "4":
        job["charcode"] = "auto"
        args.append(("charcode",))
    elif rnd.random() < 0.05:
        job["charcode"] = rnd.choice(["65", "0x41"])
        args.append(spelled(rnd, "charcode", job["charcode"]))
    of = rnd.choice(OUT) if rnd.random() < 0.3 else {"dpi": "mif", "preserve-width": "er", "width-weight-factor": "er"}.get(focus) or rnd.choice(OUT)
    how = rnd.choice(["format", "suffix", "both", "default"])
    out = ""
    if how == "suffix":
        out = "out." + rnd.choice([of, of.upper()])
    elif how == "both":
        out = rnd.choice(["out.svg", "out", "out.xyz", "o.p.eps", "x.y/out"])
    elif how == "default":
        of = "eps"
        out = rnd.choice(["", "", "out", "out.xyz", "x.svg/out", "out."])
    elif rnd.random() < 0.3:
        out = "result"
    if how in ("format", "both"):
        if rnd.random() < 0.1:
            args.append(spelled(rnd, "output-format", rnd.choice(OUT)))
        args.append(spelled(rnd, "output-format", rnd.choice([of, of.upper()])))
    if out:
        if rnd.random() < 0.05:
            args.append(spelled(rnd, "output-file", "other.eps"))
        args.append(spelled(rnd, "output-file", out))
        if "/" in out:
            os.makedirs(os.path.join(cwd, os.path.dirname(out)), exist_ok=True)
    job.update(outformat=of, name=out, out=os.path.join(cwd, "expected"))
    # options may come in any order, also after the input; repeated ones keep theirs
    keyed = {}
    for i, a in enumerate(args):
        keyed.setdefault(a[0].lstrip("-").split("=")[0][:1], []).append(i)
    order = list(range(len(args)))
    rnd.shuffle(order)
    for idx in keyed.values():
        for pos, i in zip(sorted(order.index(i) for i in idx), sorted(idx)):
            order[pos] = i
    args = [args[i] for i in order]
    args.insert(rnd.randint(0, len(args)), [name])
    return dict(cwd=cwd, args=args, job=job, out=out, fmt=of, focus=focus)


def flat(case, lib):
    """The argument list once the character code is known."""
    out = []
    for a in case["args"]:
        out += ["-charcode", lib["charcode"]] if a == ("charcode",) else a
    return out


def options(run, bdir, n):
    """C21"""
    rnd = random.Random(run.seed * 1000003 + 21)
    d = Driver(run, bdir)
    cases = [conversion(rnd, d.dir, k) for k in range(n)]
    # what would the result be without one of the options: shows that the option matters in this case
    extra = []
    for c in cases:
        cand = [o for o in c["job"] if o in FLOATS or o in UNSIGNED or o in FLAGS or o in ("background-color", "dpi", "charcode")]
        c["dropped"] = c["focus"] if c["focus"] in cand else rnd.choice(cand) if cand else None
        c["also"] = [o for o in ("report-progress", "debug-bitmap", "log") if rnd.random() < 0.12 and (o != "log" or c["out"])]
        j = dict(c["job"])
        j.pop("seed"), j.pop("kind")
        if c["dropped"]:
            j.pop(c["dropped"])
        j["out"] = os.path.join(c["cwd"], "without")
        extra.append(j)
    libs = d.library([c["job"] for c in cases])
    # the character code to use is known only now
    for j, l in zip(extra, libs):
        if j.get("charcode") == "auto":
            j["charcode"] = l["charcode"]
    without = d.library(extra)

    def one(t):
        c, lib, wo = t
        if run.time_left() < 0:
            run.res.cut_short = True
            return
        if lib["status"] in ("skip", "none"):
            run.res.count("skipped")
            return
        args = flat(c, lib)
        for o in c["also"]:
            args.insert(0, "-" + o)
        rc, out, err = d.command(args, c["cwd"])
        if not d.judge_end(rc, err, args, "conversion"):
            return
        line = " ".join(args)
        run.res.count("commands")
        if lib["status"] != "ok":
            if rc == 0:
                run.res.violation("success-without-result", "autotrace %s ended with 0, but the library fails: %s" % (line, lib["why"]), args=args)
            run.res.count("commands_failing")
            return
        if rc != 0:
            run.res.violation("failure", "autotrace %s ended with %d: %s" % (line, rc, err.strip()[-200:]), args=args)
            return
        if c["out"]:
            try:
                data = open(os.path.join(c["cwd"], c["out"]), "rb").read()
            except OSError:
                run.res.violation("no-output", "autotrace %s wrote no %s" % (line, c["out"]), args=args)
                return
        else:
            data = out
        run.res.count("bytes_compared", len(data))
        run.res.count("written_to_file" if c["out"] else "written_to_stdout")
        if data != lib["data"]:
            k = next((i for i in range(min(len(data), len(lib["data"]))) if data[i] != lib["data"][i]), min(len(data), len(lib["data"])))
            run.res.violation("differs-from-library", "autotrace %s: %d bytes, the library gives %d, the first difference is at %d: %r for %r" % (line, len(data), len(lib["data"]), k, data[k:k + 30], lib["data"][k:k + 30]), args=args)
            return
        if "report-progress" in c["also"]:
            run.res.count("progress_reports")
            if "|" not in err:
                run.res.violation("no-progress", "autotrace %s reported no progress" % line, args=args)
        if "debug-bitmap" in c["also"]:
            run.res.count("bitmap_dumps")
            known = {os.path.basename(c["job"]["in"]), "expected", "expected.status", "without", "without.status", c["out"].split("/")[0]}
            new = [f for f in os.listdir(c["cwd"]) if f not in known]
            if not any(open(os.path.join(c["cwd"], f), "rb").read(2) in (b"P5", b"P6") for f in new if os.path.isfile(os.path.join(c["cwd"], f))):
                run.res.violation("no-dump", "autotrace %s dumped no bitmap" % line, args=args)
        with run.res.lock:
            run.res.evals += 1
            run.res.hashes.add(("c", line, data[:4000]))
        if c["dropped"]:
            run.res.count("given_" + c["dropped"])
            if wo["status"] == "ok" and wo["data"] != lib["data"]:
                run.res.count("mattered_" + c["dropped"])
        run.res.sample("autotrace %s -> %d bytes of %s, equal to the library's" % (line, len(data), c["fmt"]))
        shutil.rmtree(c["cwd"], ignore_errors=True)
    d.parallel(one, list(zip(cases, libs, without)))
    # the log must not get into the drawing
    c = conversion(rnd, d.dir, n, draw=1, opts=False)
    c["job"].update(outformat="svg", name="")
    lib = d.library([c["job"]])[0]
    args = ["-log", "-output-format", "svg", "-input-format", c["job"]["informat"], os.path.basename(c["job"]["in"])]
    rc, out, err = d.command(args, c["cwd"])
    if d.judge_end(rc, err, args, "log") and lib["status"] == "ok" and out != lib["data"]:
        run.res.violation("log-on-standard-output", "autotrace -log writes its log on standard output, between the lines of the drawing", args=args)
    for f in FLAGS + list(FLOATS) + list(UNSIGNED) + ["background-color", "dpi", "charcode"]:
        run.res.count("mattered_" + f, 0)


def information(run, d):
    """The options that only print something."""
    rnd = random.Random(run.seed)
    for o, want in (("help", ["-" + n if False else n for n in DOCUMENTED]), ("version", ["utotrace", "1"]), ("debug-arch", ["bit", "endian"]), ("list-input-formats", ["bmp", "pnm", "tga"]), ("list-output-formats", ["svg", "eps", "dxf"])):
        for args in (["-" + o], ["--" + o], spelled(rnd, o), ["-" + o, "-centerline"] if o != "version" else ["-centerline", "-" + o], ["-report-progress", "-debug-bitmap", "-log", "-" + o], ["-" + o, "-log", "-debug-bitmap"]):
            rc, out, err = d.command(args, d.dir)
            if not d.judge_end(rc, err, args, "information"):
                continue
            text = (out.decode(errors="replace") + err)
            missing = [w for w in want if w.lower() not in text.lower()]
            if rc != 0:
                d.res.violation("failure", "autotrace %s ended with %d: %s" % (" ".join(args), rc, err.strip()[-200:]), args=args)
            elif missing:
                d.res.violation("information-missing", "autotrace %s does not mention %s" % (" ".join(args), ", ".join(missing[:8])), args=args)
            d.res.count("information_printed")
            with d.res.lock:
                d.res.evals += 1
                d.res.hashes.add(("i",) + tuple(args))


def endings(run, bdir, n):
    """C20"""
    rnd = random.Random(run.seed * 1000003 + 20)
    d = Driver(run, bdir)
    information(run, d)
    cases = []
    for k in range(n):
        c = conversion(rnd, d.dir, k, draw=0.5, opts=rnd.random() < 0.3)
        if c["job"]["kind"] != "draw" and rnd.random() < 0.6:
            c["job"]["damage"] = "1"
        cases.append(c)
    libs = d.library([c["job"] for c in cases])
    full = os.path.exists("/dev/full") and not os.path.isfile("/dev/full")
    res = run.res

    def must_fail(c, args, what, **kw):
        rc, out, err = d.command(args, c["cwd"], **kw)
        if not d.judge_end(rc, err, args, what):
            return
        res.count("faults")
        res.count("fault_" + what.replace(" ", "_"))
        with res.lock:
            res.evals += 1
            res.hashes.add((what, c["fmt"], " ".join(args)))
        if rc == 0:
            res.violation("success-in-spite-of:" + what.replace(" ", "-"), "autotrace %s ended with 0 in spite of %s" % (" ".join(args), what), args=args)
        else:
            res.sample("%s: autotrace %s ended with %d: %s" % (what, " ".join(args), rc, err.strip().splitlines()[-1][:80] if err.strip() else ""))

    def one(t):
        c, lib = t
        if run.time_left() < 0:
            res.cut_short = True
            return
        if lib["status"] in ("skip", "none"):
            res.count("skipped")
            return
        r = random.Random(c["job"]["seed"])
        args = flat(c, lib)
        rc, out, err = d.command(args, c["cwd"])
        if not d.judge_end(rc, err, args, "conversion"):
            return
        line = " ".join(args)
        res.count("conversions" if lib["status"] == "ok" else "conversions_the_library_refuses")
        if lib["status"] != "ok":
            if rc == 0:
                res.violation("success-without-result", "autotrace %s ended with 0, but the library fails: %s" % (line, lib["why"]), args=args)
        else:
            outp = os.path.join(c["cwd"], c["out"]) if c["out"] else None
            data = out if not outp else open(outp, "rb").read() if os.path.exists(outp) else None
            if rc != 0:
                res.violation("failure", "autotrace %s ended with %d: %s" % (line, rc, err.strip()[-200:]), args=args)
            elif data != lib["data"]:
                res.violation("incomplete", "autotrace %s ended with 0 but left %s bytes of %d" % (line, None if data is None else len(data), len(lib["data"])), args=args)
        with res.lock:
            res.evals += 1
            res.hashes.add((line, lib["data"][:2000]))
        # one fault on top of it
        base = list(args)
        name = os.path.basename(c["job"]["in"])
        i = max(k for k, a in enumerate(base) if a == name)
        pos_ok = base.count(name) == 1
        ok = lib["status"] == "ok"
        N = len(lib["data"])
        kind = r.choice(["room", "room", "room", "stdout room", "full", "closed", "missing input", "directory input", "empty input", "no input", "two inputs", "unknown option", "unknown input format", "unknown output format",
                         "option without value", "missing directory", "output is a directory", "bad colour", "negative number", "ambiguous option", "unknown suffix", "no suffix"])
        noout = [a for k, a in enumerate(base) if not (a.lstrip("-").startswith("output-f") or a.lstrip("-").startswith("out"))]
        fmt = c["fmt"]
        plain = [name, "-output-format", fmt, "-input-format", c["job"]["informat"]] + (["-charcode", lib["charcode"]] if "charcode" in c["job"] and c["job"]["kind"] == "4" else [])
        if not pos_ok:
            return
        if kind in ("room", "stdout room") and ok and N:
            # the same conversion with room for fewer bytes than it needs
            room = r.choice([0, 1, N - 1, N // 2, r.randrange(N), max(0, N - 4096), min(N - 1, 4096)])
            if c["out"]:
                must_fail(c, base, "a full device", limit=room)
            else:
                with open(os.path.join(c["cwd"], "stdout"), "w+b") as f:
                    must_fail(c, base, "a full device on standard output", limit=room, stdout=f)
                    f.seek(0)
                    f.truncate()
                # and with just enough
                with open(os.path.join(c["cwd"], "stdout2"), "w+b") as f:
                    rc, _, err = d.command(base, c["cwd"], limit=N, stdout=f)
                    if d.judge_end(rc, err, base, "just enough room") and (rc != 0 or os.path.getsize(f.name) != N):
                        res.violation("failure", "autotrace %s ended with %s although there was room for all %d bytes" % (line, rc, N), args=base)
        elif kind == "full" and full and ok and N:
            with open("/dev/full", "wb") as f:
                must_fail(c, plain, "a full device on standard output", stdout=f)
            must_fail(c, plain + ["-output-file", "/dev/full"], "a full device")
        elif kind == "closed" and ok and N:
            must_fail(c, plain, "a closed standard output", close_stdout=True)
        elif kind == "missing input":
            base[i] = r.choice(["nothere.bmp", "no/such/dir/x.png", "nothere.pnm", "nothere.tga", "nothere.gf", "nothere.ppm"])
            must_fail(c, [a for a in base if "input-format" not in a], "a missing input") if not any(a.lstrip("-").startswith("i") for a in base) else must_fail(c, base, "a missing input")
        elif kind == "directory input":
            sub = "dir." + r.choice(["bmp", "png", "pnm", "tga", "gf", "pgm"])
            os.makedirs(os.path.join(c["cwd"], sub), exist_ok=True)
            must_fail(c, [sub, "-output-format", fmt], "a directory as input")
        elif kind == "empty input":
            sub = "empty." + r.choice(["bmp", "png", "pnm", "tga", "gf", "pgm"])
            open(os.path.join(c["cwd"], sub), "wb").close()
            must_fail(c, [sub, "-output-format", fmt], "an empty input")
        elif kind == "no input":
            del base[i]
            must_fail(c, base, "no input")
        elif kind == "two inputs":
            base.append(name)
            must_fail(c, base, "two inputs")
        elif kind == "unknown option":
            base.insert(r.randrange(len(base) + 1) if r.random() < 0 else 0, r.choice(["-zoom", "--nothing", "-centreline", "-x", "--version1", "-colour-count=3", "-output", "-q"]))
            must_fail(c, base, "an unknown option")
        elif kind == "unknown input format":
            must_fail(c, plain + ["-input-format", r.choice(["jpg", "xyz", "svg", "", "bmpp", ".bmp"])], "an unknown input format")
        elif kind == "unknown output format":
            must_fail(c, plain + ["-output-format", r.choice(["jpg", "xyz", "bmp", "", "svgz", ".svg"])], "an unknown output format")
        elif kind == "option without value":
            must_fail(c, plain + ["-" + r.choice(list(FLOATS) + list(UNSIGNED) + ["background-color", "charcode", "dpi", "output-file", "output-format", "input-format"])], "an option without value")
        elif kind == "missing directory":
            must_fail(c, plain + ["-output-file", "no/such/dir/out." + fmt], "an output in a missing directory")
        elif kind == "output is a directory":
            os.makedirs(os.path.join(c["cwd"], "dir." + fmt), exist_ok=True)
            must_fail(c, plain + ["-output-file", "dir." + fmt], "a directory as output")
        elif kind == "bad colour":
            must_fail(c, plain + ["-background-color", r.choice(["FFF", "white", "#FFFFFF", "GGGGGG", "FFFFFFF", "12345", "0x1234", "zzzzzz", "12 456"])], "a colour that is none")
        elif kind == "negative number":
            must_fail(c, plain + ["-" + r.choice(list(UNSIGNED) + ["dpi"]), "-3"], "a negative number")
        elif kind == "ambiguous option":
            must_fail(c, [r.choice(["-corner", "-c", "-de", "--line", "-list", "-remove", "-despeckle=3", "-o", "-in" if False else "-l"])] + plain, "an ambiguous option")
        elif kind == "unknown suffix":
            shutil.copy(c["job"]["in"], os.path.join(c["cwd"], "pic.xyz"))
            must_fail(c, ["pic.xyz", "-output-format", fmt], "an unsupported input suffix")
        elif kind == "no suffix":
            shutil.copy(c["job"]["in"], os.path.join(c["cwd"], "picture"))
            must_fail(c, ["picture", "-output-format", fmt], "an input without suffix")
        shutil.rmtree(c["cwd"], ignore_errors=True)
    d.parallel(one, list(zip(cases, libs)))
