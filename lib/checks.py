"""The checks, one function per property."""
import os, shutil, subprocess, sys, traceback
import cmdcheck, vbuild
from vrun import ASAN, Run, san_env

CHECKS = {}


def check(prop, level):
    def deco(fn):
        CHECKS[prop] = (fn, level)
        return fn
    return deco


def q(run, quick, thorough):
    return thorough if run.thorough else quick


@check("C01", "exploration")
def c01(run):
    run.mode("asan", "read", q(run, 40000, 400000))
    run.mode("asan", "fields", q(run, 12000, 100000))
    run.mode("msan", "read", q(run, 20000, 200000))
    run.mode("msan", "fields", q(run, 2500, 25000))
    run.finish("a case counts when a non-empty file reached a reader and the returned bitmap was inspected; distinct by reader and file bytes",
               ["memory for the declared image size can be obtained (allocations over 700 MB are refused and count as inconclusive)"])


@check("C02", "exploration")
def c02(run):
    run.mode("asan", "decode", q(run, 40000, 400000))
    run.finish("a case counts when a well-formed file was decoded and every pixel compared with what was encoded; distinct by file bytes")


@check("C03", "fault_enumeration")
def c03(run):
    run.mode("asan", "truncated", q(run, 12000, 120000))
    run.finish("a case is a file cut at its sampled or all cut points, a missing, foreign or directory input, or an intact control; distinct by file bytes")


@check("C04", "exploration")
def c04(run):
    run.mode("asan", "trace", q(run, 4000, 60000))
    run.mode("msan", "trace", q(run, 1500, 20000))
    run.finish("a case counts when the traced bitmap gave at least one spline list; distinct by bitmap, options and splines",
               ["memory can be obtained (allocations over 700 MB are refused)"])


@check("C05", "exploration")
def c05(run):
    run.mode("asan", "shape", q(run, 8000, 120000))
    run.finish("a case counts when the trace returned at least one list and every list and spline was inspected; distinct by bitmap and options")


@check("C06", "exploration")
def c06(run):
    run.mode("asan", "paint", q(run, 15000, 200000))
    run.finish("a case counts when at least one pixel lay further from every boundary than the tolerance and was compared with what the painted outlines give; distinct by bitmap and options")


@check("C07", "exploration")
def c07(run):
    run.mode("asan", "bound", q(run, 15000, 200000))
    run.finish("a case counts when outlines were returned and measured against every boundary point; distinct by bitmap and options")


@check("C08", "exploration")
def c08(run):
    run.mode("asan", "center", q(run, 30000, 400000))
    run.finish("a case counts when at least one stroke was thinned and its topology, thickness and curves were compared; distinct by bitmap and options")


@check("C09", "exploration")
def c09(run):
    run.mode("asan", "quant", q(run, 3000, 40000))
    run.finish("a case counts when the bitmap had more than one colour and its mapping was compared pixel by pixel; distinct by bitmap, colour count and background")


@check("C10", "exploration")
def c10(run):
    run.mode("asan", "despeckle", q(run, 60000, 800000))
    run.finish("a case counts when a pixel changed or an isolated speckle with a computed outcome was compared; distinct by bitmap and options")


@check("C11", "fault_enumeration")
def c11(run):
    run.mode("asan", "cancel", q(run, 1500, 20000))
    run.finish("a case is one bitmap and option set traced once per poll index (all, or a sample when there are more than 40, 120 in the thorough tier); distinct by bitmap and options")


@check("C12", "exploration")
def c12(run):
    run.mode("asan", "progress", q(run, 8000, 100000))
    run.finish("a case counts when more than one notification was observed; distinct by bitmap and options")


@check("C13", "exploration")
def c13(run):
    run.mode("asan", "hist", q(run, 4000, 60000), per=100)
    # the same calls in processes whose fresh and freed memory holds different bytes
    n = q(run, 16000, 200000)
    fills = [run.mode("asan", "digest", n, arg=a, per=500, env={"ASAN_OPTIONS": ASAN + ":max_malloc_fill_size=65536:malloc_fill_byte=%d:max_free_fill_size=65536:free_fill_byte=%d" % (b, b)})
             for a, b in (("a", 0), ("b", 255 - run.seed % 64))]
    for case in sorted(fills[0].keys() & fills[1].keys()):
        run.res.count("calls_compared_over_heap_contents")
        if fills[0][case] != fills[1][case]:
            run.res.violation("depends-on-heap-contents", "case %d of mode digest gives different results when unused memory holds different bytes" % case, mode="digest", case=case)
    run.finish("a case is a history of up to 17 calls, each compared with the same call in a fresh process, or one call compared between two processes with different heap contents; distinct by the results",
               ["the date is fixed by AT_DATE_ZERO"])


@check("C14", "exploration")
def c14(run):
    run.mode("asan", "args", q(run, 80000, 900000), per=1000)
    env = comma_locale(run)
    if env:
        run.mode("asan", "args", q(run, 16000, 200000), arg="locale", env=env, per=1000)
    run.finish("a case counts when a call was made or copies were compared and all arguments were compared before and after; distinct by the results")


@check("C15", "fault_enumeration")
def c15(run):
    run.mode("asan", "leak", q(run, 4000, 60000))
    run.mode("asan", "faults", q(run, 4000, 40000))
    run.finish("a case reads one file cut or damaged in many ways, or writes one drawing to streams failing at many places, or repeats one to three calls four times and compares live memory and descriptors, and cancels traces at each poll (16 of them, 60 in the thorough tier); distinct by the results")


@check("C16", "exploration")
def c16(run):
    run.mode("asan", "write", q(run, 18000, 300000))
    run.mode("msan", "write", q(run, 7000, 100000))
    run.finish("a case counts when a spline set with at least one list was written and the writer produced bytes; distinct by format and splines",
               ["dpi is at least 1", "memory can be obtained"])


def other_locale(run, name, charset="UTF-8"):
    """Compiles a locale into the scratch directory; None where that is not possible."""
    d = os.path.join(run.scratch, "locale")
    os.makedirs(d, exist_ok=True)
    full = "%s.%s" % (name, charset)
    r = subprocess.run(["localedef", "-c", "-i", name, "-f", charset, os.path.join(d, full)], capture_output=True) if shutil.which("localedef") else None
    return {"LOCPATH": d, "LC_ALL": full} if r is not None and os.path.isdir(os.path.join(d, full)) else None


def comma_locale(run):
    return other_locale(run, "de_DE")


@check("C17", "exploration")
def c17(run):
    run.mode("asan", "curves", q(run, 48000, 900000), per=1000)
    env = comma_locale(run)
    if env:
        run.mode("asan", "curves", q(run, 24000, 200000), arg="locale", env=env, per=1000)
    run.finish("a case counts when a file was read back and at least one spline compared with the one written; distinct by format and splines",
               ["holes are painted in the background colour by the formats that paint every list by itself"] + ([] if env else ["no locale with a decimal comma could be compiled"]))


@check("C18", "exploration")
def c18(run):
    run.mode("asan", "polylines", q(run, 24000, 500000), per=500)
    env = comma_locale(run)
    if env:
        run.mode("asan", "polylines", q(run, 6000, 100000), arg="locale", env=env, per=500)
    run.finish("a case counts when a file was read back and its points were matched against the splines; distinct by format and splines",
               ["drawings so small that the points can be read in more than 64 ways are not judged"])


@check("C19", "exploration")
def c19(run):
    run.mode("asan", "records", q(run, 54000, 900000), per=1000)
    run.finish("a case counts when a file was written and every length, count, offset and section in it was recomputed; distinct by format and splines")


@check("C20", "fault_enumeration")
def c20(run):
    cmdcheck.endings(run, run.build("asan", ("vh", "autotrace")), q(run, 1500, 16000))
    run.finish("an evaluation is one command that ended and whose status, message and output were judged; distinct by arguments, fault and output",
               ["the message is in English or another language, its text is not judged", "-log is not combined with output to standard output"])


@check("C21", "exploration")
def c21(run):
    cmdcheck.options(run, run.build("asan", ("vh", "autotrace")), q(run, 1500, 20000))
    run.finish("an evaluation is one command whose output was compared byte by byte with the library's for the same option values; distinct by arguments and output",
               ["the date is fixed by AT_DATE_ZERO"])


def listed_formats(run, bdir):
    """The formats the command lists, as two lists."""
    out = []
    for o in ("-list-input-formats", "-list-output-formats"):
        p = subprocess.run([os.path.join(bdir, "repo", "autotrace"), o], capture_output=True, text=True, errors="replace", env=san_env(), stdin=subprocess.DEVNULL, cwd=run.scratch, timeout=120)
        names = [ln.split()[0] for ln in (p.stderr + p.stdout).splitlines() if ln.startswith(" ") and ln.split()]
        if p.returncode or not names:
            run.res.violation("formats-not-listed", "%s ended with %d: %s" % (o, p.returncode, p.stderr[:300]))
        out.append(names)
    return out


DOCUMENTED_IN = "bmp pbm pgm pnm ppm tga png gf".split()
DOCUMENTED_OUT = "ai cgm dr2d dxf emf epd eps er fig ild mif p2e pdf plt pov sk svg ugs".split()


@check("C22", "exploration")
def c22(run):
    bdir = run.build("asan", ("vh", "autotrace"))
    i, o = listed_formats(run, bdir)
    for have, want, what in ((i, DOCUMENTED_IN, "input"), (o, DOCUMENTED_OUT, "output")):
        run.res.count("formats_listed", len(have))
        for f in want:
            if f not in have:
                run.res.violation("format-missing", "%s format %s is not listed" % (what, f))
    if i and o and not run.res.violations:
        arg = ",".join(i) + ":" + ",".join(o)
        run.mode("asan", "suffix", q(run, 100000, 2000000), arg=arg, per=2000)
        run.mode("asan", "own", q(run, 6000, 60000), per=250)
        env = other_locale(run, "tr_TR")
        if env:
            run.mode("asan", "suffix", q(run, 20000, 200000), arg=arg + ":locale", env=env, per=2000)
    run.finish("a case is a name or suffix looked up among readers and writers, the first 41 enumerate all suffixes of up to three characters, or a file read or written by the handler of its name; distinct by the name or file")


@check("C23", "exploration")
def c23(run):
    run.mode("asan", "wrapjson", q(run, 40000, 800000), per=1000)
    run.mode("asan", "wrapcopy", q(run, 16000, 300000), per=1000)
    run.mode("asan", "wrapout", q(run, 12000, 150000))
    run.mode("asan", "wraprun", q(run, 6000, 80000))
    run.finish("a case is one options object converted to JSON and back or made from JSON, one sequence of copies and assignments with all objects compared after each step, or one conversion compared with the C interface; distinct by values, steps or file and options",
               ["numbers in JSON are whole where the option is, and not negative"])


@check("C24", "exploration")
def c24(run):
    run.mode("asan", "recolor", q(run, 15000, 200000))
    run.finish("a case counts when a bitmap and its recoloured twin both gave lists that were compared coordinate by coordinate; distinct by both bitmaps and the options")


@check("C25", "exploration")
def c25(run):
    run.mode("tsan", "threads", q(run, 1500, 20000), per=50)
    run.mode("asan", "threads", q(run, 1500, 20000), per=50)
    run.finish("a case counts when at least two threads obtained splines and their results were compared with those obtained alone; distinct by the results",
               ["the C library, libpng and zlib are not instrumented for the race detector"])


@check("C26", "exploration")
def c26(run):
    run.mode("asan", "widths", q(run, 15000, 200000))
    run.finish("a case counts when at least one spline end was compared with the distance map computed by the check; distinct by bitmap and options")


@check("C27", "exploration")
def c27(run):
    run.mode("asan", "local", q(run, 60000, 600000))
    run.finish("a case counts when a drawing gave at least one list that was compared with the same drawing's list in a larger image; distinct by both bitmaps and the options")


@check("C28", "exploration")
def c28(run):
    run.mode("asan", "boxes", q(run, 20000, 250000))
    run.finish("a case counts when the image gave at least one list and every line of it was compared with the corners of the regions; distinct by bitmap and options")


@check("C29", "exploration")
def c29(run):
    run.mode("asan", "round", q(run, 20000, 250000))
    run.finish("a case counts when the ellipse gave a list whose joints and distance were measured; distinct by bitmap and options")


@check("C30", "exploration")
def c30(run):
    run.mode("asan", "objects", q(run, 60000, 800000), per=1000)
    run.mode("msan", "objects", q(run, 20000, 200000), per=1000)
    run.finish("a case is a string and a pair of colours, or a bitmap, each read back through the functions and compared with a model; distinct by string or size")


@check("C31", "exploration")
def c31(run):
    run.mode("asan", "registry", q(run, 40000, 600000), per=500)
    run.mode("msan", "registry", q(run, 10000, 100000), per=500)
    run.finish("a case is a history of registrations, lookups, reads and writes, and counts when a registered function was called; distinct by history and suffixes")


@check("C32", "exploration")
def c32(run):
    run.mode("asan", "lines", q(run, 8000, 120000))
    run.finish("a case is a bitmap traced with five pairs of thresholds, and counts when some piece is more than a line between neighbouring points; distinct by bitmap and options")


@check("C33", "exploration")
def c33(run):
    run.mode("asan", "nested", q(run, 6000, 80000))
    run.mode("msan", "nested", q(run, 1500, 15000))
    run.finish("a case is an outer call, made without and with calls from its callbacks, and counts when such a call was made; distinct by the outer call")

@check("C34", "exploration")
def c34(run):
    run.mode("asan", "stages", q(run, 4000, 60000))
    run.finish("a case is a bitmap traced at once and stage by stage, and counts when a stage changed pixels; distinct by bitmap and options")


@check("C35", "exploration")
def c35(run):
    run.mode("asan", "streams", q(run, 40000, 600000), per=500)
    run.finish("a case is a drawing written to a file, a stream without positions, a pipe and among other bytes, and counts when bytes were written; distinct by format and bytes")


@check("C36", "exploration")
def c36(run):
    run.mode("asan", "inactive", q(run, 10000, 150000))
    run.mode("msan", "inactive", q(run, 1500, 15000))
    run.finish("a case is a pair of calls that differ in options not in use, and counts when the calls gave splines, pixels or bytes; distinct by arguments")


@check("C37", "exploration")
def c37(run):
    run.mode("asan", "glyph", q(run, 12000, 150000))
    run.finish("a case is one to three GF characters read, traced and written as UGS, and counts when outlines were written; distinct by bytes written")


@check("C38", "exploration")
def c38(run):
    run.mode("asan", "divide", q(run, 5000, 60000))
    run.finish("a case is a bitmap traced with four error thresholds and again with other smoothing, and counts when a smaller threshold divided a piece; distinct by bitmap and options")


@check("C39", "exploration")
def c39(run):
    run.mode("asan", "adjacent", q(run, 12000, 200000))
    run.finish("a case is a bitmap traced with and without removal of adjacent corners, and counts when corners were removed; distinct by bitmap and options")


def main(prop):
    if prop not in CHECKS:
        print("no check for", prop)
        sys.exit(2)
    fn, level = CHECKS[prop]
    try:
        fn(Run(prop, level))
    except vbuild.BuildError as e:
        print("ERROR of the check:", e)
        sys.exit(3)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        sys.exit(4)
