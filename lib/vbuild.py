"""Builds the sanitizer variants from /repo's working tree.

The tree is mirrored by content (mtimes are not trusted) into .work/src, so an unchanged file is
never recompiled and a changed one always is, whatever its timestamps say."""
import fcntl, filecmp, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORK = os.environ.get("VERIF_WORK", os.path.join(VERIF, ".work"))
REPO = os.environ.get("VERIF_REPO", "/repo")
MIRROR = os.path.join(WORK, "src")
SKIP_TOP = {".git", "_build"}


class BuildError(Exception):
    pass


def _mirror():
    os.makedirs(MIRROR, exist_ok=True)
    seen = set()
    for root, dirs, files in os.walk(REPO):
        rel = os.path.relpath(root, REPO)
        if rel == ".":
            dirs[:] = [d for d in dirs if d not in SKIP_TOP]
        dst = os.path.join(MIRROR, rel) if rel != "." else MIRROR
        os.makedirs(dst, exist_ok=True)
        for f in files:
            s, d = os.path.join(root, f), os.path.join(dst, f)
            r = os.path.normpath(os.path.join(rel, f))
            if not os.path.isfile(s):
                continue
            seen.add(r)
            if not (os.path.isfile(d) and not os.path.islink(d) and filecmp.cmp(s, d, shallow=False)):
                if os.path.isdir(d):
                    shutil.rmtree(d)
                shutil.copyfile(s, d)
                os.utime(d)
    for root, dirs, files in os.walk(MIRROR):
        for f in files:
            r = os.path.normpath(os.path.relpath(os.path.join(root, f), MIRROR))
            if r not in seen:
                os.unlink(os.path.join(root, f))


def _env():
    e = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH", "LIBRARY_PATH")}
    e["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["LC_ALL"] = "C"
    return e


def build(variant, targets=("vh",)):
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        _mirror()
        bdir = os.path.join(WORK, variant)
        log = os.path.join(WORK, variant + ".log")
        for attempt in (0, 1):
            with open(log, "w") as lf:
                ok = True
                if not os.path.exists(os.path.join(bdir, "build.ninja")):
                    shutil.rmtree(bdir, ignore_errors=True)
                    ok = subprocess.run(
                        ["cmake", "-S", os.path.join(VERIF, "harness"), "-B", bdir, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None",
                         "-DCMAKE_C_COMPILER=/usr/bin/clang-18", "-DCMAKE_CXX_COMPILER=/usr/bin/clang++-18",
                         "-DVARIANT=" + variant, "-DMIRROR=" + MIRROR, "-DCMAKE_DISABLE_FIND_PACKAGE_ImageMagick=ON"],
                        stdout=lf, stderr=subprocess.STDOUT, env=_env()).returncode == 0
                if ok:
                    ok = subprocess.run(["ninja", "-C", bdir] + list(targets), stdout=lf, stderr=subprocess.STDOUT, env=_env()).returncode == 0
            if ok:
                return bdir
            shutil.rmtree(bdir, ignore_errors=True)   # a stale tree; try once from scratch
        tail = open(log).read()[-4000:]
        raise BuildError("build of variant %s failed:\n%s" % (variant, tail))


if __name__ == "__main__":
    for v in sys.argv[1:]:
        t = ("vh", "autotrace") if v == "asan" else ("vh",)
        print(build(v, t))
