"""Builds sanitizer-instrumented copies of /repo's current sources, outside /repo.

Everything is keyed by a hash of the sources and flags, so concurrent checks and
changed trees never share a stale artefact."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
PKGS = ["glib-2.0", "json-c", "libdw", "libelf", "rpm"]

FLAVOURS = {
    # name: (compiler, flags)
    "asan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined "
                    "-fno-sanitize-recover=all"),
    "tsan": ("gcc", "-O1 -g -fno-omit-frame-pointer -fsanitize=thread"),
    "fuzz": ("clang", "-O1 -g -fno-omit-frame-pointer -fsanitize=fuzzer-no-link,address,undefined "
                      "-fno-sanitize=function,pointer-overflow -fno-sanitize-recover=all"),
    "plain": ("gcc", "-O1 -g"),
}
BASE = "-std=gnu99 -D_GNU_SOURCE -fPIC -w"


class HarnessError(Exception):
    pass


def pkg(*args):
    return subprocess.check_output(["pkg-config"] + list(args) + PKGS, text=True).split()


def lib_sources():
    fs = []
    for pat in ("lib/*.c", "lib/*.h", "lib/*.gperf", "include/*.h", "include/*/*.h"):
        fs += glob.glob(os.path.join(REPO, pat))
    skip = {"lib/config.h", "lib/normalize_hash.h"}
    return sorted(f for f in fs if os.path.relpath(f, REPO) not in skip)


def sources_hash(extra=()):
    h = hashlib.sha256()
    for f in lib_sources() + sorted(extra):
        h.update(f.encode()); h.update(b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h


def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise HarnessError("command failed: %s\n%s" % (" ".join(cmd), p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout


class Lock:
    def __init__(self, path):
        os.makedirs(os.path.dirname(path), exist_ok=True)
        self.path = path
    def __enter__(self):
        self.f = open(self.path, "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def prune(keep):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)
          if os.path.isdir(os.path.join(BUILD, d))]
    ds.sort(key=lambda d: os.stat(d).st_mtime, reverse=True)
    for d in ds[24:]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)


def library(flavour):
    """Returns (dir, archive) of libsatyr built with this flavour."""
    cc, flags = FLAVOURS[flavour]
    h = sources_hash([os.path.join(VERIF, "harness/config.h")])
    h.update((cc + flags + BASE).encode())
    d = os.path.join(BUILD, "lib-%s-%s" % (flavour, h.hexdigest()[:16]))
    ar = os.path.join(d, "libsatyr.a")
    with Lock(d + ".lock"):
        if os.path.exists(ar):
            os.utime(d)
            return d, ar
        tmp = d + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        for f in lib_sources():
            dst = os.path.join(tmp, "src", os.path.relpath(f, REPO))
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(f, dst)
        lib = os.path.join(tmp, "src/lib")
        shutil.copyfile(os.path.join(VERIF, "harness/config.h"), os.path.join(lib, "config.h"))
        run(["gperf", "--output-file=normalize_hash.h", "normalize_hash.gperf"], cwd=lib)
        cflags = (BASE + " " + flags + " -I../include").split() + pkg("--cflags")
        cs = sorted(os.path.basename(c) for c in glob.glob(lib + "/*.c"))
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(lambda c: run([cc] + cflags + ["-c", c, "-o", c[:-2] + ".o"], cwd=lib), cs))
        run(["ar", "rcs", "../../libsatyr.a"] + [c[:-2] + ".o" for c in cs], cwd=lib)
        shutil.rmtree(d, ignore_errors=True)
        os.rename(tmp, d)
        prune(d)
    return d, ar


def program(flavour, name, srcs, extra_flags="", extra_cc=None):
    """Links harness sources (relative to /verif/harness) against the library."""
    cc, flags = FLAVOURS[flavour]
    d, ar = library(flavour)
    if "drv_misc.c" in srcs:        # the disassembler is compiled out: cases supply its listings
        extra_flags += " -Wl,--wrap=sr_disasm_get_function_instructions"
    files = [os.path.join(VERIF, "harness", s) for s in srcs]
    h = hashlib.sha256()
    for f in files + sorted(glob.glob(os.path.join(VERIF, "harness/*.h"))):
        with open(f, "rb") as fh:
            h.update(fh.read())
    h.update(extra_flags.encode())
    out = os.path.join(d, "%s-%s" % (name, h.hexdigest()[:12]))
    with Lock(d + ".lock"):
        if not os.path.exists(out):
            cmd = ([extra_cc or cc] + (BASE + " " + flags).split() +
                   ["-I" + os.path.join(d, "src/include"), "-I" + os.path.join(d, "src/lib")] +
                   pkg("--cflags") + files + extra_flags.split() +
                   ["-o", out + ".tmp", ar] + pkg("--libs") + ["-lpthread", "-lstdc++", "-lm", "-ldl"])
            run(cmd)
            os.rename(out + ".tmp", out)
    return out


def shared(flavour="asan"):
    """Directory holding libsatyr.so.N built with this flavour, N as libtool computes it from the version-info of the tree."""
    with open(os.path.join(REPO, "lib/Makefile.am")) as f:
        v = re.search(r"-version-info\s+(\d+):\d+:(\d+)", f.read())
    so = "libsatyr.so.%d" % (int(v.group(1)) - int(v.group(2)))
    cc, flags = FLAVOURS[flavour]
    d, ar = library(flavour)
    out = os.path.join(d, "shared" + so)
    with Lock(d + ".lock"):
        if not os.path.exists(out):
            shutil.rmtree(out + ".tmp", ignore_errors=True)
            os.makedirs(out + ".tmp")
            run([cc] + flags.split() + ["-shared", "-Wl,-soname," + so, "-o", out + ".tmp/" + so, "-Wl,--whole-archive", ar, "-Wl,--no-whole-archive"] +
                pkg("--libs") + ["-lpthread", "-lstdc++", "-lm", "-ldl"])
            os.rename(out + ".tmp", out)
    return out


PY = "/usr/bin/python3"


def pymodule(flavour="asan"):
    """Directory holding the extension module _satyr3.so built with this flavour."""
    cc, flags = FLAVOURS[flavour]
    d, ar = library(flavour)
    srcs = sorted(glob.glob(os.path.join(REPO, "python/*.[ch]")))
    h = hashlib.sha256(d.encode())
    for f in srcs:
        with open(f, "rb") as fh:
            h.update(f.encode() + b"\0" + fh.read() + b"\0")
    out = os.path.join(d, "py-" + h.hexdigest()[:12])
    with Lock(d + ".lock"):
        if os.path.exists(out):
            return out
        tmp = out + ".tmp"
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for f in srcs:
            shutil.copy(f, tmp)
        inc = subprocess.check_output([PY, "-c", "import sysconfig;print(sysconfig.get_paths()['include'])"], text=True).strip()
        cflags = (BASE + " -fno-strict-aliasing " + flags + " -I" + d + "/src/include -I" + d + "/src/lib -I" + inc).split() + pkg("--cflags")
        cs = [os.path.basename(f) for f in srcs if f.endswith(".c")]
        with ThreadPoolExecutor(os.cpu_count()) as ex:
            list(ex.map(lambda c: run([cc] + cflags + ["-c", c, "-o", c[:-2] + ".o"], cwd=tmp), cs))
        run([cc] + flags.split() + ["-shared", "-o", "_satyr3.so"] + [c[:-2] + ".o" for c in cs] + [ar] + pkg("--libs") +
            ["-lpthread", "-lstdc++", "-lm", "-ldl"], cwd=tmp)
        os.rename(tmp, out)
    return out


if __name__ == "__main__":
    for fl in sys.argv[1:] or ["asan"]:
        print(library(fl))
