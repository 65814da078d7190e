"""Compile /repo's current sources to one LLVM module (no code of mjs is run)."""
import os, re, subprocess, sys, tempfile, shutil, hashlib
from concurrent.futures import ThreadPoolExecutor

CLANG = "clang-18" if shutil.which("clang-18") else "clang"
REPO = os.environ.get("MJS_REPO", "/repo")

class AnalysisBroken(Exception):
    """The analysis could not be carried out (not a verdict)."""

# Flags of the repository's own Makefile (COMMON_CFLAGS / test targets).
BASE = ["-std=c99", "-D_DEFAULT_SOURCE", "-DMJS_MAIN", "-DMJS_EXPOSE_PRIVATE", "-DCS_ENABLE_STDIO",
        "-DMJS_ENABLE_DEBUG", "-DCS_MMAP", "-DMJS_MODULE_LINES", "-DMJS_MEMORY_STATS"]
CONFIGS = {
    "default": [],
    "aggressive_gc": ["-DMJS_AGGRESSIVE_GC"],
    "offset0": ["-DMJS_INIT_OFFSET_SIZE=0"],
    "offset4": ["-DMJS_INIT_OFFSET_SIZE=4"],
    "m32": ["-m32"],
}
NODEBUG = {"-DMJS_ENABLE_DEBUG", "-DMJS_MEMORY_STATS"}

def sources():
    mk = os.path.join(REPO, "src/mjs_sources.mk")
    try:
        txt = open(mk).read()
    except OSError as e:
        raise AnalysisBroken("cannot read %s: %s" % (mk, e))
    txt = txt.replace("\\\n", " ")
    out = []
    for var in ("COMMON_SOURCES", "MJS_SOURCES"):
        m = re.search(r"^%s\s*=\s*(.*)$" % var, txt, re.M)
        if not m:
            raise AnalysisBroken("no %s in %s" % (var, mk))
        out += [os.path.join(REPO, "src", f) for f in m.group(1).split()]
    return out

def run(cmd):
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisBroken("%s failed:\n%s" % (" ".join(cmd[:4]), r.stderr[-4000:]))
    return r.stdout

PROBE = """#include "mjs_internal.h"
#include "mjs_core.h"
#define T(n) unsigned long long vprobe_##n = n;
T(MJS_TAG_OBJECT) T(MJS_TAG_FOREIGN) T(MJS_TAG_UNDEFINED) T(MJS_TAG_BOOLEAN) T(MJS_TAG_NAN) T(MJS_TAG_STRING_I)
T(MJS_TAG_STRING_5) T(MJS_TAG_STRING_O) T(MJS_TAG_STRING_F) T(MJS_TAG_STRING_C) T(MJS_TAG_STRING_D) T(MJS_TAG_ARRAY)
T(MJS_TAG_FUNCTION) T(MJS_TAG_FUNCTION_FFI) T(MJS_TAG_NULL) T(MJS_TAG_MASK)
"""

def probe(config="default"):
    """Values of the tag macros of the current headers."""
    tmp = tempfile.mkdtemp(prefix="mjsva.")
    try:
        c = os.path.join(tmp, "p.c"); open(c, "w").write(PROBE)
        o = os.path.join(tmp, "p.ll")
        run([CLANG, "-O0", "-w", "-S", "-emit-llvm", "-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/src/frozen"] +
            BASE + [c, "-o", o])
        return {k: int(v) % (1 << 64) for k, v in re.findall(r"^@vprobe_(\w+) = .*? i64 (-?\d+)", open(o).read(), re.M)}
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def compile_module(config="default", extra_c=None):
    """Returns (path to linked bitcode, tmpdir)."""
    tmp = tempfile.mkdtemp(prefix="mjsva.")
    flags = list(BASE)
    if config == "nodebug":
        flags = [f for f in flags if f not in NODEBUG]
    else:
        flags += CONFIGS[config]
    srcs = sources()
    def one(i_s):
        i, s = i_s
        o = os.path.join(tmp, "%02d_%s.bc" % (i, os.path.basename(s)[:-2]))
        run([CLANG, "-O1", "-g", "-w", "-Xclang", "-disable-llvm-passes", "-U__OPTIMIZE__",
             "-fno-discard-value-names", "-emit-llvm", "-c",
             "-I" + REPO, "-I" + REPO + "/src", "-I" + REPO + "/src/frozen"] + flags + [s, "-o", o])
        return o
    try:
        with ThreadPoolExecutor(8) as ex:
            objs = list(ex.map(one, enumerate(srcs)))
        out = os.path.join(tmp, "all.bc")
        run(["llvm-link", "-o", out] + objs)
    except BaseException:
        shutil.rmtree(tmp, ignore_errors=True)
        raise
    return out, tmp
