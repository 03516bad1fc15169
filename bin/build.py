#!/usr/bin/env python3
"""Build wrench (from /repo's current working tree) plus one harness source into a binary.

usage: build.py VARIANT HARNESS.cpp -> prints the path of the binary.
Objects are cached under /verif/.build by content hash of every input (source tree
state, harness sources, flags, compiler), so a changed tree is always rebuilt.
"""
import sys, os, hashlib, subprocess, glob, shutil, threading, fcntl
from concurrent.futures import ThreadPoolExecutor

HLOCK, HLOCKS = threading.Lock(), {}
REPO = os.environ.get("VP_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, ".build")
SRC = os.path.join(REPO, "discrete_src")

# library sources: everything under discrete_src except programs, other platforms' backends
# and test programs (they are not part of the library objects in GNUmakefile)
EXCLUDE = {"wrench_cli.cpp", "wrench_min.cpp", "test_wrench_cross_module_globals.cpp",
           "win32_comm.cpp", "arduino_comm.cpp", "arduino_lib.cpp", "esp32_lib.cpp",
           "std_io_little_spiffs.cpp", "debugger.cpp", "fastled_lib.cpp"}

COMMON = ["-DWRENCH_LINUX_FILE_IO"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,signed-integer-overflow,shift", "-fno-omit-frame-pointer", "-g1", "-O1"]
OPT = ["-O2", "-g1"]
TSAN = ["-fsanitize=thread", "-g1", "-O1"]
ALLTCP = ["-DWRENCH_LINUX_TCP", "-DWRENCH_LINUX_SERIAL"]
SLICE = ["-DWRENCH_TIME_SLICES", "-DWRENCH_PROTECT_STACK_FROM_OVERFLOW"]

VARIANTS = {
    # name: (flags, defines, amalgamation?)
    "def":      (OPT, []),
    "asan":     (SAN, ALLTCP),
    "compact":  (OPT, ["-DWRENCH_COMPACT"]),
    "rcompact": (OPT, ["-DWRENCH_REALLY_COMPACT"]),
    "casan":    (SAN, ["-DWRENCH_COMPACT"]),
    "rcasan":   (SAN, ["-DWRENCH_REALLY_COMPACT"]),
    "slices":   (OPT, SLICE + ALLTCP),
    "sasan":    (SAN, SLICE + ALLTCP),
    "cslices":  (SAN, SLICE + ["-DWRENCH_COMPACT"]),
    "wmon":     (SAN, SLICE + ["-DWRENCH_VM_MONITOR"]),
    "amwmon":   (SAN, SLICE + ["-DWRENCH_VM_MONITOR"]),
    "stsan":    (TSAN, SLICE),
    "trap":     (SAN, ["-DWRENCH_TRAP_DIVISION_BY_ZERO"]),
    "ctrap":    (SAN, ["-DWRENCH_TRAP_DIVISION_BY_ZERO", "-DWRENCH_COMPACT"]),
    "mfail":    (SAN, ["-DWRENCH_HANDLE_MALLOC_FAIL"]),
    "cmfail":   (SAN, ["-DWRENCH_HANDLE_MALLOC_FAIL", "-DWRENCH_COMPACT"]),
    "fsp":      (SAN, ["-DWRENCH_FLOAT_SPRINTF"]),
    "amalg":    (OPT, []),
    "amasan":   (SAN, []),
    "amslices": (SAN, SLICE),
    "amtrap":   (SAN, ["-DWRENCH_TRAP_DIVISION_BY_ZERO"]),
    "amcomp":   (OPT, ["-DWRENCH_COMPACT"]),
    "ammfail":  (SAN, ["-DWRENCH_HANDLE_MALLOC_FAIL"]),
    "unal":     (OPT, ["-DWRENCH_UNALIGNED_READS"]),
}

def tree_hash(root, exts=(".cpp", ".h")):
    h = hashlib.sha256()
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        sys.stderr.write("BUILD-ERROR: %s\n%s\n" % (" ".join(cmd), p.stdout[:1500]))
        raise SystemExit(3)
    return p.stdout

def build(variant, harness, jobs=8):
    flags, defs = VARIANTS[variant]
    cxx = os.environ.get("VP_CXX", "g++")
    amalg = variant.startswith("am")
    base = cxx + repr(flags) + repr(defs)
    th = tree_hash(os.path.join(REPO, "src") if amalg else SRC)
    libkey = hashlib.sha256((base + th + "v1").encode()).hexdigest()[:24]
    libdir = os.path.join(BUILD, "lib-%s-%s" % (variant, libkey))
    lib = os.path.join(libdir, "libwrench.a")
    hsrc = os.path.join(VERIF, "harness", harness)
    hh = hashlib.sha256()
    for p in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))) + [hsrc]:
        hh.update(open(p, "rb").read())
    binp = os.path.join(libdir, harness.replace(".cpp", "") + "-" + hh.hexdigest()[:16])
    inc = ["-I" + os.path.join(REPO, "src")] if amalg else ["-iquote", SRC, "-iquote", REPO, "-iquote", os.path.join(REPO,"src")]
    tasks = []
    os.makedirs(libdir, exist_ok=True)
    objs = []
    if not os.path.exists(lib):
        if amalg:
            srcs = [os.path.join(REPO, "src", "wrench.cpp")]
        else:
            srcs = [p for p in sorted(glob.glob(SRC + "/*/*.cpp") + glob.glob(SRC + "/*.cpp"))
                    if os.path.basename(p) not in EXCLUDE]
        for s in srcs:
            o = os.path.join(libdir, os.path.basename(s)[:-4] + ".o")
            objs.append(o)
            tasks.append([cxx, "-std=c++98", "-w"] + COMMON + flags + defs + inc + ["-c", "-o", o, s])
    # harness objects are not instrumented (the library is what is watched) and are shared by all
    # variants with the same preprocessor view
    hkey = hashlib.sha256((cxx + repr(defs) + str(amalg) + hh.hexdigest() + tree_hash(os.path.join(REPO, "src") if amalg else SRC, (".h",))).encode()).hexdigest()[:24]
    hobj = os.path.join(BUILD, "obj-%s-%s.o" % (harness.replace(".cpp", ""), hkey))
    with HLOCK: lk = HLOCKS.setdefault(hobj, threading.Lock())
    def harness_obj():
        with lk:
            if os.path.exists(hobj): return
            tmp = hobj + ".%d.o" % os.getpid()
            run([cxx, "-std=c++17", "-w", "-O1", "-g1"] + COMMON + defs + inc + ["-c", "-o", tmp, hsrc])
            os.rename(tmp, hobj)
    # biggest first
    def size(t):
        try: return -os.path.getsize(t[-1])
        except OSError: return 0
    # one builder per library at a time, across threads and processes
    with open(os.path.join(libdir, "lock"), "w") as lf:
        fcntl.flock(lf, fcntl.LOCK_EX)
        tasks = [] if os.path.exists(lib) else sorted(tasks, key=size)
        with ThreadPoolExecutor(jobs) as ex:
            hf = None if os.path.exists(binp) else ex.submit(harness_obj)
            list(ex.map(run, tasks))
            if hf: hf.result()
        if tasks:
            tmp = lib + ".%d" % os.getpid()
            if os.path.exists(tmp): os.remove(tmp)
            run(["ar", "rcs", tmp] + objs)
            os.rename(tmp, lib)
            for o in objs: os.remove(o)
    if not os.path.exists(binp):
        tmp = binp + ".%d" % os.getpid()
        run([cxx] + flags + ["-o", tmp, hobj, lib, "-lpthread", "-lm"])
        os.rename(tmp, binp)
    return binp

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2]))
