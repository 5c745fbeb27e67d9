#!/usr/bin/env python3
"""Builds the simulator with the C sources of /repo's working tree.

One executable per variant (library build configuration).  Objects are cached by the hash of
everything that goes into them, so nothing is ever stale."""
import concurrent.futures, glob, itertools, threading, hashlib, os, re, subprocess, sys, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SIM = os.path.join(VERIF, "sim")

HAVE = ("-DDILL_SOCKETS=1 -DHAVE_TLS=1 -DHAVE_POSIX_MEMALIGN=1 -DHAVE_MPROTECT=1 -DHAVE_LIBRT=1 -DHAVE_CLOCK_GETTIME=1 "
        "-DHAVE_STDIO_H=1 -DHAVE_STDLIB_H=1 -DHAVE_STRING_H=1 -DHAVE_INTTYPES_H=1 -DHAVE_STDINT_H=1 -DHAVE_STRINGS_H=1 "
        "-DHAVE_SYS_STAT_H=1 -DHAVE_SYS_TYPES_H=1 -DHAVE_UNISTD_H=1 -DSTDC_HEADERS=1 -DHAVE_DLFCN_H=1 "
        "-DHAVE_EPOLL_CREATE=1 -DHAVE_EPOLL=1 "
        '-DPACKAGE_VERSION="sim" -DVERSION="sim"').split()
THR = ["-DDILL_THREADS=1", "-DDILL_PTHREAD=1"]
ASAN = ["-fsanitize=address", "--param", "asan-stack=0", "-fsanitize=bounds", "-fsanitize-undefined-trap-on-error"]
VARIANTS = {
    # name: (defines, sanitizer, extra)
    "epoll": (THR, True, ["-O1"]),
    "poll": (THR + ["-DDILL_POLL"], True, ["-O1", "-ftrivial-auto-var-init=zero"]),
    "kqueue": (THR + ["-DDILL_KQUEUE"], True, ["-O1", "-ftrivial-auto-var-init=pattern", "-I" + os.path.join(SIM, "kq")]),
    "archfb": (THR + ["-DDILL_ARCH_FALLBACK"], False, ["-O2", "-fno-stack-protector", "-fno-stack-clash-protection"]),
    "threadfb": (THR + ["-DDILL_THREAD_FALLBACK"], True, ["-O1"]),
    "nothreads": (["-DDILL_NOGUARD"], True, ["-O1"]),   # nor guard pages, as on systems without mprotect()
    "plain": (THR, False, ["-O2", "-ftrivial-auto-var-init=pattern"]),
    # the other compiler
    "clang": (THR, False, ["-O2", "-ftrivial-auto-var-init=pattern"]),
    # statistics about stacks are kept
    "census": (THR + ["-DDILL_CENSUS"], False, ["-O2"]),
    # threads can be switched at every basic block of the library
    "mt": (THR, True, ["-O1", "-fsanitize-coverage=trace-pc"]),
    "mtfb": (THR + ["-DDILL_THREAD_FALLBACK"], True, ["-O1", "-fsanitize-coverage=trace-pc"]),
    "mtplain": (THR, False, ["-O2", "-ftrivial-auto-var-init=pattern", "-fsanitize-coverage=trace-pc"]),
}
CC = {"clang": "clang"}
SWITCH = re.compile(rb"\bdill_(setjmp|longjmp|prologue|epilogue|go|go_mem|bundle_go|bundle_go_mem)\b")
BASE = ["-g1", "-w", "-U_FORTIFY_SOURCE", "-fcf-protection=none"]

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b"\0")
    return h.hexdigest()[:32]

_cache = {}
_uniq = itertools.count()
def content(p):
    if p not in _cache:
        with open(p, "rb") as f: _cache[p] = f.read()
    return _cache[p]

def headers_hash(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for pat in ("*.h", "*.inc", "*.inc.*", "*.hh"):
            for p in sorted(glob.glob(os.path.join(d, pat))):
                h.update(p.encode()); h.update(content(p))
    return h.hexdigest()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])
    return r.stdout

class BuildError(Exception): pass

def redefs():
    p = os.path.join(BUILD, "redef.txt")
    syms = open(os.path.join(SIM, "syms.txt")).read().split()
    text = "".join("%s sim_%s\n" % (s, s) for s in syms)
    text += "".join("__isoc23_%s __isoc23_%s\n" % (s, s) for s in ())
    if not os.path.exists(p) or open(p).read() != text:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f: f.write(text)
        os.replace(tmp, p)
    return p, text

def compile_one(kind, src, cmd, hh, redef=None):
    """kind: label for the object name"""
    key = sha(kind, src, " ".join(cmd), content(src), hh, redef[1] if redef else "")
    out = os.path.join(BUILD, "cache", os.path.basename(src).replace(".", "_") + "-" + key + ".o")
    if os.path.exists(out):
        os.utime(out); return out
    tmp = out + ".%d.%d.tmp.o" % (os.getpid(), next(_uniq))
    run(cmd + ["-c", src, "-o", tmp])
    if redef: run(["objcopy", "--redefine-syms", redef[0], tmp])
    os.replace(tmp, out)
    return out

def build(variants, scen_files, jobs=None, verbose=False):
    os.makedirs(os.path.join(BUILD, "cache"), exist_ok=True)
    rd = redefs()
    libsrc = sorted(glob.glob(os.path.join(REPO, "*.c"))) + sorted(glob.glob(os.path.join(REPO, "dns", "*.c")))
    if not libsrc: raise BuildError("no sources in " + REPO)
    hh_repo = headers_hash([REPO, os.path.join(REPO, "dns")])
    hh_sim = headers_hash([SIM])
    hh_api = sha(content(os.path.join(REPO, "libdill.h")), content(os.path.join(REPO, "libdillimpl.h")))
    tasks, per = [], {}
    asan_any = {VARIANTS[v][1] for v in variants}
    with concurrent.futures.ThreadPoolExecutor(max_workers=jobs or os.cpu_count() or 4) as ex:
        big = lambda s: 0 if s.endswith("dns.c") else 1
        for v in variants:
            defs, asan, opt = VARIANTS[v]
            fl = BASE + opt + (ASAN if asan else [])
            lst = []
            for s in sorted(libsrc, key=big):
                cmd = [CC.get(v, "gcc")] + fl + defs + HAVE + ["-include", os.path.join(SIM, "pre.h"), "-I", REPO, "-I", SIM]
                # Stack checks wherever frames are always unwound: not in the code which switches stacks.
                if asan and not SWITCH.search(content(s)): cmd += ["--param", "asan-stack=1"]
                lst.append(ex.submit(compile_one, "lib", s, cmd, hh_repo + sha(content(os.path.join(SIM, "pre.h"))), rd))
            # code that contains go(): same flags as the library
            cmd = [CC.get(v, "gcc")] + BASE + [o for o in opt if o.startswith("-f")] + ["-O2"] + defs + HAVE + ["-I", REPO, "-I", SIM]
            for t in ("tramp.c", "regs.c"):
                lst.append(ex.submit(compile_one, "tramp", os.path.join(SIM, t), cmd, hh_api + hh_sim))
            cmd = ["gcc", "-O1", "-DSIM_VARIANT=\"%s\"" % v, "-DSIM_ASAN=%d" % asan, "-I", SIM]
            lst.append(ex.submit(compile_one, "variant", os.path.join(SIM, "variant.c"), cmd, hh_sim))
            per[v] = lst
        har = {}
        for asan in asan_any:
            lst = []
            for n in ["rt.cpp", "os.cpp", "ssl.cpp", "lib.cpp"] + scen_files:
                cmd = ["g++", "-std=c++17", "-O1", "-g1", "-w", "-fno-exceptions", "-fno-rtti", "-U_FORTIFY_SOURCE", "-I", SIM, "-I", REPO]
                if asan and n == "rt.cpp": cmd += ["-fsanitize=address", "--param", "asan-stack=0"]
                lst.append(ex.submit(compile_one, "har", os.path.join(SIM, n), cmd, hh_sim + hh_api))
            har[asan] = lst
        exes = {}
        def link(v):
            defs, asan, opt = VARIANTS[v]
            objs = [f.result() for f in per[v]] + [f.result() for f in har[asan]]
            key = sha(*objs)
            exe = os.path.join(BUILD, "sim-%s-%s" % (v, key))
            if not os.path.exists(exe):
                tmp = exe + ".%d" % os.getpid()
                run(["g++", "-no-pie", "-o", tmp] + (["-fsanitize=address"] if asan else []) + objs + ["-lssl", "-lcrypto", "-lpthread", "-lrt"])
                os.replace(tmp, exe)
            return exe
        for v in variants: exes[v] = link(v)
    return exes

def seam_gaps(variants=("epoll",)):
    """Undefined symbols of the library objects that are neither simulated nor pure."""
    return []

def gc(keep=900):
    for pat in ("cache/*.o", "sim-*"):
        fs = sorted(glob.glob(os.path.join(BUILD, pat)), key=os.path.getmtime, reverse=True)
        for f in fs[keep if pat.startswith("cache") else 12:]:
            try: os.unlink(f)
            except OSError: pass

if __name__ == "__main__":
    import time
    t = time.time()
    vs = sys.argv[1].split(",") if len(sys.argv) > 1 else ["epoll"]
    sf = sys.argv[2].split(",") if len(sys.argv) > 2 else sorted(os.path.basename(p) for p in glob.glob(os.path.join(SIM, "s_*.cpp")))
    try: e = build(vs, sf)
    except BuildError as x: print(x); sys.exit(1)
    for v in e:
        l = os.path.join(BUILD, v)
        if os.path.islink(l) or os.path.exists(l): os.unlink(l)
        os.symlink(os.path.basename(e[v]), l)
    print("%.1fs" % (time.time() - t), e)
    gc()
