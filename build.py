#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree into build/<content hash>/ and returns that directory.

Two variants of the same real sources: "base" (coverage of basic blocks) and "thr" (also loads and stores, so that the
scheduler can preempt between any two accesses to shared library memory)."""
import os, re, sys, glob, hashlib, lzma, shutil, subprocess, fcntl, time
VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CC, CXX = "clang", "clang++"
LIBFLAGS = ["-O1", "-g1", "-fsanitize=address", "-fsanitize-address-use-after-return=never",
            "-ftrivial-auto-var-init=pattern", "-fexceptions", "-fPIC", "-fno-omit-frame-pointer", "-fno-builtin-malloc",
            "-fno-builtin-calloc", "-fno-builtin-realloc", "-fno-builtin-free", "-w"]
COV = {"base": "trace-pc-guard,no-prune", "thr": "trace-pc-guard,no-prune,trace-loads,trace-stores"}
SEAM = {f: "sim_" + f for f in ("malloc calloc realloc free reallocarray strdup strndup aligned_alloc posix_memalign time "
        "clock_gettime gettimeofday rand random pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock "
        "pthread_spin_lock pthread_once mtx_lock call_once sched_yield nl_langinfo nl_langinfo_l setlocale uselocale "
        "localeconv getenv secure_getenv").split()}
SEAM["clock"] = "sim_clockfn"
# calls into the C library's string functions are preemption points too: before and after, as often as what they touch is shared
STRINGS = "memcpy memmove memset memcmp memchr strlen strnlen strcmp strncmp strcasecmp strncasecmp strcpy stpcpy strncpy strcat strncat strchr strrchr strstr".split()
for f in STRINGS: SEAM[f] = "sim_" + f
for f in ("memcpy", "memmove", "memset"): SEAM["__asan_" + f] = "sim_asan_" + f
for f in ("sprintf", "snprintf", "vsnprintf"): SEAM[f] = "sim_" + f
LIBFLAGS += ["-fno-builtin-" + f for f in STRINGS + ["sprintf", "snprintf", "vsnprintf"]]
for f in ("acquire", "release", "abort"): SEAM["__cxa_guard_" + f] = "sim_cxa_guard_" + f

class BuildError(Exception): pass
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode: raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout
def digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(b"\0"); h.update(open(p, "rb").read()); h.update(b"\0")
    return h.hexdigest()
def repo_files():
    r = [os.path.join(REPO, "CMakeLists.txt")]
    for d in ("lib", "include"):
        for root, _, fs in os.walk(os.path.join(REPO, d)): r += [os.path.join(root, f) for f in fs]
    return r
def harness_files():
    return [p for p in glob.glob(os.path.join(VERIF, "sim", "*")) if os.path.isfile(p)] + [os.path.abspath(__file__)] + glob.glob(os.path.join(VERIF, "model", "*"))
def sources():
    top = open(os.path.join(REPO, "CMakeLists.txt")).read()
    v = re.search(r"project\(cppp-reiconv\s+VERSION\s+(\d+)\.(\d+)\.(\d+)", top)
    m = re.search(r"\nset\(SOURCES([^)]*)\)", top)
    if not v or not m: raise BuildError("no version or source list in CMakeLists.txt")
    return v.groups(), [s.replace("${CMAKE_CURRENT_SOURCE_DIR}", REPO) for s in re.findall(r'"([^"]+)"', m.group(1))]
def configure(src, dst, indexes=""):
    s = open(src).read().replace("@CPPP_API@", "").replace("${CPPP_API}", "").replace("@INDEXES_CODE@", indexes).replace("${INDEXES_CODE}", indexes)
    os.makedirs(os.path.dirname(dst), exist_ok=True); open(dst, "w").write(s)

def build(variant="base"):
    """Returns (directory, path of the simulator)."""
    os.makedirs(OUT, exist_ok=True)
    key = hashlib.sha256((digest(repo_files()) + digest(harness_files())).encode()).hexdigest()[:20]
    d = os.path.join(OUT, key); exe = os.path.join(d, "sim-" + variant)
    lock = open(os.path.join(OUT, "lock"), "w"); fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(exe + ".ok"): os.utime(d); return d, exe
        # keep the cache small
        old = sorted((x for x in glob.glob(os.path.join(OUT, "*")) if os.path.isdir(x) and x != d and os.path.basename(x) != "harness"), key=os.path.getmtime)
        for x in old[:-6]: shutil.rmtree(x, ignore_errors=True)
        inc = os.path.join(d, "include"); os.makedirs(inc, exist_ok=True)
        (ma, mi, pa), srcs = sources()
        R = os.path.join(REPO, "include")
        configure(R + "/cppp/reiconv.hpp.in", inc + "/cppp/reiconv.hpp"); configure(R + "/cppp/reiconv.h.in", inc + "/cppp/reiconv.h")
        configure(R + "/cppp/encodings/reiconv.hpp.in", inc + "/cppp/encodings/reiconv.hpp", open(REPO + "/lib/generated/indexes.hpp.shippet").read().strip())
        configure(R + "/cppp/encodings/reiconv.h.in", inc + "/cppp/encodings/reiconv.h", open(REPO + "/lib/generated/indexes.h.shippet").read().strip())
        configure(R + "/iconv.h.in", inc + "/iconv.h")
        consts = ["%s%s %d\n" % (pre, m.group(1), int(m.group(2), 0)) for f, pre in ((inc + "/cppp/encodings/reiconv.h", ""), (inc + "/cppp/encodings/reiconv.hpp", "Encodings::")) for m in re.finditer(r"\b(\w+)\s*=\s*(0[xX][0-9a-fA-F]+|\d+)\b", open(f).read())]
        open(os.path.join(d, "consts.txt"), "w").write("".join(consts))
        # stand-in for cppp-platform's header (a separate repository that is not in the sandbox)
        open(inc + "/cppp/cppp-platform.h", "w").write(open(os.path.join(VERIF, "sim", "cppp-platform.h.in")).read())
        for n in ("repertoire.bin", "charsets.bin"):
            if not os.path.exists(os.path.join(d, n)): open(os.path.join(d, n), "wb").write(lzma.open(os.path.join(VERIF, "model", n + ".xz")).read())
        shutil.copy(os.path.join(VERIF, "model", "names.txt"), d)
        defs = ["-DVERSION_MAJOR=" + ma, "-DVERSION_MINOR=" + mi, "-DVERSION_PATCH=" + pa, "-DHAVE_LANGINFO_CODESET=1", "-I" + REPO + "/lib", "-I" + inc]
        jobs = []; objs = []
        for s in srcs:
            o = os.path.join(d, variant + "-" + os.path.basename(s) + ".o"); objs.append(o)
            c = [CXX, "-std=c++20"] if s.endswith("pp") else [CC, "-std=gnu17"]
            jobs.append(c + LIBFLAGS + ["-fsanitize-coverage=" + COV[variant]] + defs + ["-c", s, "-o", o])
        # second build of the locale code, for systems without nl_langinfo
        for s in srcs:
            if os.path.basename(s) in ("locale_charset.c", "locale_charset.cpp"):
                o = os.path.join(d, variant + "-nolang-" + os.path.basename(s) + ".o"); objs.append(o)
                c = [CXX, "-std=c++20"] if s.endswith("pp") else [CC, "-std=gnu17"]
                jobs.append(c + LIBFLAGS + ["-fsanitize-coverage=" + COV[variant]] + [x for x in defs if "LANGINFO" not in x] + ["-Dlocale_charset=nolang_locale_charset", "-c", s, "-o", o])
        # harness objects: they depend on the public headers of the tree, so key them by those
        hh = hashlib.sha256()
        for p in sorted(glob.glob(inc + "/**/*.h*", recursive=True)): hh.update(open(p, "rb").read())
        for p in sorted(harness_files()):
            if not p.endswith((".xz", ".txt")): hh.update(open(p, "rb").read())
        hdir = os.path.join(OUT, "harness", hh.hexdigest()[:20])
        if not os.path.isdir(hdir): shutil.rmtree(os.path.join(OUT, "harness"), ignore_errors=True)
        os.makedirs(hdir, exist_ok=True); hobjs = []
        for s in sorted(glob.glob(os.path.join(VERIF, "sim", "*.cpp"))):
            o = os.path.join(hdir, os.path.basename(s) + ".o"); hobjs.append(o)
            if not os.path.exists(o): jobs.append([CXX, "-std=c++20", "-O2", "-g1", "-w", "-I" + inc, "-I" + os.path.join(VERIF, "sim"), "-c", s, "-o", o + ".tmp"])
        procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in jobs]
        err = ""
        for c, p in procs:
            o = p.communicate()[0]
            if p.returncode: err += " ".join(c) + "\n" + o[-4000:]
        if err: raise BuildError(err)
        for o in hobjs:
            if os.path.exists(o + ".tmp"): os.rename(o + ".tmp", o)
        redef = [x for k, v in SEAM.items() for x in ("--redefine-sym", k + "=" + v)]
        for o in objs: run(["objcopy"] + redef + [o])
        so = os.path.join(d, "libsut-%s.so" % variant)
        run([CXX, "-shared", "-fsanitize=address", "-Wl,-z,now,-z,relro", "-o", so] + objs)
        run([CXX, "-fsanitize=address", "-rdynamic", "-o", exe] + hobjs + [so, "-Wl,-rpath," + d, "-lpthread"])
        open(exe + ".ok", "w").close()
        return d, exe
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN); lock.close()

if __name__ == "__main__":
    t = time.time()
    for v in sys.argv[1:] or ("base", "thr"):
        try: d, e = build(v); print(e, "%.1fs" % (time.time() - t))
        except BuildError as x: print("BUILD ERROR", x); sys.exit(2)
