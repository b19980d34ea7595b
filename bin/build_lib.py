#!/usr/bin/env python3
"""Builds instrumented copies of libcypher-parser from /repo's working tree.

Usage: build_lib.py VARIANT [HARNESS ...]
Prints the path of the variant's directory.

/repo is only read.  The sources are copied to build/VARIANT/src, config.h and
cypher-parser.h are written from their templates, leg is run on the grammars and
everything is compiled.  Objects are cached by the hash of what they are made from.
"""
import os, sys, re, hashlib, subprocess, shutil, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=nonnull-attribute,pointer-overflow",
       "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]
WARN = ["-w"]
VARIANTS = {
    # assertions on, sanitizers: the workhorse
    "asan": dict(cflags=["-O1", "-g", "-ftrivial-auto-var-init=pattern"] + SAN, ldflags=SAN),
    # coverage counters for the coverage-guided engine
    "cov": dict(cflags=["-O1", "-g"] + SAN +
                ["-fsanitize-coverage=inline-8bit-counters"], ldflags=SAN),
    # assertions off (--disable-debug): invalid arguments are reported by errno
    "ndebug": dict(cflags=["-O1", "-g", "-DNDEBUG"] + SAN, ldflags=SAN),
    "tsan": dict(cflags=["-O1", "-g", "-fsanitize=thread"],
                 ldflags=["-fsanitize=thread"]),
    # executed edges and bytes moved are counted
    "work": dict(cflags=["-O1", "-g", "-DNDEBUG", "-DWORK"], ldflags=[], libflags=["-fsanitize-coverage=trace-pc", "-fno-builtin"],
                 wrap=["memcpy", "memmove", "memset", "memchr", "strlen", "strcmp", "strncmp", "strcasecmp", "strncasecmp", "memcmp", "fread"]),
    # the optimisation level users run
    "plain": dict(cflags=["-O2", "-g"], ldflags=[]),
}

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        sys.stderr.write("FAILED: %s\n%s\n" % (" ".join(cmd)[:600], p.stdout[:6000]))
        raise SystemExit(3)
    return p.stdout

CONFIG_H = """
#define HAVE_C_VARARRAYS 1
#define HAVE_DECL_STRERROR_R 1
#define HAVE_DLFCN_H 1
#define HAVE_ENDIAN_H 1
#define HAVE_INTTYPES_H 1
#define HAVE_OPEN_MEMSTREAM 1
#define HAVE_PTHREADS 1
#define HAVE_STDBOOL_H 1
#define HAVE_STDINT_H 1
#define HAVE_STDIO_H 1
#define HAVE_STDLIB_H 1
#define HAVE_STRERROR_R 1
#define HAVE_STRINGS_H 1
#define HAVE_STRING_H 1
#define HAVE_SYS_STAT_H 1
#define HAVE_SYS_TYPES_H 1
#define HAVE_UNISTD_H 1
#define HAVE__BOOL 1
#define STDC_HEADERS 1
#define TLS _Thread_local
#define PACKAGE "libcypher-parser"
#define PACKAGE_NAME "libcypher-parser"
#define PACKAGE_TARNAME "libcypher-parser"
#define PACKAGE_BUGREPORT ""
#define PACKAGE_URL ""
#define PACKAGE_STRING "libcypher-parser {v}"
#define PACKAGE_VERSION "{v}"
#define VERSION "{v}"
#define PACKAGE_MAJOR_VERSION {ma}
#define PACKAGE_MINOR_VERSION {mi}
#define PACKAGE_PATCH_VERSION {pa}
#define PACKAGE_DEVELOPMENT_VERSION "devel"
#ifndef _GNU_SOURCE
# define _GNU_SOURCE 1
#endif
"""

def version():
    try:
        t = open(os.path.join(REPO, "configure.ac")).read()
        m = re.search(r"AC_INIT\(\[?libcypher-parser\]?,\s*\[?([^\])]*)", t)
        v = m.group(1).strip()
        n = [int(x) for x in re.findall(r"\d+", v)[:3]]
        return v, n
    except Exception:
        return "0.6.4~devel", [0, 6, 4]

def write_if_changed(path, text):
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)

def digest(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(p)
        h.update(b"\0")
    return h.hexdigest()

def readb(p):
    with open(p, "rb") as f:
        return f.read()

def prune(d, keep, suffix):
    """Keeps the cache from growing without bound."""
    fs = [os.path.join(d, f) for f in os.listdir(d) if f.endswith(suffix)]
    if len(fs) <= keep:
        return
    fs.sort(key=lambda f: os.stat(f).st_mtime)
    for f in fs[:-keep]:
        os.unlink(f)

def build(variant, harnesses):
    os.makedirs(os.path.join(BUILD, variant), exist_ok=True)
    lock = open(os.path.join(BUILD, variant, ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    spec = VARIANTS[variant]
    base = os.path.join(BUILD, variant)
    obj = os.path.join(base, "obj"); os.makedirs(obj, exist_ok=True)
    top = os.path.join(base, "tree")
    src = os.path.join(top, "lib", "src"); os.makedirs(src, exist_ok=True)
    lint = os.path.join(top, "linter", "src"); os.makedirs(lint, exist_ok=True)

    want = {}
    for d, dst in (("lib/src", src), ("linter/src", lint)):
        full = os.path.join(REPO, d)
        names = set()
        for f in sorted(os.listdir(full)):
            if not f.endswith((".c", ".h", ".leg", ".in")) or f.endswith("_leg.c") \
                    or f in ("cypher-parser.h", "Makefile.in"):
                continue
            names.add(f)
            data = readb(os.path.join(full, f)).decode("latin-1")
            p = os.path.join(dst, f)
            try:
                old = readb(p).decode("latin-1")
            except OSError:
                old = None
            if old != data:
                with open(p, "wb") as o:
                    o.write(data.encode("latin-1"))
        for f in os.listdir(dst):
            if f not in names and not f.endswith("_leg.c") and f != "cypher-parser.h":
                os.unlink(os.path.join(dst, f))
    v, n = version()
    cfg = CONFIG_H
    for k, x in (("{v}", v), ("{ma}", str(n[0])), ("{mi}", str(n[1])), ("{pa}", str(n[2]))):
        cfg = cfg.replace(k, x)
    write_if_changed(os.path.join(top, "config.h"), cfg)
    h = readb(os.path.join(src, "cypher-parser.h.in")).decode()
    for k, x in (("PACKAGE_VERSION", v), ("PACKAGE_MAJOR_VERSION", str(n[0])),
                 ("PACKAGE_MINOR_VERSION", str(n[1])), ("PACKAGE_PATCH_VERSION", str(n[2])),
                 ("PACKAGE_DEVELOPMENT_VERSION", "devel"), ("PACKAGE_STATUS_VERSION", "1")):
        h = h.replace("@%s@" % k, x)
    write_if_changed(os.path.join(src, "cypher-parser.h"), h)

    for f in sorted(os.listdir(src)):
        if f.endswith(".leg"):
            out = os.path.join(src, f[:-4] + "_leg.c")
            stamp = out + ".stamp"
            d = digest(readb(os.path.join(src, f)))
            if not os.path.exists(out) or not os.path.exists(stamp) or open(stamp).read() != d:
                run(["leg", "-o", out + ".tmp", os.path.join(src, f)])
                os.rename(out + ".tmp", out)
                write_if_changed(stamp, d)

    headers = digest(*[readb(os.path.join(src, f)) for f in sorted(os.listdir(src)) if f.endswith(".h")],
                     readb(os.path.join(top, "config.h")))
    flags = spec["cflags"] + WARN
    inc = ["-I" + top, "-I" + src]

    def compile_one(job):
        cc, path, std, deps = job
        fl = flags + (spec.get("libflags", []) if os.path.dirname(path) == src else [])
        key = digest(cc, std, " ".join(fl), headers, readb(path), *deps)[:40]
        o = os.path.join(obj, os.path.basename(path) + "-" + key + ".o")
        if os.path.exists(o):
            os.utime(o)
        else:
            tmp = o + ".tmp%d" % os.getpid()
            run([cc, std, "-c"] + fl + inc + ["-I" + os.path.join(VERIF, "src"),
                 "-pthread", path, "-o", tmp])
            os.rename(tmp, o)
        return o

    jobs = []
    for f in sorted(os.listdir(src)):
        if f.endswith(".c") and not f.endswith("_leg.c"):
            deps = []
            leg = os.path.join(src, f[:-2] + "_leg.c")
            if os.path.exists(leg):
                deps.append(readb(leg))
            jobs.append(("clang", os.path.join(src, f), "-std=gnu11", deps))
    nlib = len(jobs)
    vsrc = os.path.join(VERIF, "src")
    vheaders = [readb(os.path.join(vsrc, f)) for f in sorted(os.listdir(vsrc))
                if f.endswith((".hpp", ".h", ".inc"))]
    common = sorted(f for f in os.listdir(vsrc) if f.startswith("lib_") and f.endswith(".cpp"))
    for f in common:
        jobs.append(("clang++", os.path.join(vsrc, f), "-std=gnu++17", vheaders))
    for hname in harnesses:
        if hname == "cypher-lint":
            jobs.append(("clang", os.path.join(lint, "cypher-lint.c"), "-std=gnu11", []))
        elif os.path.exists(os.path.join(vsrc, hname + ".c")):
            jobs.append(("clang", os.path.join(vsrc, hname + ".c"), "-std=gnu11", vheaders))
        else:
            jobs.append(("clang++", os.path.join(vsrc, hname + ".cpp"), "-std=gnu++17", vheaders))
    jobs_sorted = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][1]))
    res = [None] * len(jobs)
    with ThreadPoolExecutor(8) as ex:
        futs = {i: ex.submit(compile_one, jobs[i]) for i in jobs_sorted}
        for i, f in futs.items():
            res[i] = f.result()
    libobjs = res[:nlib]
    commonobjs = res[nlib:nlib + len(common)]
    for hname, o in zip(harnesses, res[nlib + len(common):]):
        exe = os.path.join(base, hname)
        objs = [o] + (commonobjs if hname != "cypher-lint" else []) + libobjs
        key = digest(*[os.path.basename(x) for x in objs], " ".join(spec["ldflags"]))
        st = exe + ".stamp"
        if not os.path.exists(exe) or not os.path.exists(st) or open(st).read() != key:
            wrap = [] if hname == "cypher-lint" else ["-Wl,--wrap=" + f for f in
                ["malloc", "calloc", "realloc", "reallocarray", "free", "strdup", "strndup"] + spec.get("wrap", [])]
            run(["clang++"] + spec["ldflags"] + wrap + objs + ["-pthread", "-lm", "-ldl", "-o", exe + ".tmp"])
            os.rename(exe + ".tmp", exe)
            write_if_changed(st, key)
    prune(obj, 1500, ".o")
    return base

if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
