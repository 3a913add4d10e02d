#!/usr/bin/env python3
"""Builds the code under test from /repo's current working tree into /verif/build.

Objects are cached by content (source + all headers + flags), never by time stamp,
so a build always reflects the working tree.  Products: vegapp, harness, meddump.
"""
import os, sys, hashlib, subprocess, glob, fcntl, concurrent.futures as cf
REPO = os.environ.get("VEGA_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
DIRS = ["Abstract", "Aster", "Nastran", "Optistruct", "ResultReaders", "Systus", "Commandline"]
FLAGS = ["-O0", "-std=gnu++14", "-w", "-fstack-protector-all"]
LIBS = ("-lmedC /usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so -lcrypto -lcurl -lpthread -lsz -lz -ldl -lm "
        "-lboost_thread -lboost_date_time -lboost_program_options -lboost_filesystem -lboost_system -lboost_regex "
        "-lboost_chrono -lboost_atomic -pthread -rdynamic").split()
COMPAT = """#ifdef __cplusplus
#define make_unique vp_libstdcxx_make_unique
#include <memory>
#undef make_unique
#include <array>
#include <deque>
#include <list>
#include <map>
#include <set>
#endif
"""
PCH = COMPAT + """#ifdef __cplusplus
""" + "".join("#include <%s>\n" % h for h in """boost/config.hpp string iostream fstream vector algorithm unordered_map sstream cmath iomanip
boost/filesystem.hpp boost/algorithm/string.hpp boost/assign.hpp boost/lexical_cast.hpp boost/variant.hpp boost/tokenizer.hpp
boost/optional.hpp boost/bimap.hpp boost/bimap/list_of.hpp boost/numeric/ublas/matrix.hpp
boost/numeric/ublas/matrix_expression.hpp boost/numeric/ublas/vector_expression.hpp boost/functional/hash.hpp""".split()) + "#endif\n"
PROPS = """#ifndef BUILD_PROPERTIES_H_
#define BUILD_PROPERTIES_H_
#define VEGA_VERSION_MAJOR 3
#define VEGA_VERSION_MINOR 1
#define VEGA_VERSION_PATCH 1
#define VEGA_VERSION_EXTRA ""
#define PROJECT_BASE_DIR "%s"
#define PROJECT_BINARY_DIR "%s"
#define Backtrace_FOUND 0
#define LIBUNWIND_FOUND 0
#define VALGRIND_FOUND 1
#define TESTS_NIGHTLY_BUILD ""
#define BUILD_TYPE "Debug"
#define DOXYGEN_DOT_EXECUTABLE ""
#define RUN_ASTER 0
#define ENABLE_ASTER 1
#define RUN_SYSTUS 0
#define RUN_NASTRAN 1
#endif
"""
class BuildError(Exception): pass

def sha(*parts):
    h = hashlib.sha256()
    for x in parts:
        h.update(x if isinstance(x, bytes) else x.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def rd(p):
    with open(p, "rb") as f: return f.read()

def wr(p, s):
    if os.path.exists(p) and rd(p) == s.encode(): return
    with open(p, "w") as f: f.write(s)

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def build(want=("vegapp",)):
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(want)

def _build(want):
    obj = os.path.join(BUILD, "obj"); inc = os.path.join(BUILD, "inc")
    os.makedirs(obj, exist_ok=True); os.makedirs(inc, exist_ok=True)
    wr(os.path.join(inc, "build_properties.h"), PROPS % (REPO, BUILD))
    out = {}
    jobs = []
    hs = [w for w in want if w.startswith("h_")]       # API harnesses: harness/h_*.cpp
    need_cpp = "vegapp" in want or hs
    incs = ["-I" + inc, "-I/usr/include/hdf5/serial", "-I" + REPO]
    if need_cpp:
        hdrs = sorted(glob.glob(REPO + "/*/*.h") + glob.glob(REPO + "/*/*.hpp"))
        hkey = sha(*[h for h in hdrs], *[rd(h) for h in hdrs], " ".join(FLAGS), PROPS, PCH)
        srcs = [s for d in DIRS for s in sorted(glob.glob("%s/%s/*.cpp" % (REPO, d)))]
        srcs += ["%s/harness/%s.cpp" % (VERIF, h) for h in hs]
        pdir = os.path.join(inc, "pch"); os.makedirs(pdir, exist_ok=True)
        ph = os.path.join(pdir, "vpch.h"); gch = ph + ".gch"; kf = os.path.join(pdir, "key")
        pk = sha(PCH, " ".join(FLAGS))
        if not (os.path.exists(gch) and os.path.exists(kf) and rd(kf).decode() == pk):
            wr(ph, PCH)
            run(["g++"] + FLAGS + ["-x", "c++-header", ph, "-o", gch]); wr(kf, pk)
        big = {"Model.cpp": 9, "CSVResultReader.cpp": 10, "NastranParser.cpp": 9, "Constraint.cpp": 8, "Mesh.cpp": 7, "Analysis.cpp": 6}
        srcs.sort(key=lambda s: -big.get(os.path.basename(s), 0))
        for s in srcs:
            k = sha(hkey, s, rd(s))
            o = os.path.join(obj, os.path.basename(s)[:-4] + "-" + k + ".o")
            out[s] = o
            if not os.path.exists(o):
                jobs.append(["g++", "-include", ph] + FLAGS + incs + ["-c", s, "-o", o])
        def one(c):
            t = c[:-1] + [c[-1] + ".tmp%d" % os.getpid()]
            run(t); os.rename(t[-1], c[-1])
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(one, jobs))
    res = {}
    def link(name, objs, extra=LIBS):
        k = sha(name, *objs)
        f = os.path.join(BUILD, name + "-" + k)
        if not os.path.exists(f):
            for old in glob.glob(os.path.join(BUILD, name + "-*")): os.unlink(old)
            run(["g++", "-o", f + ".tmp"] + objs + extra); os.rename(f + ".tmp", f)
        res[name] = f
    links = []
    if "vegapp" in want:
        links.append(("vegapp", [o for s, o in out.items() if "/harness/" not in s]))
    for h in hs:
        links.append((h, [o for s, o in out.items() if not s.endswith("/vegamain.cpp") and ("/harness/" not in s or s.endswith("/%s.cpp" % h))]))
    with cf.ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda a: link(*a), links))
    if "meddump" in want:
        s = VERIF + "/harness/meddump.c"; f = os.path.join(BUILD, "meddump-" + sha(rd(s)))
        if not os.path.exists(f):
            run(["gcc", "-O1", "-w", "-I/usr/include/hdf5/serial", s, "-o", f + ".tmp", "-lmedC", "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so", "-lm"])
            os.rename(f + ".tmp", f)
        res["meddump"] = f
    # drop stale objects
    keep = set(out.values())
    if need_cpp and jobs:
        for o in glob.glob(obj + "/*.o"):
            if o not in keep and not os.path.basename(o).startswith("h_"): os.unlink(o)
    return res

if __name__ == "__main__":
    import time; t = time.time()
    print(build(sys.argv[1:] or ("vegapp",)), "%.1fs" % (time.time() - t))
