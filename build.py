#!/usr/bin/env python3
"""Builds the simulation executables from /repo's current working tree.

Content-addressed: an object is reused only when the compile command and the content of
every file it includes are unchanged. Output goes to the git-ignored build/ folder."""
import concurrent.futures, fnmatch, hashlib, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("HDK_REPO", "/repo")
OMNI = os.path.join(REPO, "omniscidb")
OUT = os.path.join(VERIF, "build")

DEFS = """-D_GNU_SOURCE -DARROW_NO_DEPRECATED_API -DBOOST_LOG_DYN_LINK -DBOOST_FILESYSTEM_DYN_LINK
-DBOOST_PROGRAM_OPTIONS_DYN_LINK -DBOOST_THREAD_DYN_LINK -DBOOST_SYSTEM_DYN_LINK -DBOOST_REGEX_DYN_LINK
-DBOOST_LOCALE_DYN_LINK -DBOOST_ALL_NO_LIB -DENABLE_SHARED_LIBS -DHAVE_ARMADILLO -DRAPIDJSON_HAS_STDSTRING
-DRAPIDJSON_NOMEMBERITERATORCLASS -DTBB_PREVIEW_TASK_GROUP_EXTENSIONS=1 -D__STDC_LIMIT_MACROS
-D__STDC_CONSTANT_MACROS -D__STDC_FORMAT_MACROS -DNDEBUG -DHDK_SIM""".split() + ['-DOSDEPENDENT_SHARED_OBJECT_NAME="libOSDependent.so"']
INCS = [f"-I{VERIF}/sim", f"-I{VERIF}/stubs", f"-I{OMNI}", "-isystem", "/usr/lib/llvm-16/include",
        f"-I{OMNI}/ThirdParty/rapidjson", f"-I{OMNI}/ThirdParty"]
BASE = ["g++", "-std=gnu++17", "-g1", "-w", "-fno-pie", "-fno-strict-aliasing", "-pthread"]
INSTR = ["-O1", "-fsanitize=thread", "--param", "tsan-instrument-func-entry-exit=0"]
PLAIN = ["-O2"]
WRAPS = "memcpy memmove memset memcmp".split()
LIBS = ["-lboost_log", "-lboost_log_setup", "-lboost_filesystem", "-lboost_program_options", "-lboost_thread",
        "-lboost_system", "-lboost_regex", "-lboost_locale", "-ldl", "-lpthread"]

# name -> (sources relative to omniscidb (globs), exclusions)
LIBSETS = {
    "logger": ["Logger/*.cpp"],
    "shared": ["Shared/*.cpp", "!Shared/nvtx_helpers.cpp", "OSDependent/Unix/*.cpp", "Logger/*.cpp"],
    "utils": ["Utils/*.cpp", "!Utils/CommandLineOptions.cpp"],
    "dict": ["StringDictionary/*.cpp"],
    "ir": ["IR/*.cpp"],
    "schema": ["SchemaMgr/*.cpp"],
    "datamgr": ["DataMgr/*.cpp", "DataMgr/*/*.cpp", "DataMgr/*/*/*.cpp", "CudaMgr/CudaMgrNoCuda.cpp",
                "L0Mgr/L0MgrNoL0.cpp", "L0Mgr/L0ExceptionNoL0.cpp"],
    "resultset": ["ResultSet/*.cpp", "!ResultSet/ArrowResultSet*.cpp"],
    "configbuilder": ["ConfigBuilder/*.cpp"],
    "sqlite": ["SqliteConnector/*.cpp"],
    "costmodel": ["QueryEngine/CostModel/*.cpp", "QueryEngine/CostModel/*/*.cpp", "!QueryEngine/CostModel/DataSources/DwarfBench.cpp"],
    "querybuilder": ["QueryBuilder/*.cpp", "QueryOptimizer/*.cpp", "Analyzer/*.cpp"],
}
# Pure, single-threaded helpers: compiled without instrumentation (they only cost steps).
NOINSTR = ["Utils/Regexp.cpp", "Utils/StringLike.cpp", "Shared/*", "OSDependent/*", "Utils/Extract*"]

# The query engine: only the files that run (or share state between) concurrent tasks are
# instrumented; expression translation and code generation run uninterrupted inside a task.
ENGINE_INSTR = """Execute.cpp ExecutionKernel.cpp ColumnFetcher.cpp JoinHashTable/* DataRecycler/*
QueryExecutionContext.cpp ResultSetReduction.cpp ResultSetReductionInterpreter*.cpp ResultSetSort.cpp InputMetadata.cpp
StringDictionaryTranslationMgr.cpp StreamingTopN.cpp SpeculativeTopN.cpp InPlaceSort.cpp ResultSetBuilder.cpp InValuesBitmap.cpp
QueryPlanDagCache.cpp WindowContext.cpp StringFunctions.cpp""".split()


def engine_sources():
    txt = open(os.path.join(OMNI, "QueryEngine/CMakeLists.txt")).read()
    body = re.search(r"set\(query_engine_source_files(.*?)\)", txt, re.S).group(1)
    out = []
    for w in body.split():
        if w.endswith(".cpp"):
            out.append(os.path.join(OMNI, "QueryEngine", w.replace("${CMAKE_CURRENT_SOURCE_DIR}/", "")))
    return out


GROUPS = {}


def group(name, scen, sets, extra_src=(), libs=(), defs=(), incs=(), files=(), engine=False, noinstr=()):
    GROUPS[name] = dict(scen=list(scen), sets=list(sets), extra=list(extra_src), libs=list(libs), defs=list(defs),
                        incs=list(incs), files=list(files), engine=engine, noinstr=list(noinstr))


sys.path.insert(0, VERIF)
import groups  # noqa: E402

groups.define(group)


def sha(path, cache={}):
    try:
        st = os.stat(path)
    except OSError:
        return "missing"
    k = (path, st.st_mtime_ns, st.st_size)
    if k not in cache:
        with open(path, "rb") as f:
            cache[k] = hashlib.sha1(f.read()).hexdigest()
    return cache[k]


def expand(pats, root=OMNI):
    import glob
    out = []
    for p in pats:
        if p.startswith("!"):
            ex = p[1:]
            out = [o for o in out if not fnmatch.fnmatch(os.path.relpath(o, root), ex)]
        else:
            for f in sorted(glob.glob(os.path.join(root, p))):
                if f not in out:
                    out.append(f)
    return out


def compile_cmd(src, instr, extra):
    if src.endswith(".bc"):
        return ["clang++-16", "-std=c++17", "-O3", "-w", "-emit-llvm", "-DEXECUTE_INCLUDE", "-I", OMNI] + extra + ["-c", src[:-3]]
    return BASE + (INSTR if instr else PLAIN) + DEFS + extra + INCS + ["-c", src]


def obj_for(src, instr, extra):
    cmd = compile_cmd(src, instr, extra)
    key = hashlib.sha1("\0".join(cmd).encode()).hexdigest()[:16]
    base = os.path.basename(src)
    obj = os.path.join(OUT, "obj", f"{base}-{key}.o")
    stamp = obj + ".json"
    try:
        st = json.load(open(stamp))
        if os.path.exists(obj) and all(sha(f) == h for f, h in st.items()):
            return obj, 0.0, None
    except (OSError, ValueError):
        pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    t = time.time()
    dep = obj + ".d"
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, time.time() - t, f"{src}:\n{r.stdout}"
    txt = open(dep).read().replace("\\\n", " ")
    files = txt.split(":", 1)[1].split()
    deps = {f: sha(f) for f in files if not f.startswith("/usr/")}
    if "-include" in extra:  # what the precompiled header was made of
        st = json.load(open(extra[extra.index("-include") + 1] + ".json"))
        st.pop("cmd")
        deps.update(st)
    json.dump(deps, open(stamp, "w"))
    return obj, time.time() - t, None


class Pch:
    """Precompiled QueryEngine/Execute.h for the uninstrumented engine files."""

    def __init__(self, gd, instr):
        self.instr = instr
        self.hdr = os.path.join(OUT, "pch", "instr" if instr else "plain", "engine_pch.h")
        self.flags = ["-include", self.hdr]
        self.gd = gd
        self.ready = threading.Event()

    def make(self):
        try:
            os.makedirs(os.path.dirname(self.hdr), exist_ok=True)
            if not os.path.exists(self.hdr):
                open(self.hdr, "w").write('#include "QueryEngine/Execute.h"\n')
            cmd = BASE + (INSTR if self.instr else PLAIN) + DEFS + ([] if self.instr else ["-g0", "-O1"]) + self.gd + INCS + ["-x", "c++-header", self.hdr]
            gch, stamp = self.hdr + ".gch", self.hdr + ".json"
            try:
                st = json.load(open(stamp))
                if os.path.exists(gch) and st.pop("cmd") == cmd and all(sha(f) == h for f, h in st.items()):
                    return gch, 0.0, None
            except (OSError, ValueError, KeyError):
                pass
            t = time.time()
            r = subprocess.run(cmd + ["-MMD", "-MF", gch + ".d", "-o", gch], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode:
                return None, time.time() - t, "pch:\n" + r.stdout
            files = open(gch + ".d").read().replace("\\\n", " ").split(":", 1)[1].split()
            json.dump(dict({f: sha(f) for f in files if not f.startswith("/usr/")}, cmd=cmd), open(stamp, "w"))
            return gch, time.time() - t, None
        finally:
            self.ready.set()


def build(name, quiet=False):
    g = GROUPS[name]
    t0 = time.time()
    jobs = []  # (src, instr, extra, is_repo)
    for s in ("sim.cpp", "driver.cpp", "tbbcore.cpp"):
        jobs.append((os.path.join(VERIF, "sim", s), False, [], False))
    gd = ["-D" + d for d in g["defs"]] + g["incs"]
    for s in g["scen"]:
        jobs.append((os.path.join(VERIF, "scenarios", s), True, gd, False))
    for s in g["extra"]:
        jobs.append((os.path.join(VERIF, s), True, gd, False))
    seen = set()
    for st in g["sets"]:
        for f in expand(LIBSETS[st]):
            if f in seen:
                continue
            seen.add(f)
            rel = os.path.relpath(f, OMNI)
            ni = any(fnmatch.fnmatch(rel, p) for p in NOINSTR + g["noinstr"])
            jobs.append((f, not ni, gd, True))
    for f in expand(g["files"]):
        if f not in seen:
            seen.add(f)
            jobs.append((f, True, gd, True))
    bcs, pchs = [], []
    if g["engine"]:
        pchs = [Pch(gd, False), Pch(gd, True)]
        for f in engine_sources():
            rel = os.path.relpath(f, os.path.join(OMNI, "QueryEngine"))
            ins = any(fnmatch.fnmatch(rel, p) for p in ENGINE_INSTR)
            jobs.append((f, ins, ([] if ins else ["-g0", "-O1"]) + pchs[ins].flags + gd, True))
        for f in ("RuntimeFunctions", "DateAdd", "DateTruncate"):
            bcs.append((os.path.join(OMNI, "QueryEngine", f + ".cpp.bc"), False, [], True))
        jobs += bcs
    # biggest first
    jobs.sort(key=lambda j: ("-include" in j[2], -os.path.getsize(j[0].removesuffix(".bc"))))
    jobs = pchs + jobs
    objs, archive, errs, ncomp = [], [], [], 0
    with concurrent.futures.ThreadPoolExecutor(max_workers=int(os.environ.get("JOBS", "8"))) as ex:
        def work(j):
            if isinstance(j, Pch):
                return j.make()
            for p in pchs:
                if p.hdr in j[2]:
                    p.ready.wait()
            return obj_for(j[0], j[1], j[2])
        bcobjs = []
        for j, (obj, dt, err) in zip(jobs, ex.map(work, jobs)):
            if err:
                errs.append(err)
                continue
            ncomp += dt > 0
            if isinstance(j, Pch):
                continue
            if j in bcs:
                bcobjs.append(obj)
                continue
            (archive if j[3] else objs).append(obj)
    if errs:
        raise RuntimeError("compile failed\n" + "\n".join(e[:4000] for e in errs[:3]))
    if bcobjs:
        subprocess.run(["llvm-link-16", "-f"] + sorted(bcobjs) + ["-o", os.path.join(OUT, "RuntimeFunctions.bc")], check=True)
    exe = os.path.join(OUT, name)
    lib = os.path.join(OUT, f"lib{name}.a")
    key = hashlib.sha1(json.dumps([[(o, sha(o)) for o in objs + archive], g["libs"], LIBS, WRAPS]).encode()).hexdigest()
    kf = exe + ".key"
    if not (os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key):
        if os.path.exists(lib):
            os.unlink(lib)
        subprocess.run(["ar", "rcT", lib] + archive, check=True)
        cmd = ["g++", "-no-pie", "-rdynamic", "-g1", "-o", exe] + objs + [lib] + \
              ["-Wl,--wrap=" + w for w in WRAPS] + g["libs"] + LIBS
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError("link failed\n" + r.stdout[:6000])
        open(kf, "w").write(key)
    if not quiet:
        print(f"built {name}: {ncomp}/{len(jobs)} compiled in {time.time()-t0:.1f}s", file=sys.stderr)
    return exe


if __name__ == "__main__":
    for n in (sys.argv[1:] or GROUPS):
        build(n)
