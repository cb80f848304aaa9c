"""Content-hash based build of /repo sources and the harnesses in /verif/harness.

An object is rebuilt iff the content of its source, of any header under /repo or
/verif it included last time, or its command line changed.  Time stamps are
never consulted, so checks always see the current working tree.
"""
import os, re, sys, json, hashlib, subprocess, threading, fcntl, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin" if REPO == "/repo" else "bin-" + hashlib.sha1(REPO.encode()).hexdigest()[:8])
GEN = os.path.join(BUILD, "gen")

CXXFLAGS = ["-O1", "-w", "-std=c++14", "-pthread", "-fPIC"]
CFLAGS = ["-O1", "-w", "-fPIC"]
DEFS = ["-DKENLM_MAX_ORDER=6", "-DHAVE_CONFIG_H"]
SYSLIBS = ["-lboost_program_options", "-lboost_serialization", "-lboost_filesystem",
           "-lboost_system", "-lboost_thread", "-lboost_regex", "-lz", "-lbz2",
           "-llzma", "-ldl", "-lrt", "-pthread"]

class BuildError(Exception):
    pass

_hash_cache = {}
_hl = threading.Lock()

def file_hash(p):
    with _hl:
        if p in _hash_cache:
            return _hash_cache[p]
    try:
        with open(p, "rb") as f:
            h = hashlib.sha1(f.read()).hexdigest()
    except OSError:
        h = "missing"
    with _hl:
        _hash_cache[p] = h
    return h

def incdirs(extra=()):
    r = REPO
    d = [GEN, VERIF + "/harness", r, r + "/utils", r + "/mteval", r + "/decoder", r + "/klm",
         r + "/training/utils", r + "/training/dpmert", r + "/training/liblbfgs",
         r + "/extractor", r + "/extractor/features", r + "/word-aligner"]
    out = []
    for x in list(extra) + d:
        out += ["-I", x]
    return out + ["-isystem", "/usr/include/eigen3"]

def cmake_list(path, var):
    """Sources named in set(<var> ...) of a CMakeLists.txt."""
    t = open(os.path.join(REPO, path)).read()
    m = re.search(r'(?mi)^\s*set\s*\(\s*%s\b(.*?)\)' % re.escape(var),
                  re.sub(r'\$\{[^}]*\}', '', t), re.S)
    if not m:
        raise BuildError("no %s in %s" % (var, path))
    d = os.path.dirname(path)
    out = []
    for x in m.group(1).split():
        if re.search(r'\.(cc|cpp|c|cxx)$', x):
            p = os.path.normpath(os.path.join(REPO, d, x))
            if os.path.exists(p):
                out.append(p)
    return out

def lib_sources(name):
    L = {
        "utils": lambda: cmake_list("utils/CMakeLists.txt", "utils_STAT_SRCS"),
        "mteval": lambda: cmake_list("mteval/CMakeLists.txt", "mteval_STAT_SRCS") + [gen_meteor()],
        "decoder": lambda: cmake_list("decoder/CMakeLists.txt", "libcdec_SRCS") + [gen_lexer()],
        "klm_util": lambda: cmake_list("klm/util/CMakeLists.txt", "klm_util_STAT_SRCS"),
        "klm_double": lambda: cmake_list("klm/util/double-conversion/CMakeLists.txt", "klm_util_double_STAT_SRCS"),
        "klm_stream": lambda: cmake_list("klm/util/stream/CMakeLists.txt", "klm_util_stream_STAT_SRCS"),
        "klm": lambda: cmake_list("klm/lm/CMakeLists.txt", "klm_STAT_SRCS"),
        "ksearch": lambda: cmake_list("klm/search/CMakeLists.txt", "ksearch_STAT_SRCS"),
        "lmplz_all": lambda: cmake_list("klm/lm/builder/CMakeLists.txt", "lmplz_SRCS"),
        "lmplz": lambda: [s for s in cmake_list("klm/lm/builder/CMakeLists.txt", "lmplz_SRCS") if not s.endswith("_main.cc")],
        "training_utils": lambda: cmake_list("training/utils/CMakeLists.txt", "training_utils_STAT_SRCS"),
        "lbfgs": lambda: cmake_list("training/liblbfgs/CMakeLists.txt", "lbfgs_STAT_SRCS"),
        "dpmert": lambda: [s for s in cmake_list("training/dpmert/CMakeLists.txt", "dpmert_SRCS") if not s.endswith("mr_dpmert_map.cc")],
        "extractor": lambda: cmake_list("extractor/CMakeLists.txt", "extractor_STAT_SRCS"),
    }
    return L[name]()

def gen_meteor():
    p = os.path.join(GEN, "meteor_jar_stub.cc")
    return write_if_changed(p, 'const char* meteor_jar_path = "";\n')

def write_if_changed(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    try:
        if open(p).read() == text:
            return p
    except OSError:
        pass
    with open(p + ".tmp%d" % os.getpid(), "w") as f:
        f.write(text)
    os.rename(p + ".tmp%d" % os.getpid(), p)
    return p

def gen_lexer():
    src = os.path.join(REPO, "decoder/rule_lexer.ll")
    p = os.path.join(GEN, "rule_lexer_%s.cc" % file_hash(src)[:16])
    if not os.path.exists(p):
        os.makedirs(GEN, exist_ok=True)
        t = p + ".tmp%d" % os.getpid()
        r = subprocess.run(["flex", "-o", t, src], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("flex: " + r.stderr)
        os.rename(t, p)
    return p

def gen_config():
    write_if_changed(os.path.join(GEN, "config.h"),
        "#ifndef CONFIG_H\n#define CONFIG_H\n#define HAVE_ZLIB 1\n#define HAVE_BZLIB 1\n"
        "#define HAVE_XZLIB 1\n#define HAVE_EIGEN 1\n#endif\n")

def compile_one(src, flags=(), extra_inc=()):
    c = src.endswith(".c")
    base = (["gcc"] + CFLAGS) if c else (["g++"] + CXXFLAGS + ["-include", VERIF + "/harness/compat.h"])
    cmd = base + DEFS + list(flags) + incdirs(extra_inc)
    key = hashlib.sha1(("\0".join(cmd) + "\0" + src).encode()).hexdigest()[:20]
    obj = os.path.join(OBJ, os.path.basename(src) + "." + key + ".o")
    meta = obj + ".json"
    try:
        m = json.load(open(meta))
        if os.path.exists(obj) and all(file_hash(p) == h for p, h in m["deps"]):
            return obj, m["id"]
    except (OSError, ValueError, KeyError):
        pass
    tmp = "%s.tmp%d.%d" % (obj, os.getpid(), threading.get_ident())
    r = subprocess.run(cmd + ["-MMD", "-MF", tmp + ".d", "-c", src, "-o", tmp],
                       capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stderr[-4000:]))
    d = open(tmp + ".d").read().replace("\\\n", " ")
    os.unlink(tmp + ".d")
    deps = d.split(":", 1)[1].split()
    deps = sorted({os.path.realpath(x) for x in deps if os.path.realpath(x).startswith((os.path.realpath(REPO) + "/", VERIF + "/"))})
    dh = [[p, file_hash(p)] for p in deps]
    ident = hashlib.sha1(json.dumps([dh, cmd, src]).encode()).hexdigest()
    os.rename(tmp, obj)
    with open(meta + ".tmp%d" % os.getpid(), "w") as f:
        json.dump({"deps": dh, "id": ident}, f)
    os.rename(meta + ".tmp%d" % os.getpid(), meta)
    return obj, ident

def build(targets):
    """targets: {name: dict(src=[...], libs=[...], flags=[...], ldflags=[...], inc=[...], drop=[regex])}
    Returns {name: path of the executable}."""
    t0 = time.time()
    for d in (OBJ, BIN, GEN):
        os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        _hash_cache.clear()
        gen_config()
        jobs = {}
        plan = {}
        for name, t in targets.items():
            srcs = [s if s.startswith("/") else
                    (os.path.join(VERIF, "harness", s) if os.path.exists(os.path.join(VERIF, "harness", s)) else os.path.join(REPO, s))
                    for s in t.get("src", [])]
            for l in t.get("libs", []):
                srcs += lib_sources(l)
            for rx in t.get("drop", []):
                srcs = [s for s in srcs if not re.search(rx, s)]
            seen, u = set(), []
            for s in srcs:
                if s not in seen:
                    seen.add(s); u.append(s)
            ks = []
            for s in u:
                k = (s, tuple(t.get("flags", ())), tuple(t.get("inc", ())))
                jobs[k] = None
                ks.append(k)
            plan[name] = ks
        # biggest first
        order = sorted(jobs, key=lambda k: -(os.path.getsize(k[0]) if os.path.exists(k[0]) else 0))
        with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            futs = {k: ex.submit(compile_one, k[0], k[1], k[2]) for k in order}
            for k, f in futs.items():
                jobs[k] = f.result()
        out = {}
        def link(name):
            t = targets[name]
            objs = [jobs[k] for k in plan[name]]
            exe = os.path.join(BIN, name)
            ident = hashlib.sha1(json.dumps([[o for o in objs], t.get("ldflags", [])]).encode()).hexdigest()
            try:
                if open(exe + ".id").read() == ident and os.path.exists(exe):
                    return exe
            except OSError:
                pass
            r = subprocess.run(["g++", "-o", exe + ".tmp"] + [o for o, _ in objs] + list(t.get("flags", ())) +
                               list(t.get("ldflags", [])) + SYSLIBS, capture_output=True, text=True)
            if r.returncode:
                raise BuildError("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
            os.rename(exe + ".tmp", exe)
            open(exe + ".id", "w").write(ident)
            return exe
        with ThreadPoolExecutor(max_workers=8) as ex:
            for name, exe in zip(targets, ex.map(link, list(targets))):
                out[name] = exe
    sys.stderr.write("[build] %s: %.1fs\n" % (", ".join(targets), time.time() - t0))
    return out

DECODER_LIBS = ["decoder", "mteval", "utils", "ksearch", "klm", "klm_util", "klm_double"]
