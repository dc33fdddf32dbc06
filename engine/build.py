"""Builds the symbolic and the replay binary of a harness from /repo's current tree."""
import hashlib, os, re, shutil, subprocess, sys, glob, time, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ZMDP_REPO", "/repo")
SRC = REPO + "/src"
ENG = VERIF + "/engine"
CACHE = os.environ.get("ZMDP_VERIF_BUILD", VERIF + "/.build")
JOBS = int(os.environ.get("ZMDP_VERIF_JOBS", "8"))
LIBDIRS = {"common": "common", "bounds": "bounds", "pomdpBounds": "pomdpBounds", "pomdpCore": "pomdpCore",
           "search": "search", "exec": "exec", "mdps": "mdps", "parsers": "parsers"}
DEFS = ["-DZMDP_VERSION=1.1.7", '-DCFLAGS="x"', "-w", "-fpermissive"]
CLANG_FLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-ffp-contract=off", "-fno-math-errno" if 0 else "-fmath-errno"]
REDEF = ["rand", "srand", "gettimeofday", "time", "usleep", "exit", "__assert_fail", "abort", "random", "clock_gettime", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv"]

class BuildError(Exception): pass

def sh(cmd, cwd=None, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout.decode(errors="replace")[-3000:]))
    return r.stdout.decode(errors="replace")

def lib_sources(d):
    """The sources the project's own Makefile lists for library directory d."""
    txt = open("%s/%s/Makefile" % (SRC, d)).read().replace("\\\n", " ")
    out = []
    for m in re.finditer(r"^BUILDLIB_SRCS\s*:?=\s*(.*)$", txt, re.M):
        out += m.group(1).split()
    return out

def file_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()

def _unused_repo_files():
    out = []
    for root, dirs, files in os.walk(SRC):
        dirs[:] = [d for d in dirs if d not in ("obj", "lib", "bin", "tests", "testTmp", "tools", "docker", "include")]
        for f in files:
            if f.endswith((".cc", ".h", ".c", ".y", ".l", ".config", "Makefile", ".perl", ".mak")):
                out.append(os.path.join(root, f))
    return out


class lock:
    def __init__(self, p): self.p = p
    def __enter__(self): self.f = open(self.p, "w"); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a): self.f.close()

_base = None
def base_dir():
    """Generated headers and parser sources, keyed by what they are generated from."""
    global _base
    if _base: return _base
    hdrs = []
    for dd in list(LIBDIRS) + ["main", "pomdpModels/lifeSurvey"]:
        hdrs += glob.glob("%s/%s/*.h" % (SRC, dd))
    gen = [SRC + "/parsers/pomdp_spec.y", SRC + "/parsers/pomdp_spec.l", SRC + "/build/embedFiles.perl"] + glob.glob(SRC + "/main/*.config") + glob.glob(SRC + "/main/*.h")
    # gcc -fpermissive accepts static_cast<size_t>(pointer); clang does not: those headers are copied with a C cast
    perm = [h for h in hdrs if "static_cast<size_t>" in open(h, errors="replace").read()]
    gen += perm
    key = hashlib.sha256((file_hash(gen) + REPO + ",".join(sorted(hdrs)) + file_hash([ENG + "/build.py"])).encode()).hexdigest()[:12]
    os.makedirs(CACHE, exist_ok=True)
    d = CACHE + "/inc-" + key
    with lock(CACHE + "/.lock"):
        if not os.path.exists(d + "/.prepared"):
            shutil.rmtree(d, ignore_errors=True)
            inc = d + "/include"
            os.makedirs(inc)
            for h in hdrs:
                t = inc + "/" + os.path.basename(h)
                if os.path.lexists(t): continue
                if h in perm: open(t, "w").write(re.sub(r"static_cast<size_t>\(", "(size_t)(", open(h, errors="replace").read()))
                else: os.symlink(h, t)
            sh(["bison", "--defines", "--name-prefix=yy", SRC + "/parsers/pomdp_spec.y", "-o", inc + "/pomdp_spec.tab.cc"])
            for a, b in (("pomdp_spec.tab.cc.h", "pomdp_spec.tab.hh"), ("pomdp_spec.tab.hh", "pomdp_spec.tab.cc.h")):
                if os.path.exists(inc + "/" + a) and not os.path.lexists(inc + "/" + b): os.symlink(a, inc + "/" + b)
            sh(["flex", "-Pyy", "-f", "-Ca", "--nounput", "-o" + inc + "/pomdp_spec.yy.cc", SRC + "/parsers/pomdp_spec.l"])
            sh(["perl", SRC + "/build/embedFiles.perl", "-I" + inc, "-I" + SRC + "/common", "zmdpMainConfig.h", "-o", inc + "/zmdpMainConfig.cc"], cwd=SRC + "/main")
            open(d + "/.prepared", "w").write("ok")
    _base = d
    return d

def prune_cache(limit=1500):
    fs = sorted(glob.glob(CACHE + "/*/*.o") + glob.glob(CACHE + "/*.sym") + glob.glob(CACHE + "/*.replay"), key=os.path.getmtime)
    for f in fs[:-limit]:
        try: os.unlink(f)
        except OSError: pass

_enghash = None
def enghash():
    global _enghash
    if not _enghash: _enghash = file_hash([ENG + "/instrument.py", ENG + "/build.py", ENG + "/sym.h"])
    return _enghash

def obj_key(pp, path, salt):
    h = hashlib.sha256()
    h.update(pp.encode("utf8", "replace")); h.update(path.encode()); h.update(salt.encode()); h.update(enghash().encode())
    return h.hexdigest()[:20]

def compile_ll(d, path, sub, idbase, keep="", extra=()):
    """source -> LLVM IR -> instrumented object (cached by preprocessed content)"""
    is_c = path.endswith(".c")
    cc = ["clang", "-fcommon"] if is_c else ["clang++", "-std=gnu++14"]
    defs = [x for x in DEFS if not (is_c and x == "-fpermissive")] + list(extra)
    inc = ["-I" + os.path.dirname(path), "-I" + d + "/include", "-I" + d, "-I" + ENG] + (["-I" + SRC] if path.startswith(VERIF + "/harness/") else [])
    pp = sh(cc + defs + inc + ["-E", "-P", path])
    rel = os.path.relpath(path, SRC) if path.startswith(SRC) else os.path.basename(path)
    k = obj_key(pp, rel, "%d %s %s" % (idbase, keep, CLANG_FLAGS))
    os.makedirs(CACHE + "/sym", exist_ok=True)
    o = "%s/sym/%s-%s" % (CACHE, re.sub(r"[^A-Za-z0-9]", "_", rel), k)
    if os.path.exists(o + ".o") and os.path.exists(o + ".fn"):
        os.utime(o + ".o"); return o
    t = "%s.%d" % (o, os.getpid())
    sh(cc + CLANG_FLAGS + defs + inc + ["-S", "-emit-llvm", path, "-o", t + ".ll"])
    sh([sys.executable, ENG + "/instrument.py", t + ".ll", t + ".s.ll", t + ".fn", str(idbase), keep])
    sh(["clang", "-O1", "-w", "-c", t + ".s.ll", "-o", t + ".o"])
    os.unlink(t + ".ll"); os.unlink(t + ".s.ll")
    os.rename(t + ".fn", o + ".fn"); os.rename(t + ".o", o + ".o")
    return o

def compile_native(d, path, sub, extra=()):
    is_c = path.endswith(".c")
    cc = ["gcc", "-fcommon"] if is_c else ["g++", "-std=gnu++14"]
    inc = ["-I" + os.path.dirname(path), "-I" + d + "/include", "-I" + d, "-I" + ENG] + (["-I" + SRC] if path.startswith(VERIF + "/harness/") else [])
    defs = [x for x in DEFS if not (is_c and x == "-fpermissive")] + list(extra)
    pp = sh(cc + defs + inc + ["-E", "-P", path])
    rel = os.path.relpath(path, SRC) if path.startswith(SRC) else os.path.basename(path)
    k = obj_key(pp, rel, "nat")
    os.makedirs(CACHE + "/nat", exist_ok=True)
    o = "%s/nat/%s-%s" % (CACHE, re.sub(r"[^A-Za-z0-9]", "_", rel), k)
    if os.path.exists(o + ".o"):
        os.utime(o + ".o"); return o
    t = "%s.%d.o" % (o, os.getpid())
    sh(cc + ["-O1", "-fsanitize=address", "-ffp-contract=off"] + defs + inc + ["-c", path, "-o", t])
    cmd = ["objcopy"]
    for f in REDEF: cmd += ["--redefine-sym", "%s=__r_%s" % (f, f.strip("_"))]
    sh(cmd + [t])
    os.rename(t, o + ".o")
    return o

FLAGS = {}
def resolve(srcs):
    """srcs: list of library dirs or paths relative to src, or (path, [compiler flags])"""
    d = base_dir(); out = []
    for s in srcs:
        if isinstance(s, tuple): FLAGS[SRC + "/" + s[0]] = tuple(x.replace("@VERIF@", VERIF) for x in s[1]); s = s[0]
        if s in LIBDIRS:
            for f in lib_sources(s):
                if f.endswith((".tab.cc", ".yy.cc")): out.append(d + "/include/" + f)
                else: out.append("%s/%s/%s" % (SRC, s, f))
        elif s == "main":
            out += [SRC + "/main/TestDriver.cc", SRC + "/main/solverUtils.cc"]
        else: out.append(SRC + "/" + s)
    return out


def stable_base(path, allnames):
    return 100 + 600 * allnames.index(path) if path in allnames else 50000

def runtime_obj(src, flags):
    k = file_hash([ENG + "/" + src, ENG + "/sym.h"])[:16]
    o = "%s/%s-%s.o" % (CACHE, src.replace(".cc", ""), k)
    if not os.path.exists(o):
        t = o + ".%d" % os.getpid()
        sh(["g++"] + flags + ["-w", "-std=gnu++17", "-c", ENG + "/" + src, "-o", t]); os.rename(t, o)
    return o

def link(cmd, objs, libs, tag, suffix):
    k = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16]
    exe = "%s/%s-%s.%s" % (CACHE, tag, k, suffix)
    if not os.path.exists(exe):
        t = exe + ".%d" % os.getpid()
        sh(cmd + ["-o", t] + objs + libs); os.rename(t, exe)
    else: os.utime(exe)
    return exe

def build_symbolic(harness, srcs, extra=()):
    d = base_dir()
    hp = harness if harness.startswith("/") else VERIF + "/harness/" + harness
    paths = resolve(srcs)
    allnames = sorted(set(resolve(list(LIBDIRS)) + paths))
    def one(p):
        return compile_ll(d, p, "", stable_base(p, allnames), extra=extra if p == hp else FLAGS.get(p, ()))
    with ThreadPoolExecutor(JOBS) as ex:
        frt = ex.submit(runtime_obj, "symrt.cc", ["-O2"])
        objs = list(ex.map(one, [hp] + paths))
        r = frt.result()
    exe = link(["g++", "-rdynamic"], [o + ".o" for o in objs] + [r], ["-lz3", "-lgmpxx", "-lgmp", "-lpthread"], os.path.basename(hp).replace(".cc", ""), "sym")
    fnmap = {}
    for o in objs[1:]:
        for l in open(o + ".fn"):
            a, b = l.rstrip("\n").split(" ", 1)
            fnmap[int(a)] = (b, os.path.basename(o).rsplit("-", 1)[0])
    return exe, fnmap

def build_replay(harness, srcs, extra=()):
    d = base_dir()
    hp = harness if harness.startswith("/") else VERIF + "/harness/" + harness
    paths = resolve(srcs)
    with ThreadPoolExecutor(JOBS) as ex:
        fro = ex.submit(runtime_obj, "replayrt.cc", ["-O1", "-fsanitize=address"])
        objs = list(ex.map(lambda p: compile_native(d, p, "", extra=extra if p == hp else FLAGS.get(p, ())), [hp] + paths))
        r = fro.result()
    return link(["g++", "-fsanitize=address"], [o + ".o" for o in objs] + [r], ["-lgmpxx", "-lgmp"], os.path.basename(hp).replace(".cc", ""), "replay")
