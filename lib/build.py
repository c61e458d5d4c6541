#!/usr/bin/env python3
"""Builds a check binary from /repo's current sources.  build(variant) -> path of the binary.
Objects are cached under /verif/build by the hash of everything that goes into them."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
DEF = "-std=gnu++17 -w -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB -DBOOST_BIND_GLOBAL_PLACEHOLDERS -DBOOST_ALLOW_DEPRECATED_HEADERS".split()
LIBS = "-lboost_filesystem -lboost_regex -lboost_serialization -lspdlog -lfmt -lpthread -ldl".split()
def rd(p):
    with open(p, "rb") as f: return f.read()
def headers():
    return sorted(glob.glob(REPO + "/src/**/*.h", recursive=True) + glob.glob(REPO + "/src/**/*.hpp", recursive=True))
def repo_sources():
    return sorted(glob.glob(REPO + "/src/*.cpp"))
VARIANTS = {
  # plain: deterministic fiber scheduling, mock queue, assertions on
  "plain": dict(cc="g++", flags="-O1 -D_GLIBCXX_ASSERTIONS", inc=["mock/concurrentqueue", "src"],
                own=["src/main.cpp", "src/rt.cpp", "src/api.cpp", "src/check.cpp", "src/worlds.cpp", "src/checks_world.cpp", "src/checks_misc.cpp", "src/checks_parse.cpp", "src/checks_unit.cpp", "src/checks_size.cpp"], libs=[]),
  # tsan-instrumented, own runtime: schedule exploration + race detection
  "sched": dict(cc="clang++", flags="-O1 -g1 -fsanitize=thread -D_GLIBCXX_EXTERN_TEMPLATE=0", inc=["mock/concurrentqueue", "src"], shim=["mock/shim_workers.h", "mock/shim_consumers.h"],
                own=[], plainown=["src/sched_rt.cpp"], instr=["src/main.cpp", "src/api.cpp", "src/check.cpp", "src/worlds.cpp", "src/checks_sched.cpp"], libs=[]),
}
# asan: as plain, with AddressSanitizer and UndefinedBehaviorSanitizer
VARIANTS["asan"] = dict(cc="g++", flags="-O1 -g1 -fsanitize=address,undefined -fno-sanitize=vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer -D_GLIBCXX_ASSERTIONS -D_GLIBCXX_SANITIZE_VECTOR", inc=["mock/concurrentqueue", "src"],
                own=["src/main.cpp", "src/rt.cpp", "src/api.cpp", "src/check.cpp", "src/worlds.cpp", "src/checks_safe.cpp", "src/checks_world.cpp", "src/checks_size.cpp"], libs=["-fsanitize=address,undefined"])
# prog: the program itself (with its own threads and queues), and a checker that runs it
VARIANTS["groot"] = dict(cc="g++", flags="-O1 -DNDEBUG", inc=[], sysinc=["/opt/vp/include/concurrentqueue"], repo_extra=["bin/groot.cpp"], own=[], libs=["-ldocopt"])
VARIANTS["prog"] = dict(cc="g++", flags="-O1", inc=["src"], norepo=True, own=["src/main.cpp", "src/api_prog.cpp", "src/check.cpp", "src/worlds.cpp", "src/checks_world.cpp", "src/checks_prog.cpp", "src/checks_opts.cpp"], libs=[])
class BuildFailed(SystemExit): pass
def compile_one(cc, flags, src, extra_hash, shim=None):
    """shim: headers, the first of them the source compiles with is included before it"""
    h = hashlib.sha256((cc + " ".join(flags) + str(shim)).encode() + extra_hash + rd(src)).hexdigest()[:24]
    out = os.path.join(BUILD, "obj", os.path.basename(src) + "." + h + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.%s.tmp" % (os.getpid(), os.path.basename(src))
        for inc in [["-include", x] for x in shim or []] + [[]]:
            r = subprocess.run([cc] + flags + inc + ["-c", src, "-o", tmp], capture_output=True, text=True)
            if not r.returncode: break
        if r.returncode: raise BuildFailed("BUILD FAILED %s\n%s" % (src, r.stderr[-6000:]))
        os.replace(tmp, out)
    else: os.utime(out)
    return out
def build(variant):
    v = VARIANTS[variant]; os.makedirs(BUILD + "/obj", exist_ok=True); os.makedirs(BUILD + "/bin", exist_ok=True)
    inc = sum([["-I", os.path.join(VERIF, i)] for i in v["inc"]], []) + sum([["-I", i] for i in v.get("sysinc", [])], [])
    flags = DEF + v["flags"].split() + inc + ["-I", REPO + "/src"]
    hh = hashlib.sha256(); 
    for p in headers() + sorted(glob.glob(VERIF + "/mock/*/*.h") + glob.glob(VERIF + "/mock/*.h")): hh.update(p.encode()); hh.update(rd(p))
    rh = hh.digest()
    for p in sorted(glob.glob(VERIF + "/src/*.h*")): hh.update(rd(p))
    oh = hh.digest()
    shim = [os.path.join(VERIF, x) for x in v["shim"]] if "shim" in v else None
    jobs = [(v["cc"], flags, s, rh, shim) for s in ([] if v.get("norepo") else repo_sources() + [os.path.join(REPO, x) for x in v.get("repo_extra", [])])]
    jobs += [(v["cc"], flags, os.path.join(VERIF, s), oh) for s in v.get("own", []) + v.get("instr", [])]
    pf = [f for f in flags if not f.startswith("-fsanitize")]
    last = [(v["cc"], pf, os.path.join(VERIF, s), oh) for s in v.get("plainown", [])]  # linked last: weak functions come from the instrumented objects
    order = {"driver.cpp": 0, "zone-file-parser.cpp": 0, "checks_world.cpp": 0, "checks_misc.cpp": 0, "checks_parse.cpp": 0, "checks_unit.cpp": 0}
    jobs.sort(key=lambda j: order.get(os.path.basename(j[2]), 1))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count()) as ex: objs = list(ex.map(lambda j: compile_one(*j), jobs + last))
    objs = sorted(objs[:len(jobs)]) + objs[len(jobs):]
    h = hashlib.sha256(" ".join(objs).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, "bin", variant + "." + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run([v["cc"], "-o", tmp] + objs + ["-rdynamic"] + LIBS + v["libs"], capture_output=True, text=True)
        if r.returncode: raise BuildFailed("LINK FAILED\n" + r.stderr[-6000:])
        os.replace(tmp, exe)
    prune()
    return exe
def env(variant):
    """what a checker of this variant needs in its environment"""
    if variant != "prog": return {}
    src = VERIF + "/mock/faultio.c"; so = BUILD + "/bin/faultio." + hashlib.sha256(rd(src)).hexdigest()[:24] + ".so"
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-w", "-shared", "-fPIC", "-o", tmp, src, "-ldl"], capture_output=True, text=True)
        if r.returncode: raise BuildFailed("BUILD FAILED %s\n%s" % (src, r.stderr))
        os.replace(tmp, so)
    return dict(GROOT_BIN=build("groot"), FAULTIO=so)
def prune(limit=600 * 1024 * 1024):
    fs = sorted(((os.path.getmtime(p), os.path.getsize(p), p) for d in ("obj", "bin") for p in glob.glob(BUILD + "/" + d + "/*")), reverse=True)
    tot = 0
    for _, s, p in fs:
        tot += s
        if tot > limit:
            try: os.remove(p)
            except OSError: pass
if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]: print(build(v))
