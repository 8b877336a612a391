"""Out-of-tree builds of the library under test, and of the harnesses linked to it.

The library is always (re)configured and (incrementally) rebuilt from the working tree in REPO; nothing is
written inside the repository.  Build trees live in /verif/build (git-ignored).
"""
import fcntl, glob, hashlib, json, os, shlex, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
_tag = "" if REPO == "/repo" else "-" + hashlib.sha1(REPO.encode()).hexdigest()[:8]
BUILD = os.path.join(os.environ.get("VERIF_BUILD", os.path.join(HERE, "build" + _tag)))

FLAVOURS = {
    "plain": dict(flags="-O1 -g -DNDEBUG", opts=[]),
    "asan": dict(flags="-O1 -g -DNDEBUG -fsanitize=address -fno-omit-frame-pointer", opts=[]),
    "tsan": dict(flags="-O1 -g -DNDEBUG -fsanitize=thread", opts=[]),
    "ttl": dict(flags="-O1 -g -DNDEBUG", opts=["-DSUPPORT_TTL=ON"]),
}
LIBS = ["cachelib", "admissionC", "admissionCpp", "prefetchC", "evictionC", "evictionCPP",  
        "traceReader", "profiler", "dataStructure", "ds_hash", "utils"]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def build(flavour="plain", targets=None):
    """Build the given ninja targets of a flavour; returns the build directory."""
    f = FLAVOURS[flavour]
    d = os.path.join(BUILD, flavour)
    os.makedirs(d, exist_ok=True)
    env = dict(os.environ)
    env.update(CC="gcc", CXX="g++", CFLAGS="", CXXFLAGS="", LC_ALL="C")
    for k in ("VERBOSE", "LDFLAGS", "CPPFLAGS", "MAKEFLAGS"):
        env.pop(k, None)
    with open(os.path.join(d, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug", "-DLOG_LEVEL=INFO",
             "-DENABLE_TESTS=OFF", "-DENABLE_GLCACHE=ON", "-DENABLE_LRB=OFF", "-DOPT_SUPPORT_ZSTD_TRACE=ON",
             "-DCMAKE_EXPORT_COMPILE_COMMANDS=ON",
             "-DCMAKE_C_FLAGS_DEBUG=" + f["flags"], "-DCMAKE_CXX_FLAGS_DEBUG=" + f["flags"]] + f["opts"], env=env)
        run(["ninja", "-C", d] + (targets or LIBS), env=env)
    return d


def _db(d):
    return json.load(open(os.path.join(d, "compile_commands.json")))


def compile_flags(d):
    """-D/-I flags with which the library's C++ sources are compiled."""
    ent = next(e for e in _db(d) if e["file"].endswith(".cpp") and "/eviction/" in e["file"])
    out = []
    toks = shlex.split(ent["command"])
    i = 0
    while i < len(toks):
        t = toks[i]
        if t in ("-isystem", "-I"):
            out += [t, toks[i + 1]]
            i += 1
        elif t.startswith("-D") or t.startswith("-I"):
            out.append(t)
        i += 1
    return out


def archives(d):
    hits = glob.glob(os.path.join(d, "**", "lib*.a"), recursive=True)
    return sorted(h for h in hits if os.path.basename(h)[3:-2] in LIBS)


def syslibs():
    gl = run(["pkg-config", "--libs", "glib-2.0", "gthread-2.0"]).split()
    return gl + ["-lzstd", "-lxgboost", "-lm", "-lpthread", "-ldl"]


def harness(name, flavour="plain", srcs=None, extra=None, targets=None, out=None, objs=None, link_extra=None,
            libs=True):
    """Compile /verif/harness/<name>.cpp (+srcs) against the flavour's library; returns the binary path."""
    d = build(flavour, targets)
    out = out or os.path.join(d, "h_" + name)
    srcs = srcs or [os.path.join(HERE, "harness", name + ".cpp")]
    opt = ["-O2"] if flavour in ("plain", "ttl") else ["-O1"]
    san = [x for x in FLAVOURS[flavour]["flags"].split() if x.startswith("-fsan")]
    inc = ["-I", os.path.join(REPO, "libCacheSim"), "-I", os.path.join(REPO, "libCacheSim", "include"), "-I", os.path.join(HERE, "harness")]
    cmd = ["g++", "-std=c++17", "-g", "-w", "-fno-strict-aliasing"] + opt + san + compile_flags(d) + inc + (extra or [])
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if len(srcs) > 1:
            o = ["%s_%d.o" % (out, i) for i in range(len(srcs))]
            with ThreadPoolExecutor(8) as ex:
                list(ex.map(lambda a: run(cmd + ["-c", a[0], "-o", a[1]]), zip(srcs, o)))
            srcs = o
        cmd += srcs + (objs or []) + ["-o", out]
        if libs:
            cmd += ["-Wl,--start-group"] + archives(d) + ["-Wl,--end-group"] + (link_extra or []) + syslibs()
        run(cmd)
    return out
