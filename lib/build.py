"""Compile every library source of /repo to LLVM bitcode (never executed) and
dump it with tool/irdump.  Results live in /verif/build (git-ignored), keyed by
a hash of all sources, headers, tool and configuration."""
import hashlib, os, time, subprocess, sys, re, fcntl, shutil, json, pickle
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
MPI = "/usr/lib/x86_64-linux-gnu/openmpi/include"
SCCOMPAT = "/opt/vp/sc-compat"
LLVMCFG = "/usr/lib/llvm-18/bin/llvm-config"
JOBS = 8


class Broken(Exception):
    """The analysis itself could not be carried out (error exit, no verdict)."""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def _h(*parts):
    m = hashlib.sha256()
    for p in parts:
        m.update(p if isinstance(p, bytes) else p.encode())
        m.update(b"\0")
    return m.hexdigest()[:20]


def readf(p):
    with open(p, "rb") as f:
        return f.read()


def irdump_tool():
    src = os.path.join(VERIF, "tool", "irdump.cpp")
    key = _h(readf(src))
    exe = os.path.join(BUILD, "irdump-" + key)
    if not os.path.exists(exe):
        os.makedirs(BUILD, exist_ok=True)
        fl = lambda *a: sh([LLVMCFG, *a]).stdout.split()
        tmp = exe + ".tmp%d" % os.getpid()
        r = sh(["clang++", "-O1", "-w", *fl("--cxxflags"), "-fno-rtti", src, "-o", tmp,
                *fl("--ldflags", "--libs", "core", "irreader", "passes", "support", "--link-shared")])
        if r.returncode:
            raise Broken("cannot build irdump:\n" + r.stdout)
        os.replace(tmp, exe)
    return exe


def source_key():
    items = []
    for d in ("src", "sc/src", "config"):
        b = os.path.join(REPO, d)
        if not os.path.isdir(b):
            continue
        for root, _, fs in os.walk(b):
            for f in sorted(fs):
                if f.endswith((".c", ".h", ".in", ".txt", ".cmake")):
                    items.append(os.path.join(root, f))
    for f in ("CMakeLists.txt",):
        items.append(os.path.join(REPO, f))
    items.sort()
    m = hashlib.sha256()
    for i in items:
        if os.path.exists(i):
            m.update(i.encode() + b"\0" + readf(i) + b"\0")
    return m.hexdigest()[:20]


def config_header():
    """p4est_config.h as the project's own build system generates it from the
    current tree; the committed copy is the fallback when cmake cannot run."""
    out = os.path.join(BUILD, "config-" + source_key())
    hdr = os.path.join(out, "p4est_config.h")
    if os.path.exists(hdr):
        return hdr
    os.makedirs(out, exist_ok=True)
    text = None
    for cand in ("/repo/_build/p4est/include/p4est_config.h",):
        pass
    tmp = os.path.join(BUILD, "cfg.%d" % os.getpid())
    if os.path.isdir("/opt/vp/cmake"):
        r = sh(["cmake", "-S", "/opt/vp/cmake", "-B", tmp, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                "-DCMAKE_C_FLAGS_DEBUG=-O1 -g", "-DCMAKE_C_FLAGS=-Wno-error", "-DP4EST_BUILD_TESTING=ON",
                "-DP4EST_BUILD_EXAMPLES=ON", "-DP4EST_ENABLE_FILE_CHECKS=ON", "-DFETCHCONTENT_FULLY_DISCONNECTED=ON"])
        p = os.path.join(tmp, "p4est", "include", "p4est_config.h")
        if r.returncode == 0 and os.path.exists(p):
            text = readf(p).decode()
    shutil.rmtree(tmp, ignore_errors=True)
    if text is None:
        text = readf(os.path.join(VERIF, "lib", "p4est_config.fallback.h")).decode()
    with open(hdr + ".tmp%d" % os.getpid(), "w") as f:
        f.write(text)
    os.replace(hdr + ".tmp%d" % os.getpid(), hdr)
    return hdr


def sources():
    """library translation units named by the project's src/CMakeLists.txt"""
    t = open(os.path.join(REPO, "src", "CMakeLists.txt")).read()
    s = sorted(set(re.findall(r"\b(p[468]est\w*\.c)\b", t)))
    s = [x for x in s if os.path.exists(os.path.join(REPO, "src", x))]
    if len(s) < 30:
        raise Broken("source list collapsed: %d units" % len(s))
    return s


def cflags(cfgdir):
    return ["-I" + cfgdir, "-I" + os.path.join(REPO, "src"), "-I" + SCCOMPAT,
            "-isystem", MPI, "-isystem", MPI + "/openmpi"]


CONFIGS = {
    "debug": lambda t: t,
    "release": lambda t: re.sub(r"^#define P4EST_ENABLE_DEBUG .*$", "/* no debug */", t, flags=re.M),
}


def build(config="debug", inline=0):
    """returns list of (unit, json path)"""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        tool = irdump_tool()
        hdr = config_header()
        text = CONFIGS[config](open(hdr).read())
        sk = source_key()
        key = _h(sk, text, REPO)
        d = os.path.join(BUILD, "ir-%s-%s" % (config, key))
        stamp = os.path.join(d, "done-%d-%s" % (inline, os.path.basename(tool)))
        srcs = sources()
        jp = lambda s: os.path.join(d, "%s.%d.json" % (s[:-2], inline))
        if not os.path.exists(stamp):
            prune()
            cd = os.path.join(d, "cfg")
            os.makedirs(cd, exist_ok=True)
            with open(os.path.join(cd, "p4est_config.h"), "w") as f:
                f.write(text)

            def one(s):
                bc = os.path.join(d, s[:-2] + ".bc")
                if not os.path.exists(bc):
                    r = sh(["clang", "-std=gnu17", "-O0", "-Xclang", "-disable-O0-optnone", "-g", "-fno-inline", "-w",
                            *["-Wno-error=" + w for w in ("implicit-function-declaration", "implicit-int", "int-conversion", "incompatible-function-pointer-types")],
                            "-fno-discard-value-names", "-emit-llvm", "-c", *cflags(cd), os.path.join(REPO, "src", s), "-o", bc + ".tmp"])
                    if r.returncode:
                        return "%s: %s" % (s, r.stdout)
                    os.replace(bc + ".tmp", bc)
                r = sh([tool, bc, jp(s)] + ([str(inline)] if inline else []))
                if r.returncode:
                    return "%s: %s" % (s, r.stdout)
                return None
            with ThreadPoolExecutor(JOBS) as ex:
                errs = [e for e in ex.map(one, srcs) if e]
            if errs:
                raise Broken("cannot compile to IR:\n" + "\n".join(errs[:5]))
            open(stamp, "w").close()
        os.utime(d)
        return [(s, jp(s)) for s in srcs]


def prune():
    """keep the cache small: drop IR directories beyond the newest few"""
    try:
        ds = [os.path.join(BUILD, x) for x in os.listdir(BUILD) if x.startswith(("ir-", "config-"))]
        ds.sort(key=os.path.getmtime)
        now = time.time()
        for x in ds[:-10]:
            if now - os.path.getmtime(x) < 1800:
                continue    # another check may be reading it
            shutil.rmtree(x, ignore_errors=True)
    except OSError:
        pass


if __name__ == "__main__":
    import time
    for c in sys.argv[1:] or ["debug", "release"]:
        t = time.time()
        r = build(c)
        print(c, len(r), sum(os.path.getsize(p) for _, p in r) >> 20, "MB", round(time.time() - t, 1), "s")
