"""C25: the library builds completely in every configuration it offers."""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import harness
import build as B
from concurrent.futures import ThreadPoolExecutor

MPIS = ("MPI", "MPIIO", "MPITHREAD", "MPICOMMSHARED", "MPIWINSHARED")
NOMPI = """#ifndef VP25_SC_MPI_H
#define VP25_SC_MPI_H
#include </usr/include/sc_mpi.h>
/* names a later libsc has in its configuration without MPI */
#define sc_MPI_INFO_NULL 0
#define sc_MPI_COMM_TYPE_SHARED 0
static inline int sc_MPI_Comm_split_type (sc_MPI_Comm c, int t, int k, int i, sc_MPI_Comm *n) { (void) t; (void) k; (void) i; *n = c; return 0; }
#endif
"""


def off(t, *ns):
    for n in ns:
        t = re.sub(r"^#define P4EST_ENABLE_%s .*$" % n, "/* off */", t, flags=re.M)
    return t


CONF = {
    "as configured": lambda t: t,
    "without MPI": lambda t: off(t, *MPIS),
    "without MPI I/O": lambda t: off(t, "MPIIO"),
    "without MPI shared memory": lambda t: off(t, "MPICOMMSHARED", "MPIWINSHARED"),
    "without VTK binary": lambda t: off(t, "VTK_BINARY", "VTK_COMPRESSION"),
    "without VTK compression": lambda t: off(t, "VTK_COMPRESSION"),
    "without aligned allocation": lambda t: off(t, "MEMALIGN"),
    "without file checks": lambda t: off(t, "FILE_CHECKS"),
}


def run():
    c = harness.Check("C25", "Compile witnesses over the configuration matrix: every library source is compiled (type-checked with the errors C has dropped "
                      "since restored: implicit declarations, pointer and integer mismatches, missing returns) under each configuration, and every p4est symbol an object "
                      "uses must be defined by an object of the same configuration; the 2D objects must not need the 3D ones.")
    txt = open(B.config_header()).read()
    sc = open("/usr/include/sc_config.h").read()
    tmp = tempfile.mkdtemp(prefix="c25.", dir=B.BUILD)
    try:
        jobs = []
        for name, fn in CONF.items():
            for dbg in (True, False):
                t = fn(txt)
                if not dbg:
                    t = off(t, "DEBUG")
                d = os.path.join(tmp, "%s-%d" % (name.replace(" ", "_").replace("/", ""), dbg))
                os.makedirs(d)
                with open(d + "/p4est_config.h", "w") as f:
                    f.write(t)
                s = sc
                for m in MPIS:
                    if not re.search("^#define P4EST_ENABLE_%s " % m, t, flags=re.M):
                        s = re.sub(r"^#define SC_(ENABLE_)?%s .*$" % m, "/* off */", s, flags=re.M)
                with open(d + "/sc_config.h", "w") as f:
                    f.write(s)
                if name == "without MPI":
                    with open(d + "/sc_mpi.h", "w") as f:
                        f.write(NOMPI)
                for src in B.sources():
                    jobs.append((name + (", debug" if dbg else ", release"), d, src))

        def one(j):
            name, d, src = j
            o = os.path.join(d, src[:-2] + ".o")
            r = B.sh(["clang", "-std=gnu17", "-O0", "-c", "-Wno-everything", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=int-conversion",
                      "-Werror=incompatible-pointer-types", "-Werror=return-type", *B.cflags(d), os.path.join(B.REPO, "src", src), "-o", o])
            if r.returncode:
                return j, r.stdout, None
            n = B.sh(["nm", "-g", "-P", o])
            os.remove(o)
            return j, "", n.stdout
        res = {}
        with ThreadPoolExecutor(B.JOBS) as ex:
            for (name, d, src), err, syms in ex.map(one, jobs):
                e = [l for l in err.splitlines() if "error:" in l][:1]
                c.obligation(syms is not None, "compile:%s:%s" % (name.rsplit(",", 1)[0], src), "%s, %s: %s" % (src, name, e[0] if e else "compiles"), sample=src == "p4est.c")
                if syms is not None:
                    res.setdefault(name, {})[src] = syms
        c.floor("translation_units", len(jobs), 16 * 40)
        for name, objs in res.items():
            if len(objs) < len(B.sources()):
                continue
            defs, dup = {}, []
            for src, t in objs.items():
                for m in re.finditer(r"^(p\d?est_\w+|p[468]est\w*) ([TDBRC]) ", t, re.M):
                    if m.group(1) in defs:
                        c.obligation(False, "duplicate:%s" % m.group(1), "%s: %s is defined in %s and in %s" % (name, m.group(1), defs[m.group(1)], src))
                    defs[m.group(1)] = src
            for src, t in objs.items():
                for m in re.finditer(r"^(p\d?est_\w+) U", t, re.M):
                    n = m.group(1)
                    ok = n in defs
                    if ok and src.startswith("p4est_") or src == "p4est.c":
                        ok = ok and defs[n].startswith("p4est")
                    elif ok and src.startswith("p8est"):
                        ok = ok and not defs[n].startswith("p6est")
                    c.obligation(ok, "link:%s:%s" % (src, n), "%s: %s uses %s, defined in %s" % (name, src, n, defs.get(n, "no object")))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return c.finish()


harness.main(run)
