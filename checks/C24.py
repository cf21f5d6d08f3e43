"""C24: every public header can be used alone, from C and from C++, and everything it declares exists."""
import sys, os, re, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, harness
import build as B
from concurrent.futures import ThreadPoolExecutor

SKIP = re.compile(r"to_p8est")
# conversion of a module from 2D to 3D by a leading include: not headers of their own


def run():
    c = harness.Check("C24", "Compile witnesses: each public header is the only include of a translation unit, as C and as C++ (twice, so that the include guard "
                      "is exercised); the address of every function and variable the headers declare is taken from C and C++ and must resolve to the "
                      "unmangled symbol that the library's translation units define with external linkage.")
    hs = sorted(h for h in os.listdir(os.path.join(B.REPO, "src")) if h.endswith(".h") and not SKIP.search(h))
    c.floor("headers", len(hs), 50)
    tmp = tempfile.mkdtemp(prefix="c24.", dir=B.BUILD if os.path.isdir(B.BUILD) else None)
    try:
        for config in ("debug", "release"):
            p = ir.Prog(config)
            cd = os.path.join(tmp, config)
            os.makedirs(cd)
            with open(os.path.join(cd, "p4est_config.h"), "w") as f:
                f.write(B.CONFIGS[config](open(B.config_header()).read()))
            fl = B.cflags(cd)
            STRICT = ["-Wno-everything", "-Werror=implicit-function-declaration", "-Werror=implicit-int", "-Werror=return-type"]

            def alone(a):
                h, lang = a
                src = os.path.join(cd, "h_%s.%s" % (h[:-2], "c" if lang == "c" else "cc"))
                with open(src, "w") as f:
                    f.write("#include <%s>\n#include <%s>\n" % (h, h))
                cc = ["clang", "-x", "c", "-std=gnu99"] if lang == "c" else ["clang++", "-x", "c++", "-std=c++11"]
                r = B.sh(cc + ["-fsyntax-only", *STRICT, *fl, src])
                return h, lang, r.returncode, r.stdout
            with ThreadPoolExecutor(B.JOBS) as ex:
                for h, lang, rc, out in ex.map(alone, [(h, l) for h in hs for l in ("c", "c++")]):
                    err = [l for l in out.splitlines() if "error" in l][:1]
                    c.obligation(rc == 0, "alone:%s:%s" % (h, lang), "src/%s alone in a %s program: %s" % (h, lang, err[0] if err else "compiles"), sample=h == "p4est.h")
            # declarations, per dimension since 2D and 3D headers share one program as well
            allc = os.path.join(cd, "all.c")
            with open(allc, "w") as f:
                f.write("".join("#include <%s>\n" % h for h in hs))
            r = B.sh(["clang", "-x", "c", "-std=gnu99", "-fsyntax-only", "-Wno-everything", "-fno-color-diagnostics", "-Xclang", "-ast-dump", "-Xclang", "-ast-dump-filter=est_", *fl, allc])
            if not c.obligation(r.returncode == 0, "all", "all public headers can be included together: %s" % "".join(l for l in r.stdout.splitlines() if "error:" in l)[:300]):
                continue
            names = {}
            for m in re.finditer(r"^(Function|Var)Decl 0x\w+ .*?((?:p[0-9]est_|P[0-9]EST_)\w+) '([^\n]*)$", r.stdout, re.M):
                kind, n, rest = m.groups()
                if re.search(r"'\s+static\b|' static", rest) or rest.split("'")[-1].strip().startswith("static") or " static" in rest.split("'")[-1]:
                    continue
                if kind == "Var" and "extern" not in rest.split("'")[-1]:
                    continue
                names.setdefault(n, kind)
            fn = sorted(n for n, k in names.items() if k == "Function")
            va = sorted(n for n, k in names.items() if k == "Var")
            c.floor("declared_functions_" + config, len(fn), 700)
            c.floor("declared_variables_" + config, len(va), 20)
            for n in fn:
                c.obligation(n in p.ext, "undefined:" + n, "%s is declared in a public header and %s" % (n, "defined in %s" % p.ext[n].relfile() if n in p.ext else "defined nowhere with external linkage"))
            defv = {g for u in p.units.values() for g, o in u.globals.items() if not o["decl"] and not o.get("internal")}
            for n in va:
                c.obligation(n in defv, "undefined:" + n, "variable %s is declared in a public header and %s" % (n, "defined" if n in defv else "defined nowhere with external linkage"))
            # the same from C++: linkage names must be the C ones
            cc = os.path.join(cd, "use.cc")
            with open(cc, "w") as f:
                f.write("".join("#include <%s>\n" % h for h in hs))
                for k, n in enumerate(fn + va):
                    f.write('extern "C" void *vp_use_%d () { return (void *) &%s; }\n' % (k, n))
            r = B.sh(["clang++", "-x", "c++", "-std=c++11", "-w", "-fpermissive", "-O0", "-S", "-emit-llvm", *fl, cc, "-o", cc + ".ll"])
            if not c.obligation(r.returncode == 0, "c++use", "the address of every declared object can be taken in C++: %s" % "".join(l for l in r.stdout.splitlines() if "error:" in l)[:300]):
                continue
            t = open(cc + ".ll").read()
            have = set(re.findall(r"^declare [^@\n]*@\"?([\w.]+)", t, re.M)) | set(re.findall(r"^@\"?([\w.]+)\"? = external", t, re.M)) | set(re.findall(r"^define [^@\n]*@\"?([\w.]+)", t, re.M))
            for n in fn + va:
                c.obligation(n in have, "linkage:" + n, "%s %s from C++ by its C name" % (n, "is referenced" if n in have else "is NOT referenced (missing extern \"C\")"))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return c.finish()


harness.main(run)
