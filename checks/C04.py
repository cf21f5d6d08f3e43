"""C04: no hidden mutable process-wide state."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, harness

# one-time registration of the library with libsc
INIT = {"p4est_init": {"p4est_package_id", "p4est_initialized"}}
# libc / libsc / MPI calls that change process-wide state behind the caller's back
STATE = {"srand", "rand", "random", "srandom", "drand48", "srand48", "setlocale", "strtok", "putenv", "setenv", "unsetenv", "chdir",
         "fchdir", "signal", "sigaction", "umask", "atexit", "setvbuf", "dup2", "alarm", "setrlimit", "sc_init", "sc_finalize",
         "sc_set_log_defaults", "sc_set_abort_handler", "sc_package_register", "sc_package_unregister", "sc_package_set_verbosity",
         "sc_package_set_abort_alloc_mismatch", "MPI_Init", "MPI_Init_thread", "MPI_Finalize", "MPI_Comm_set_errhandler",
         "MPI_Comm_set_attr", "MPI_Type_commit", "MPI_Op_create", "feenableexcept", "fesetround", "sc_log_indent_push", "signal"}
ALLOWED_CALL = {("p4est_init", "sc_package_register")}


def host(p, f, names, depth=0):
    """f if it is named, or the named function of which f is a helper and nobody else's"""
    if f.name in names:
        return f.name
    if not f.internal or depth > 3:
        return None
    cs = {g.key: g for g in p.functions() for i in g.instrs() if i.op == "call" and p.target(i) is f}
    hs = {host(p, g, names, depth + 1) for g in cs.values()}
    return hs.pop() if len(hs) == 1 else None


def run():
    c = harness.Check("C04", "Who-may-write analysis over all library functions: no store, and no external call's write effect, reaches "
                      "a global or function-static variable, except the one-time package registration; no call of a libc/libsc/MPI "
                      "function that mutates process-wide state.")
    for config in ("debug", "release"):
        p = ir.Prog(config)
        e = effects.Effects(p)
        stores = 0
        init = 0
        for f in sorted(p.functions(), key=lambda f: f.key):
            fa = e.fa[f.key]
            bad = []
            for a, (i, cal, ca) in fa.W.items():
                if a[0][0] == "G" and ca is None:
                    if host(p, f, INIT) and a[0][1] in INIT[host(p, f, INIT)]:
                        init += 1
                        continue
                    bad.append("%s writes %s%s" % (i.where(), effects.show(a, f), " through " + cal if cal else ""))
            c.obligation(not bad, "%s:global-write" % f.name, "%s: %s" % (f.name, "; ".join(bad[:4]) or "no global or static variable written"))
            for i in f.instrs():
                stores += i.op == "store"
                n = i.callee() if i.op == "call" else None
                if n in STATE and (host(p, f, INIT) or f.name, n) not in ALLOWED_CALL:
                    c.obligation(False, "%s:%s" % (f.name, n), "%s: %s calls %s, which changes process-wide state" % (i.where(), f.name, n))
        mut = sorted({u + ":" + g["name"] for u, un in p.units.items() for g in un.globals.values()
                      if not g["decl"] and not g["const"] and not g["name"].startswith(".str")})
        c.counts["mutable_globals_" + config] = len(mut)
        c.samples.append("mutable globals defined: " + ", ".join(mut))
        c.floor("functions_" + config, len(p.fn), 1200)
        c.floor("store_instructions_" + config, stores, 6000)
        c.floor("registration_writes_seen_" + config, init, 2)      # positive control
    return c.finish()


harness.main(run)
