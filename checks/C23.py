"""C23: results do not depend on time, randomness, environment or addresses."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, harness
from ir import operands

DENY = {"time", "clock", "gettimeofday", "clock_gettime", "getpid", "getppid", "getenv", "secure_getenv", "gethostname", "rand", "random",
        "rand_r", "drand48", "lrand48", "mrand48", "srand", "arc4random", "getrandom", "getentropy", "uname", "sysconf", "getcwd",
        "localtime", "gmtime", "strftime", "MPI_Get_processor_name", "sc_rand", "sc_rand_normal", "sc_rand_poisson", "sc_rand_sample",
        "clock_getres", "times", "getrusage", "__rdtsc", "pthread_self", "sc_flops_start", "sc_flops_snap"}
TIME = {"MPI_Wtime", "sc_MPI_Wtime"}


def run():
    c = harness.Check("C23", "Source/sink dataflow over all library functions: no call of a time, random, process or environment query; "
                      "values of the wall-clock timer flow only through subtraction/addition into statistics fields; pointer values are "
                      "never ordered or converted to numbers that steer computation (differences of two pointers excepted).")
    for config in ("debug", "release"):
        p = ir.Prog(config)
        e = effects.Effects(p)
        calls = wt = pc = 0
        for f in sorted(p.functions(), key=lambda f: f.key):
            fa = e.fa[f.key]
            for i in f.instrs():
                if i.op == "call":
                    n = i.callee()
                    calls += 1
                    if n in DENY or (n or "").startswith("llvm.readcyclecounter"):
                        c.obligation(False, "%s:%s" % (f.name, n), "%s: %s calls %s" % (i.where(), f.name, n))
                    if n in TIME:
                        wt += 1
                        bad = timer_flow(f, fa, i)
                        c.obligation(not bad, "%s:timer" % f.name, "%s: wall-clock value in %s %s" % (i.where(), f.name, "flows to " + bad if bad else "only reaches statistics"))
                elif i.op == "ptrtoint":
                    pc += 1
                    bad = None
                    for u in f.users[i.id]:
                        if u.op == "sub":
                            continue
                        if u.op in ("icmp",) and u.x["pred"] in ("eq", "ne"):
                            continue
                        if u.op in ("getelementptr", "store", "inttoptr", "phi"):
                            continue
                        bad = u
                    c.obligation(bad is None, "%s:ptrtoint" % f.name, "%s: address used as a number in %s%s" % (i.where(), f.name, " by " + bad.op + " at " + bad.where() if bad else " only as a difference or an opaque payload"))
                elif i.op == "icmp" and i.x["pred"] not in ("eq", "ne"):
                    for o in i.ops:
                        if isinstance(o, int):
                            t = f.val[o].t if o in f.val else f.unit.types[f.params[o]["t"]]
                            if t == "ptr":
                                # ordering two pointers: only into one and the same object
                                va, vb = fa.v(i.ops[0]), fa.v(i.ops[1])
                                same = bool(va & vb) or {a[0] for a in va} & {a[0] for a in vb}
                                c.obligation(bool(same), "%s:pointer-order" % f.name, "%s: %s orders pointers into different objects" % (i.where(), f.name))
                                break
        c.floor("calls_" + config, calls, 12000 if config == "debug" else 6000)
        c.floor("timer_calls_" + config, wt, 15)
        c.floor("pointer_numbers_" + config, pc, 10)
    return c.finish()


def timer_flow(f, fa, i):
    """None if the value of instruction i only feeds +/- and statistics stores"""
    seen = set()
    st = [i.id]
    while st:
        v = st.pop()
        if v in seen:
            continue
        seen.add(v)
        for u in f.users[v]:
            if u.op in ("fadd", "fsub", "fneg", "phi", "select", "fmul", "fdiv", "fpext", "fptrunc"):
                st.append(u.id)
            elif u.op == "store":
                for a in fa.v(u.ops[1]):
                    if a[0][0] == "A":
                        # follow local variables
                        for x in f.instrs():
                            if x.op == "load" and a in fa.v(x.ops[0]):
                                st.append(x.id)
                    elif not any("inspect" in s or "stat" in s for s in a[1]):
                        return "a store to %s at %s" % (effects.show(a, f), u.where())
            elif u.op == "call":
                n = u.callee() or ""
                if n.startswith(("sc_stats", "sc_log", "P4EST_", "P8EST_", "fprintf", "printf", "snprintf")) or n.endswith("LOGF") or n.startswith("llvm.fmuladd"):
                    if n.startswith("llvm"):
                        st.append(u.id)
                    continue
                return "call of %s at %s" % (n, u.where())
            else:
                return "%s at %s" % (u.op, u.where())
    return None


harness.main(run)
