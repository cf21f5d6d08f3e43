"""C02: communicator discipline."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, mustdef, ext, harness

COMMARG = {k: v for k, v in ext.COLLECTIVE.items() if v is not None}
COMMARG.update({"MPI_Isend": 5, "MPI_Irecv": 5, "MPI_Send": 5, "MPI_Recv": 5, "MPI_Probe": 2, "MPI_Iprobe": 2, "MPI_Comm_rank": 0,
                "MPI_Comm_size": 0, "MPI_Comm_group": 0, "MPI_Ssend": 5, "MPI_Issend": 5})
COMMARG.pop("MPI_Comm_free")
GLOB = {"ompi_mpi_comm_world", "ompi_mpi_comm_self"}
# documented to use a predefined communicator: the world wrapper constructor, and the one-process helper forest of the
# connectivity refinement, which computes locally
ALLOW = {"p4est_wrap_new_world", "p8est_wrap_new_world", "p4est_connectivity_refine", "p8est_connectivity_refine"}
OWN = {"p4est.mpicomm": "p4est.mpicomm_owned", "p8est.mpicomm": "p8est.mpicomm_owned", "p6est.mpicomm": "p6est.mpicomm_owned"}


def fieldof(a):
    p = [x for x in a[1] if x != "*"]
    return p[-1] if p else None


def run():
    c = harness.Check("C02", "Provenance and ownership analysis of communicator values: every communicator handed to MPI or libsc comes from "
                      "an argument, a stored communicator field or a locally created communicator, never from a predefined one; a forest's "
                      "communicator is freed only under its ownership flag; every store of a forest's communicator and every whole-struct "
                      "copy of a forest sets the ownership flag in the same function; rank and size are refreshed with the communicator.")
    for config in ("debug", "release"):
        p = ir.Prog(config, inline=400)
        e = effects.Effects(p)
        m = mustdef.Must(p, e)
        uses = frees = stores = copies = 0
        callers = {}
        for f in p.functions():
            for i in f.instrs():
                if i.op == "call":
                    t = p.target(i)
                    if t is not None:
                        callers.setdefault(t.key, set()).add(f.key)

        def allowed(f, depth=0, seen=None):
            """f is a documented user, or an internal helper only called from those"""
            if f.name in ALLOW:
                return True
            seen = seen or set()
            if f.key in seen or not f.internal or not callers.get(f.key):
                return False
            return all(allowed(p.fn[k], depth + 1, seen | {f.key}) for k in callers[f.key])

        for f in sorted(p.functions(), key=lambda f: f.key):
            fa = e.fa[f.key]
            for i in f.instrs():
                if i.bb not in f.reachable:
                    continue
                for o in i.ops:
                    if isinstance(o, dict) and o.get("n") in GLOB:
                        c.obligation(allowed(f), "%s:predefined" % f.name, "%s: %s uses predefined communicator %s" % (i.where(), f.name, o["n"]))
                if i.op == "phi":
                    for o, _ in i.x["inc"]:
                        if isinstance(o, dict) and o.get("n") in GLOB:
                            c.obligation(allowed(f), "%s:predefined" % f.name, "%s: %s uses predefined communicator %s" % (i.where(), f.name, o["n"]))
                if i.op == "call":
                    n = i.callee()
                    if n in COMMARG and COMMARG[n] < len(i.ops):
                        uses += 1
                        vs = fa.v(i.ops[COMMARG[n]])
                        bad = [a for a in vs if a[0][0] == "G" and a[0][1] in GLOB]
                        c.obligation(not bad, "%s:%s:comm" % (f.name, n), "%s: %s calls %s on %s" % (
                            i.where(), f.name, n, ", ".join(effects.show(a, f) for a in vs) or "no value"), sample=True)
                    if n == "MPI_Comm_free":
                        frees += 1
                        for a in fa.v(i.ops[0]):
                            fld = fieldof(a)
                            if fld in OWN:
                                ok = guarded(f, fa, i, OWN[fld]) or all_callers_guarded(p, e, callers, f, OWN[fld])
                                c.obligation(ok, "%s:free" % f.name, "%s: %s frees %s %s" % (i.where(), f.name, fld,
                                             "only under the ownership flag" if ok else "without testing the ownership flag"), sample=True)
                # a whole-forest copy
                if i.op == "call" and n in ext.COPY:
                    st = whole(p, f, i)
                    if st:
                        copies += 1
                        ok = after_store(p, e, m, f, i, st + ".mpicomm_owned")
                        c.obligation(ok, "%s:copy" % f.name, "%s: %s copies a whole %s and %s the ownership flag of the copy" % (
                            i.where(), f.name, st, "sets" if ok else "does not reset"), sample=True)
            # stores of the communicator field
            w = {}
            for a, (i, cal, ca) in fa.W.items():
                if ca is None and fieldof(a) in OWN and (i.op == "store" or i.callee() in ("MPI_Comm_dup", "MPI_Comm_free", "MPI_Comm_split", "MPI_Comm_create")):
                    w[a] = i
            for a, i in w.items():
                stores += 1
                fld = fieldof(a)
                own = OWN[fld]
                ok = any(i2.op == "store" and own_written(fa, i2, own) and paired(f, i, i2) for i2 in f.instrs()) or \
                    any(i2.op == "call" and must_calls(p, m, f, i2, own) and paired(f, i, i2) for i2 in f.instrs())
                c.obligation(ok, "%s:%s" % (f.name, fld), "%s: %s stores %s %s" % (i.where(), f.name, fld,
                             "together with its ownership flag" if ok else "without setting its ownership flag on every path"), sample=True)
        for pre, st in (("p4est_comm_parallel_env", "p4est"), ("p8est_comm_parallel_env", "p8est"), ("p6est_comm_parallel_env", "p6est")):
            for suf, need in (("assign", ("mpicomm", "mpicomm_owned", "mpirank", "mpisize")),
                              ("replace", ("mpicomm", "mpicomm_owned", "mpirank", "mpisize")),
                              ("release", ("mpicomm", "mpicomm_owned", "mpirank", "mpisize")), ("duplicate", ("mpicomm", "mpicomm_owned"))):
                f = p.ext.get(pre + "_" + suf)
                if f is None:
                    continue
                got = {x[1][-1] for x in m.get(f.key) if x[0] == ("P", 0) and len(x[1]) == 1}
                miss = [x for x in need if st + "." + x not in got]
                c.obligation(not miss, "%s:must" % f.name, "%s sets %s on every path%s" % (f.name, ", ".join(need), "; missing " + ", ".join(miss) if miss else ""))
        # ownership value: duplicate owns, assign does not
        for f in sorted(p.functions(), key=lambda f: f.key):
            fa = e.fa[f.key]
            dup = any(i.op == "call" and i.callee() == "MPI_Comm_dup" and any(fieldof(a) in OWN for a in fa.v(i.ops[0 + 1])) for i in f.instrs())
            for i in f.instrs():
                if i.op == "store":
                    own = [fieldof(a) for a in fa.v(i.ops[1]) if fieldof(a) in OWN.values()]
                    v = ir.cval(i.ops[0])
                    if own and v is not None:
                        if v != 0:
                            created = made(p, e, f, fa, i) or moved(f, fa, i)
                            c.obligation(created, "%s:owned1" % f.name, "%s: %s claims ownership %s" % (i.where(), f.name,
                                         "of a communicator it created or took over" if created else "of a communicator it did not create"))
                        else:
                            c.obligation(not dup, "%s:owned0" % f.name, "%s: %s %s" % (i.where(), f.name, "duplicates a communicator but disclaims it" if dup else "disclaims a borrowed communicator"))
                    elif own:
                        # not a constant: the flag of another forest that gives it up
                        ok = taken(f, fa, i)
                        c.obligation(ok, "%s:owned" % f.name, "%s: %s sets the ownership flag to %s" % (
                            i.where(), f.name, "that of a forest that gives it up" if ok else "a value that does not follow from creating or borrowing the communicator"))
                if i.op == "call" and i.callee() == "MPI_Comm_free" and any(fieldof(a) in OWN for a in fa.v(i.ops[0])):
                    r = set()
                    for b in f.tcdeps.get(i.bb, ()):
                        roots(f, fa, f.blocks[b][-1].x.get("cond"), r)
                    r -= set(OWN) | set(OWN.values())
                    c.obligation(not r, "%s:freecond" % f.name, "%s: whether %s frees an owned communicator %s" % (
                        i.where(), f.name, "also depends on " + ", ".join(sorted(r)) if r else "depends on the ownership alone"))
        # the end of a forest
        ends = 0
        rel = {f.key for f in p.functions() if any(i.op == "call" and i.callee() == "MPI_Comm_free" and any(fieldof(a) in OWN for a in e.fa[f.key].v(i.ops[0])) for i in f.instrs())}
        for f in p.functions():
            for i in f.instrs():
                if i.op == "call" and i.callee() == "sc_free" and isinstance(i.ops[1], int) and i.bb not in f.abortset and forest(f, i.ops[1]):
                    d = f.val.get(i.ops[1])
                    if d is not None and d.op == "call":
                        continue
                    ends += 1
                    ok = any(j.op == "call" and (p.target(j) is not None and p.target(j).key in rel or j.callee() == "MPI_Comm_free") and (
                        j.bb == i.bb and j.idx < i.idx or j.bb != i.bb and f.dominates(j.bb, i.bb)) for j in f.instrs())
                    c.obligation(ok, "%s:end" % f.name, "%s: %s %s its communicator before the forest ceases to exist" % (i.where(), f.name, "releases" if ok else "may not release"))
        c.floor("forests_ended_" + config, ends, 2)
        for n, k in REQUEST.items():
            f = p.ext.get(n)
            if f is None:
                continue
            fa = e.fa[f.key]
            ds = [i for i in f.instrs() if i.op == "call" and i.bb in f.reachable and (dupfield(e, f, i) or p.target(i) is not None and any(dupfield(e, p.target(i), j) for j in p.target(i).instrs()))]
            for i in ds:
                r = set()
                for b in f.tcdeps.get(i.bb, ()):
                    roots(f, fa, f.blocks[b][-1].x.get("cond"), r)
                c.obligation(r == {"argument %d" % (k + 1)}, "%s:request" % n, "%s: %s duplicates the communicator depending on %s" % (i.where(), n, ", ".join(sorted(r)) or "nothing"))
            c.obligation(bool(ds), "%s:duplicates" % n, "%s duplicates the communicator on request" % n)
        c.floor("communicator_uses_" + config, uses, 150)
        c.floor("frees_" + config, frees, 4)
        c.floor("field_stores_" + config, stores, 6)
        c.floor("whole_copies_" + config, copies, 2)
    return c.finish()


# documented argument that requests a duplicate
REQUEST = {"p4est_copy_ext": 2, "p8est_copy_ext": 2, "p6est_copy_ext": 2}
MAKE = {"MPI_Comm_dup": 1, "MPI_Comm_split": 3, "MPI_Comm_create": 2, "MPI_Comm_split_type": 4}


def dupfield(e, g, j):
    """call j of g creates a communicator directly in a forest"""
    if j.op != "call" or j.callee() not in MAKE:
        return False
    return any(fieldof(a) in OWN for a in e.fa[g.key].v(j.ops[MAKE[j.callee()]]))


def forest(f, o):
    return any(u.op == "getelementptr" and u.ops[0] == o and any("s" in st and st["s"] in ("struct.p4est", "struct.p8est", "struct.p6est") for st in u.x["gep"]["steps"]) for u in f.users[o])


def made(p, e, f, fa, i):
    """the function creates a communicator in the forest, by itself, by a function it calls, or in a variable that it stores there"""
    for j in f.instrs():
        if j.op != "call":
            continue
        if dupfield(e, f, j):
            return True
        t = p.target(j)
        if t is not None and any(dupfield(e, t, k) for k in t.instrs()):
            return True
        if j.callee() in MAKE:
            out = fa.v(j.ops[MAKE[j.callee()]])
            for k in f.instrs():
                if k.op == "store" and isinstance(k.ops[0], int) and any(fieldof(a) in OWN for a in fa.v(k.ops[1])):
                    d = f.val.get(k.ops[0])
                    if d is not None and d.op == "load" and set(fa.v(d.ops[0])) & set(out):
                        return True
    return False


def taken(f, fa, i):
    d = f.val.get(i.ops[0]) if isinstance(i.ops[0], int) else None
    while d is not None and d.op in ("zext", "sext", "trunc", "icmp", "freeze"):
        d = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
    if d is None or d.op != "load":
        return False
    src = [a for a in fa.v(d.ops[0]) if fieldof(a) in OWN.values()]
    if not src:
        return False
    return any(j.op == "store" and ir.cval(j.ops[0]) == 0 and set(fa.v(j.ops[1])) & set(src) and paired(f, i, j) for j in f.instrs())


def roots(f, fa, o, out, seen=None):
    """what a condition depends on"""
    seen = set() if seen is None else seen
    if not isinstance(o, int) or o in seen:
        return
    seen.add(o)
    d = f.val.get(o)
    if d is None:
        if o < f.nargs:
            out.add("argument %d" % (o + 1))
        return
    if d.op == "load":
        vs = {fieldof(a) or effects.show(a, f) for a in fa.v(d.ops[0])}
        out |= vs or {"memory"}
    elif d.op == "call":
        out.add("the result of %s" % (d.callee() or "a call"))
    elif d.op == "phi":
        for x, b in d.x["inc"]:
            roots(f, fa, x, out, seen)
        for b in {b for _, b in d.x["inc"]}:
            t = f.blocks[b][-1]
            if len(f.lsuccs(b)) > 1:
                roots(f, fa, t.x.get("cond"), out, seen)
            else:
                for cb in f.tcdeps.get(b, ()):
                    if cb not in f.tcdeps.get(d.bb, ()):
                        roots(f, fa, f.blocks[cb][-1].x.get("cond"), out, seen)
    else:
        for x in d.ops:
            roots(f, fa, x, out, seen)


def moved(f, fa, i):
    """the flag of another forest is tested and cleared: ownership moves"""
    for j in f.instrs():
        if j is not i and j.op == "store" and ir.cval(j.ops[0]) == 0 and j.bb == i.bb and any(fieldof(a) in OWN.values() for a in fa.v(j.ops[1])):
            return True
    return False


def own_written(fa, i, own):
    return any(fieldof(a) == own for a in fa.v(i.ops[1]))


def must_calls(p, m, f, i, own):
    t = p.target(i)
    return t is not None and any(fieldof(a) == own for a in m.get(t.key))


def paired(f, i, j):
    """whenever i executes, j executes too (before or after)"""
    if i.bb == j.bb:
        return True
    return f.dominates(j.bb, i.bb) or f.postdominates(j.bb, i.bb)


def guarded(f, fa, i, own):
    for b in f.tcdeps.get(i.bb, ()):
        t = f.blocks[b][-1]
        if depends(f, fa, t.x.get("cond"), own, 0):
            # the free lies on the 'owned' side
            return side(f, fa, t, i, own)
    return False


def side(f, fa, t, i, own):
    """blocks of the 'flag is zero' edge must not reach i without passing the test again"""
    cond = t.x.get("cond")
    d = f.val.get(cond) if isinstance(cond, int) else None
    su = f.succs(t.bb)
    if d is None or d.op != "icmp" or len(su) != 2:
        return True
    k = ir.cval(d.ops[1])
    if k is None:
        k = ir.cval(d.ops[0])
    if k is None:
        return True
    eq = d.x["pred"] == "eq"
    if k != 0:
        eq = not eq
    zero = su[0] if eq else su[1]
    seen = {t.bb}
    st = [zero]
    while st:
        b = st.pop()
        if b in seen:
            continue
        seen.add(b)
        if b == i.bb:
            return False
        st.extend(f.lsuccs(b))
    return True


def depends(f, fa, o, own, depth):
    if depth > 6 or not isinstance(o, int):
        return False
    d = f.val.get(o)
    if d is None:
        return False
    if d.op == "load":
        return any(fieldof(a) == own for a in fa.v(d.ops[0]))
    if d.op == "phi":
        return any(depends(f, fa, x, own, depth + 1) for x, _ in d.x["inc"])
    if d.op == "call":
        return False
    return any(depends(f, fa, x, own, depth + 1) for x in d.ops)


def all_callers_guarded(p, e, callers, f, own, seen=()):
    if not f.internal or f.key in seen or not callers.get(f.key):
        return False
    for k in callers[f.key]:
        g = p.fn[k]
        for i in g.instrs():
            if i.op == "call" and p.target(i) is f:
                if not guarded(g, e.fa[k], i, own) and not all_callers_guarded(p, e, callers, g, own, tuple(seen) + (f.key,)):
                    return False
    return True


SIZE = {}


def whole(p, f, i):
    """struct name if the copy covers a whole forest object"""
    n = ir.cval(i.ops[2])
    if n is None:
        return None
    d = i.ops[0]
    for st in ("p4est", "p8est", "p6est"):
        so = f.unit.structs.get("struct." + st)
        if so and so.get("size") == n:
            return st
    return None


def after_store(p, e, m, f, i, own):
    fa = e.fa[f.key]
    for j in f.instrs():
        if j is i:
            continue
        hit = (j.op == "store" and own_written(fa, j, own)) or (j.op == "call" and must_calls(p, m, f, j, own))
        if hit and ((j.bb == i.bb and j.idx > i.idx) or (j.bb != i.bb and f.postdominates(j.bb, i.bb))):
            return True
    return False


harness.main(run)
