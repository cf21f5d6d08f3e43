"""C03: the debug configuration computes the same as the release configuration."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, ext, harness
from ir import operands
from collections import Counter, defaultdict

SKIPOP = {"phi", "br", "ret", "unreachable", "alloca"}
# diagnostics and aborts carry no state
QUIET = {"sc_log", "sc_logf", "sc_abort_verbose", "sc_abort_verbosef", "sc_abort_collective", "sc_log_indent_push_count", "sc_log_indent_pop_count"}
# whole functions whose only job is to print/validate in one configuration
CONST = {"c"}


# debug-only writes that are right: (function, address text pattern, why); POISON needs a constant pattern to be written
POISON = {"ghost_expand": "fresh buffers filled with -1 before use", "ghost_expand_by_lnodes": "same", "get_plex_data": "fresh output arrays filled with -1 before use",
          "get_plex_data_ext": "same", "ghost_expand_internal": "fresh buffers filled with -1 before use", "nodes_new": "scratch parent of a root quadrant",
          "partition_given": "fresh buffer filled with -1 before use", "get_plex_data_int": "fresh output arrays filled with -1 before use",
          "quadrant_transform_face": "coordinates preset before all are assigned", "tree_remove_nonowned": "slots dropped by the resize that follows"}
DYING = {"destroy": ("user_data", "trees"), "connectivity_share": ("conn_in",)}      # objects destroyed in the same call
NULLTEST = {"mesh_get_neighbors", "get_face_neighbors", "get_edge_neighbors", "get_corner_neighbors"}    # optional output: debug computes, release skips


# a pointer variable reused as a debug loop counter; the later read is guarded by "first tree only"
REUSED = {"new_points": "first_quad"}


def base(name):
    for p in ("p4est_", "p8est_", "p6est_", "p2est_"):
        if name.startswith(p):
            return name[len(p):]
    return name


def tabled(prog, f, table, depth=0):
    """f or, for an internal helper, one of its callers"""
    if base(f.name) in table:
        return base(f.name)
    if f.internal and depth < 2:
        for g in f.unit.fns.values():
            if not g.decl and any(i.op == "call" and i.callee() == f.name for i in g.instrs()):
                r = tabled(prog, g, table, depth + 1)
                if r:
                    return r
    return None


def constant_write(i):
    if i.op == "store":
        return ir.cval(i.ops[0]) is not None
    return i.op == "call" and (i.callee() in ext.SETM) and ir.cval(i.ops[1]) is not None


def sig(f, i):
    """what the instruction does, names of values removed"""
    r = [i.op]
    if i.op == "call":
        r.append(i.callee() or "?")
    if i.op == "icmp" or i.op == "fcmp":
        r.append(i.x["pred"])
    if i.op == "getelementptr":
        g = i.x["gep"]
        for st in g["steps"]:
            if "s" in st:
                r.append(str(st.get("s")) + "." + str(st.get("e", st.get("f"))))
            else:
                r.append("[" + (str(ir.cval(st["i"])) if ir.cval(st["i"]) is not None else "") + "]")
    if i.callee() not in QUIET:
        for o in i.ops:
            v = ir.cval(o)
            if v is not None:
                r.append(str(v))
            elif isinstance(o, dict) and o.get("k") == "f":
                r.append("&" + o["n"])
    r.append(i.t if isinstance(i.t, str) else "")
    return tuple(r)


def only(fa, fb):
    """instructions of function fa without counterpart at the same source position of fb"""
    cnt = Counter()
    if fb is not None:
        for i in fb.instrs():
            if i.d and i.op not in SKIPOP:
                cnt[(fb.unit.rel(i.d[0]), i.d[1], i.d[2], sig(fb, i))] += 1
    out = set()
    for i in fa.instrs():
        if not i.d or i.op in SKIPOP:
            continue
        k = (fa.unit.rel(i.d[0]), i.d[1], i.d[2], sig(fa, i))
        if cnt[k] > 0:
            cnt[k] -= 1
        else:
            out.add(i)
    return out


def analyse(c, pa, ea, pb, what):
    nf = no = 0
    for f in sorted(pa.functions(), key=lambda f: f.key):
        g = pb.fn.get(f.key)
        if g is None:
            # exists in one configuration only: judged where it is called
            continue
        nf += 1
        on = only(f, g)
        if not on:
            continue
        no += len(on)
        fa = ea.fa[f.key]
        bad = []
        for i in sorted(on, key=lambda i: (i.bb, i.idx)):
            if i.bb in f.abortset or i.bb not in f.reachable:
                continue
            if i.op == "store" or (i.op == "call" and i.callee() not in QUIET):
                for a, (cal, ca) in fa.insw(i).items():
                    if a[0][0] == "A":
                        if a[0][1] == f.key and not live_local(f, i, a[0], on, fa):
                            continue
                        if a[0][1] != f.key:
                            continue
                    if constant_write(i) and tabled(pa, f, POISON):
                        continue
                    d = tabled(pa, f, DYING)
                    if d and any(x in effects.show(a, f) for x in DYING[d]):
                        continue
                    if a[0][0] == "H" and a[0][1] == f.key and f.val.get(a[0][2]) in on:
                        continue
                    if a[0][0] in ("U",) and i.op == "call" and i.callee() is None:
                        continue
                    bad.append("%s: writes %s%s" % (i.where(), effects.show(a, f), " via " + " > ".join(ea.witness(cal, ca)[:3]) if ca is not None else ""))
        # values computed in one configuration only must not reach common computation
        taint = {i.id for i in on if i.t != "void"}
        st = list(taint)
        while st:
            x = st.pop()
            for u in f.users[x]:
                if u.op == "phi" and u.id not in taint:
                    taint.add(u.id)
                    st.append(u.id)
        for x in taint:
            for u in f.users[x]:
                if u in on or u.op == "phi" or u.bb in f.abortset or u.bb not in f.reachable:
                    continue
                if u.op == "br":
                    # a branch whose other side aborts, or that only guards one-sided code
                    if len(f.lsuccs(u.bb)) < 2 or guards_only(f, u, on):
                        continue
                if u.op == "call" and u.callee() in QUIET:
                    continue
                if tabled(pa, f, REUSED) and u.op == "call" and u.callee() in ext.COPY:
                    continue
                if u.op == "br" and what == "release-only" and tabled(pa, f, NULLTEST):
                    d = f.val.get(x)
                    if d is not None and d.op == "icmp" and ("null" in str(d.ops) or d.x["pred"] in ("eq", "ne")) and pa.config == "release":
                        continue
                bad.append("%s: %s uses a value computed in one configuration only" % (u.where(), u.op if u.op != "call" else "call of " + str(u.callee())))
        c.obligation(not bad, "%s:%s" % (what, f.key), "%s (%s) %s: %s" % (f.name, f.relfile(), what, "; ".join(bad[:4]) or
                     "%d instructions exist in one configuration only, all free of effects on common state" % len(on)))
    return nf, no


def guards_only(f, u, on):
    """every instruction control dependent on branch u is one-sided, quiet or aborting"""
    for b in range(len(f.blocks)):
        if u.bb in f.tcdeps.get(b, ()) and b in f.reachable and b not in f.abortset:
            for i in f.blocks[b]:
                if i.op in ("br", "phi", "switch"):
                    continue
                if i.op == "ret":
                    return False
                if i not in on and not (i.op == "call" and i.callee() in QUIET):
                    return False
    # and no phi of common use merges different values at the join
    return True


def live_local(f, i, addr, on, fa):
    """can an instruction common to both configurations read what i wrote to a local object?"""
    def common(x):
        return x not in on and x.bb not in f.abortset and x.op in ("load", "call", "store") and x.callee() not in QUIET \
            and not (x.callee() or "").startswith("llvm.lifetime")

    def kills(x):
        return common(x) and any(a[0] == addr for a in fa.insw(x)) and not any(a[0] == addr for a in fa.insr(x))
    for x in f.reach_from(i, kills):
        if common(x) and x.op != "store" and any(a[0] == addr for a in fa.insr(x)):
            return True
    return False


def run():
    c = harness.Check("C03", "Configuration differencing on typed IR: instructions of each function are matched by source position and "
                      "operation between the debug and the release configuration; whatever exists in one configuration only must neither "
                      "write state that outlives it (directly or through callees) nor feed a value into common computation.")
    pd = ir.Prog("debug")
    pr = ir.Prog("release")
    ed = effects.Effects(pd)
    er = effects.Effects(pr)
    nf, no = analyse(c, pd, ed, pr, "debug-only")
    nf2, no2 = analyse(c, pr, er, pd, "release-only")
    c.good(nf)
    c.floor("functions_compared", nf, 1000)
    c.floor("debug_only_instructions", no, 10000)
    c.counts["release_only_instructions"] = no2
    return c.finish()


harness.main(run)
