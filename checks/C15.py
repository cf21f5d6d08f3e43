"""C15: every connectivity operation covers every field completely."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, sym, harness
from connfmt import *

MEMCPY = ("llvm.memcpy.p0.p0.i64", "memcpy", "llvm.memmove.p0.p0.i64", "memmove")


def run():
    c = harness.Check("C15", "Symbolic-extent coverage: for each pointer field of the connectivity, the number of bytes and the presence condition "
                      "under which it is allocated are compared with those of every sibling operation (broadcast, shared-memory construction, copy, "
                      "comparison, serialisation, deserialisation, destruction); every scalar count is compared, broadcast and serialised.")
    for config in ("release", "debug"):
        p = ir.Prog(config, inline=400)
        p0 = ir.Prog(config)
        n = 0
        for d in ("p4est", "p8est"):
            scal, ptrs = fields(p, d)
            E = extents(p, d)
            c.floor("pointer_fields_%s_%s" % (d, config), len(ptrs), 9 if d == "p4est" else 13)
            for F in ptrs:
                c.obligation(F in E, "%s:alloc:%s" % (d, F), "%s_connectivity.%s is %s" % (d, F, "allocated as %s bytes" % show(E[F][0]) if F in E else "never allocated by the constructors"), sample=True)
            ops = [("_connectivity_bcast", ("MPI_Bcast",), 0, 1, 2), ("_connectivity_new_copy", MEMCPY, 0, 2, None),
                   ("_connectivity_is_equal", ("memcmp",), 0, 2, None), ("_connectivity_sink", ("sc_io_sink_write",), 1, 2, None),
                   ("_connectivity_source", ("sc_io_source_read",), 1, 2, None)]
            for fn, cal, bi, li, sc in ops:
                f, S, seq = stream(p, d, fn, cal, bi, li, sc)
                got = {}
                for what, by, g, i, fo in seq:
                    got.setdefault(what, []).append((by, g, i))
                for F in ptrs:
                    if F not in E:
                        continue
                    if fn == "_connectivity_new_copy" and F == "tree_to_attr":
                        continue        # the constructor from arrays takes no attributes
                    n += 1
                    want, ga, _ = E[F]
                    if F not in got:
                        c.obligation(False, "%s:%s" % (f.name, F), "%s (%s:%d) does not process field %s" % (f.name, f.relfile(), f.fline, F))
                        continue
                    ok = False
                    why = ""
                    for by, g, i in got[F]:
                        good = by == want
                        if not good and fn == "_connectivity_bcast" and F in ("ett_offset", "ctt_offset"):
                            # the last offset is set by the constructor from the broadcast count
                            good = add(by, const(4)) == want
                        bad = [x for x in g if x not in ga and not implied(x, F)]
                        ok = ok or (good and not bad)
                        why = "%s: %s processes %s bytes of field %s (allocated: %s)%s" % (i.where(), f.name, show(by), F, show(want),
                              "; skipped unless %s" % ", ".join(bad) if bad else "")
                    c.obligation(ok, "%s:%s" % (f.name, F), why, sample=True)
                if fn == "_connectivity_is_equal":
                    for what, by, g, i, fo in seq:
                        a, b = field_of(S, i.ops[0], d, ptrs), field_of(S, i.ops[1], d, ptrs)
                        ok = a and b and a[0] == b[0] and a[1] != b[1]
                        c.obligation(bool(ok), "%s:pair:%s" % (f.name, what), "%s: %s compares %s with %s" % (i.where(), f.name, a and a[0], b and b[0]))
                    for s in scal:
                        ok = any(i.op == "icmp" and pairfield(S, i, d, s) for i in f.instrs())
                        n += 1
                        c.obligation(ok, "%s:scalar:%s" % (f.name, s), "%s %s the two values of %s" % (f.name, "compares" if ok else "does not compare", s))
                if fn in ("_connectivity_bcast", "_connectivity_sink"):
                    for s in scal:
                        ok = any(i.op == "store" and S.addr(i.ops[1])[0][0] == "A" and S.poly(i.ops[0]) == {(s,): 1} for i in f.instrs())
                        n += 1
                        c.obligation(ok, "%s:scalar:%s" % (f.name, s), "%s %s %s" % (f.name, "transmits" if ok else "does not transmit", s))
            # shared-memory construction
            f = p0.ext.get(d + "_connectivity_share")
            if f is not None:
                got = {}
                st = d + "_connectivity."
                for g in family(p0, f):
                    S = symfor(p0, g, d)
                    for i in g.instrs():
                        if i.op == "call" and i.bb not in g.abortset and p0.target(i) is not None and len(i.ops) >= 5 and p0.target(i).internal:
                            for o in i.ops:
                                if isinstance(o, int):
                                    rt, t, fl = S.addr(o)
                                    if fl and fl[-1].startswith(st) and t in ptrs:
                                        got[t] = (i, g, S)
                for F in ptrs:
                    if F not in E:
                        continue
                    n += 1
                    i, g, S = got.get(F, (None, None, None))
                    if i is None:
                        c.obligation(False, "%s:%s" % (f.name, F), "%s (%s:%d) does not share field %s" % (f.name, f.relfile(), f.fline, F))
                        continue
                    src = [field_of(S, o, d, ptrs) for o in i.ops if isinstance(o, int)]
                    src = [x[0] for x in src if x]
                    by = mul(S.poly(i.ops[0]), S.poly(i.ops[1]))
                    bad = [x for x in guards(g, S, i) if x not in E[F][1] and not implied(x, F)]
                    c.obligation(by == E[F][0] and src == [F] and not bad, "%s:%s" % (f.name, F), "%s: %s shares %s bytes of %s into %s (allocated: %s)%s" % (
                        i.where(), f.name, show(by), ",".join(src), F, show(E[F][0]), "; skipped unless " + ", ".join(bad) if bad else ""), sample=True)
            n += copying(c, p, p0, d, E, scal, ptrs)
            n += permuting(c, p, d, E, ptrs)
            n += emptying(c, p, d, E, ptrs)
            # destruction frees every field
            f = p.ext[d + "_connectivity_destroy"]
            S = symfor(p, f, d)
            freed = {}
            for g in (f, p.ext.get(d + "_connectivity_set_attr")):
                Sg = symfor(p, g, d)
                for i in g.instrs():
                    if i.op == "call" and i.callee() == "sc_free":
                        fo = field_of(Sg, i.ops[1], d, ptrs)
                        if fo:
                            freed[fo[0]] = i
            calls_attr = any(i.op == "call" and i.callee() == d + "_connectivity_set_attr" and sym.cst(S.poly(i.ops[1])) == 0 for i in f.instrs())
            for F in ptrs:
                n += 1
                ok = F in freed and (freed[F].fn is f or calls_attr)
                c.obligation(ok, "%s:free:%s" % (f.name, F), "%s %s field %s" % (f.name, "frees" if ok else "does not free", F))
        c.floor("operation_field_pairs_" + config, n, 150)
    return c.finish()


def family(p, f):
    """a function and the internal helpers it calls, directly or not"""
    out, work = [f], [f]
    while work:
        for i in work.pop().instrs():
            if i.op == "call":
                g = p.target(i)
                if g is not None and g.internal and g not in out:
                    out.append(g)
                    work.append(g)
    return out


def one(q):
    """the only atom of a polynomial"""
    if len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1:
        return list(q)[0][0]
    return None


def copying(c, p, p0, d, E, scal, ptrs):
    """arrays handed from operation to operation are those of the field they are meant for"""
    n = 0
    names = {"ett_offset[num_edges]": "num_ett", "ctt_offset[num_corners]": "num_ctt"}
    # which parameter of the constructor from arrays fills which field
    f, S, seq = stream(p, d, "_connectivity_new_copy", MEMCPY, 0, 2, None)
    par = {}
    for what, by, g, i, fo in seq:
        rt, t, fl = S.addr(i.ops[1])
        if what in ptrs and rt[0] == "P":
            par[rt[1]] = what
    new = p0.ext[d + "_connectivity_new"]
    cp = p0.ext[d + "_connectivity_new_copy"]
    for i in cp.instrs():
        if i.op == "call" and i.callee() == new.name:
            for k, o in enumerate(i.ops):
                if isinstance(o, int) and o < cp.nargs:
                    par[o] = new.params[k]["name"]
    f = p.ext[d + "_connectivity_copy"]
    S = sym.Sym(f)
    for i in f.instrs():
        if i.op == "call" and i.callee() == cp.name:
            for k, o in enumerate(i.ops):
                if k in par:
                    n += 1
                    a = one(S.poly(o))
                    c.obligation(a == par[k], "%s:arg:%s" % (f.name, par[k]), "%s: %s makes the copy's %s from %s" % (i.where(), f.name, par[k], a), sample=True)
    f, S, seq = stream(p, d, "_connectivity_copy", MEMCPY, 0, 2, None)
    for F in ("tree_to_attr",):
        if F in E:
            ok = False
            why = "%s does not copy %s" % (f.name, F)
            for i in f.instrs():
                if i.op == "call" and i.callee() in MEMCPY and i.bb not in f.abortset:
                    src = field_of(S, i.ops[1], d, ptrs)
                    if src and src[0] == F:
                        ok = S.poly(i.ops[2]) == E[F][0]
                        why = "%s: %s copies %s bytes of %s (allocated: %s)" % (i.where(), f.name, show(S.poly(i.ops[2])), F, show(E[F][0]))
            n += 1
            c.obligation(ok, "%s:%s" % (f.name, F), why, sample=True)
    # counts sent ahead of a broadcast are those of the connectivity
    f = p.ext[d + "_connectivity_bcast"]
    S = sym.Sym(f)
    slot = {}
    for i in f.instrs():
        if i.op == "call" and i.callee() in (d + "_connectivity_new", d + "_connectivity_set_attr"):
            for k, o in enumerate(i.ops):
                a = one(S.poly(o))
                if a and a.startswith("#"):
                    slot[a] = "tree_attr_bytes" if i.callee().endswith("attr") else new.params[k]["name"]
    for i in f.instrs():
        if i.op == "store" and S.addr(i.ops[1])[0][0] == "A" and S.addr(i.ops[1])[1] in slot:
            w = slot[S.addr(i.ops[1])[1]]
            q = S.poly(i.ops[0])
            a = one(q)
            n += 1
            c.obligation(names.get(a, a) == w, "%s:count:%s" % (f.name, w), "%s: %s announces %s as %s" % (i.where(), f.name, show(q), w), sample=True)
    # the shared copy of an array has all its bytes
    f = p0.ext.get(d + "_connectivity_share")
    for g in {p0.target(i).key for h in (family(p0, f) if f is not None else ()) for i in h.instrs() if i.op == "call" and p0.target(i) is not None and p0.target(i).internal and len(i.ops) >= 5}:
        g = p0.fn[g]
        S = sym.Sym(g)
        for i in g.instrs():
            if i.op == "call" and i.callee() in MEMCPY and i.bb not in g.abortset:
                n += 1
                q = S.poly(i.ops[2])
                w = mul(S.poly(0), S.poly(1))
                c.obligation(q == w or S2(g, i.ops[2]) == w, "%s:%s:copy" % (d, g.name), "%s: %s copies %s bytes of an array of %s" % (i.where(), g.name, show(S2(g, i.ops[2])), show(w)))
    return n


def S2(g, o):
    """value of an operand, seeing through a variable that a library call may also set to the same value"""
    S = sym.Sym(g)
    m = {}
    for i in g.instrs():
        if i.op == "load":
            rt, t, fl = S.addr(i.ops[0])
            if rt[0] == "A" and not fl:
                st = [j for j in g.instrs() if j.op == "store" and S.addr(j.ops[1])[0] == rt]
                if len(st) == 1:
                    m[t] = S.poly(st[0].ops[0])
    r = {}
    for mon, k in S.poly(o).items():
        q = const(k)
        for a in mon:
            q = mul(q, m.get(a, {(a,): 1}))
        r = add(r, q)
    return r


def enclosing(f, S, b):
    """bounds of the counting loops around a block"""
    out = []
    for h, body in loops(f).items():
        if b not in body:
            continue
        t = f.blocks[h][-1]
        cnd = f.val.get(t.x.get("cond")) if t.x.get("cond") is not None else None
        bound = None
        if cnd is not None and cnd.op == "icmp":
            for k in (0, 1):
                v = cnd.ops[k]
                ph = f.val.get(v) if isinstance(v, int) else None
                while ph is not None and ph.op in ("sext", "zext", "trunc"):
                    ph = f.val.get(ph.ops[0]) if isinstance(ph.ops[0], int) else None
                if ph is None or ph.op != "phi" or ph.bb != h:
                    continue
                start = [x for x, fr in ph.x["inc"] if fr not in body]
                step = [x for x, fr in ph.x["inc"] if fr in body]
                if not all(isinstance(x, dict) and ir.cval(x) == 0 for x in start):
                    continue
                inc = True
                for x in step:
                    e = f.val.get(x) if isinstance(x, int) else None
                    inc = inc and e is not None and e.op == "add" and e.ops[0] == ph.id and ir.cval(e.ops[1]) == 1
                pr = cnd.x["pred"]
                if inc and (pr in ("slt", "ult", "ne") and k == 0 or pr in ("sgt", "ugt", "ne") and k == 1):
                    bound = S.poly(cnd.ops[1 - k])
        out.append(bound)
    return out


def loops(f):
    """natural loops by header"""
    out = {}
    dom = {}
    rpo = f._rpo([0], f.succs)
    pos = {b: k for k, b in enumerate(rpo)}
    for b in rpo:
        for t in f.succs(b):
            if pos.get(t, 1 << 30) <= pos[b]:
                body = out.setdefault(t, {t})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(f.preds[x])
    return out


def needs(f, S, i, d, ptrs):
    """fields whose presence (pointer or count) is tested on the way to an instruction"""
    out = set()
    for b in f.tcdeps.get(i.bb, ()):
        cnd = f.val.get(f.blocks[b][-1].x.get("cond"))
        if cnd is None or cnd.op != "icmp":
            continue
        for o in cnd.ops:
            e = f.val.get(o) if isinstance(o, int) else None
            while e is not None and e.op in ("sext", "zext", "trunc"):
                e = f.val.get(e.ops[0]) if isinstance(e.ops[0], int) else None
            if e is not None and e.op == "load":
                rt, t, fl = S.addr(e.ops[0])
                if fl and fl[-1].startswith(d + "_connectivity."):
                    out.add(fl[-1].split(".")[1])
    return out


INDEX = ("tree_to_tree", "edge_to_tree", "corner_to_tree")    # fields whose entries are tree numbers


def permuting(c, p, d, E, ptrs):
    """a permutation of the trees moves every array with an entry per tree and translates every tree number"""
    f = p.ext.get(d + "_connectivity_permute")
    if f is None:
        c.obligation(False, "%s:permute" % d, "%s_connectivity_permute does not exist" % d)
        return 0
    S = symfor(p, f, d)
    n = 0
    o = order(f)
    seq = sorted((i for i in f.instrs() if i.op == "call" and i.callee() in ("sc_array_init_data", "sc_array_permute", "sc_array_init_reshape") and i.bb not in f.abortset), key=lambda i: (o.get(i.bb, 0), i.idx))
    moved = {}
    for k, i in enumerate(seq):
        if i.callee() == "sc_array_init_data" and k + 1 < len(seq) and seq[k + 1].callee() == "sc_array_permute" and seq[k + 1].ops[0] == i.ops[0]:
            fo = field_of(S, i.ops[1], d, ptrs)
            if fo:
                moved[fo[0]] = i
    # moved by other means (or through a table of pointers): no statement about the extent
    other = {(field_of(S, o, d, ptrs) or [None])[0] for i in f.instrs() if i.op == "call" and i.bb not in f.abortset and i.callee() not in ("sc_array_init_data", "sc_array_init_reshape") for o in i.ops[:-1] if isinstance(o, dict)}
    other |= {(field_of(S, i.ops[0], d, ptrs) or [None])[0] for i in f.instrs() if i.op == "store" and isinstance(i.ops[0], dict)}
    other |= {(field_of(S, i.ops[1], d, ptrs) or [None])[0] for i in f.instrs() if i.op == "store" and "tree_to_tree" != (field_of(S, i.ops[1], d, ptrs) or [None])[0]}
    for F in ptrs:
        if F not in E:
            continue
        group = {"vertices", "tree_to_vertex"} if F == "tree_to_vertex" else {"tree_attr_bytes"} if F == "tree_to_attr" else \
            {"num_edges", "edge_to_tree", "edge_to_edge"} if "edge" in F else {"num_corners", "corner_to_tree", "corner_to_corner"}
        if any("num_trees" in m for m in E[F][0]):
            n += 1
            i = moved.get(F)
            if i is None and F in other:
                continue
            if not c.obligation(i is not None, "%s:move:%s" % (f.name, F), "%s (%s:%d) %s the entries of %s along with their trees" % (f.name, f.relfile(), f.fline, "moves" if i is not None else "does not move", F), sample=True):
                continue
            by = mul(S.poly(i.ops[2]), S.poly(i.ops[3]))
            # the permutation has as many entries as there are trees
            byperm = {tuple(sorted("elem_count" if x == "num_trees" else x for x in m)): k for m, k in E[F][0].items()}
            nd = needs(f, S, i, d, ptrs)
            opt = bool(E[F][1])
            c.obligation(by in (E[F][0], byperm) and S.poly(i.ops[3]) in ({("num_trees",): 1}, {("elem_count",): 1}), "%s:extent:%s" % (f.name, F), "%s: %s permutes %s bytes of %s (allocated: %s)" % (i.where(), f.name, show(by), F, show(E[F][0])))
            c.obligation(bool(nd & (group | {F, "num_vertices" if F == "tree_to_vertex" else F})) if opt else nd <= {F}, "%s:presence:%s" % (f.name, F), "%s: %s permutes %s%s" % (
                i.where(), f.name, F, " without asking whether it is present" if opt and not nd else ", skipped depending on %s" % sorted(nd)))
        if F in INDEX:
            n += 1
            got = []
            for i in f.instrs():
                if i.op == "store" and i.bb not in f.abortset:
                    fo = field_of(S, i.ops[1], d, ptrs)
                    if fo and fo[0] == F:
                        ext = const(4)
                        for b in enclosing(f, S, i.bb):
                            ext = mul(ext, b if b is not None else {("?",): 1})
                        src = show(S.poly(i.ops[0]))
                        got.append((ext, src.count(fo[2]) == 1 and src != fo[2], i))
            ok = any((x == E[F][0] or any("?" in m for m in x)) and y for x, y, _ in got)
            c.obligation(ok, "%s:index:%s" % (f.name, F), "%s: %s renumbers %s bytes of %s (allocated: %s)" % (got[0][2].where() if got else f.relfile(), f.name, [show(x) for x, _, _ in got], F, show(E[F][0])), sample=True)
    return n


def emptying(c, p, d, E, ptrs):
    """where a count is set to zero the offsets say so and the arrays are gone"""
    n = 0
    for f in p.functions():
        if f.name == d + "_connectivity_new" or not f.relfile().endswith("connectivity.c"):
            continue
        S = None
        for i in f.instrs():
            if i.op != "store" or i.bb in f.abortset or not (isinstance(i.ops[0], dict) and ir.cval(i.ops[0]) == 0):
                continue
            S = S or symfor(p, f, d)
            rt, t, fl = S.addr(i.ops[1])
            for cnt, off, fs in (("num_corners", "ctt_offset", ("tree_to_corner", "corner_to_tree", "corner_to_corner")), ("num_edges", "ett_offset", ("tree_to_edge", "edge_to_tree", "edge_to_edge"))):
                if fl and fl[-1] == d + "_connectivity." + cnt and rt[0] in "PL":
                    n += 1
                    z = [j for j in f.instrs() if j.op == "store" and isinstance(j.ops[0], dict) and ir.cval(j.ops[0]) == 0 and (field_of(S, j.ops[1], d, ptrs) or [0])[0] == off]
                    c.obligation(bool(z), "%s:zero:%s" % (f.name, off), "%s: %s sets %s to zero and %s the first entry of %s" % (i.where(), f.name, cnt, "clears" if z else "does not clear", off), sample=True)
                    for F in fs:
                        z = [j for j in f.instrs() if j.op == "store" and isinstance(j.ops[0], dict) and j.ops[0].get("k") == "null" and S.addr(j.ops[1])[2] and S.addr(j.ops[1])[2][-1] == d + "_connectivity." + F]
                        c.obligation(bool(z), "%s:null:%s" % (f.name, F), "%s: %s sets %s to zero and %s %s" % (i.where(), f.name, cnt, "removes" if z else "keeps", F))
    return n


def implied(g, F):
    # offsets exist always; a field of num_ett entries exists iff num_edges > 0 and vice versa
    return (g == "num_ett>0" and F in ("edge_to_tree", "edge_to_edge")) or (g == "num_ctt>0" and F in ("corner_to_tree", "corner_to_corner")) or g == "num_trees>0"


def pairfield(S, i, d, s):
    f = S.f
    r = []
    for o in i.ops:
        x = f.val.get(o) if isinstance(o, int) else None
        while x is not None and x.op in ("zext", "sext", "trunc"):
            x = f.val.get(x.ops[0]) if isinstance(x.ops[0], int) else None
        if x is None or x.op != "load":
            return False
        rt, t, fl = S.addr(x.ops[0])
        if not fl or fl[-1] != d + "_connectivity." + s or rt[0] != "P":
            return False
        r.append(rt)
    return len(r) == 2 and r[0] != r[1]


if __name__ == "__main__":
    harness.main(run)
