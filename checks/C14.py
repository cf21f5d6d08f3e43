"""C14: what is written to a file is laid out exactly as it is read back."""
import sys, os, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, sym, harness
from sym import add, mul, const, show, cst
from connfmt import *

MEMCPY = ("llvm.memcpy.p0.p0.i64", "memcpy", "llvm.memmove.p0.p0.i64", "memmove")


def subst(p, m):
    r = {}
    for mon, c in p.items():
        q = const(c)
        for a in mon:
            q = mul(q, m[a] if a in m else {(a,): 1})
        r = add(r, q)
    return r


def single(p):
    """the only atom of p, or None"""
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return None


def calls(f, names):
    o = order(f)
    return sorted((i for i in f.instrs() if i.op == "call" and i.callee() in names and i.bb not in f.abortset), key=lambda i: (o.get(i.bb, 0), i.idx))


def isnull(o):
    return isinstance(o, dict) and o.get("k") == "null"


def strarg(p, f, o):
    """string constant passed as operand"""
    if isinstance(o, dict) and o.get("n"):
        g = f.unit.globals.get(o["n"])
        if g:
            return g.get("str") or g.get("init")
    return None


def canonical(S):
    """the variables that hold the number of this process and the number of processes, whatever they are called"""
    al = {}
    for i in S.f.instrs():
        if i.op == "call" and (i.callee() or "").replace("sc_", "") in ("MPI_Comm_rank", "MPI_Comm_size") and isinstance(i.ops[1], int):
            al[i.ops[1]] = "rank" if i.callee().endswith("rank") else "num_procs"
    old = S.vname
    S.vname = lambda o: al.get(o) or old(o)


class Fmt:
    def __init__(s, p, name):
        s.f = p.ext[name]
        s.S = sym.Sym(s.f)
        s.S.flat = True
        s.S2 = sym.Sym(s.f)
        s.name = name
        canonical(s.S)

    def base(s, o):
        """allocation a pointer is based on (phis of one allocation looked through)"""
        b, off = s.S.ptr(o)
        seen = set()
        while isinstance(b, int) and b not in seen:
            seen.add(b)
            d = s.f.val.get(b)
            if d is not None and d.op == "phi":
                vs = [v for v, _ in d.x["inc"] if isinstance(v, int)]
                nb = {s.S.ptr(v)[0] for v in vs} - {b}
                if len(nb) == 1:
                    b = nb.pop()
                    continue
            break
        return b, off


def header_writer(F, sink="sc_io_sink_write"):
    """(instr, buffer, total length, {index: value}, [(offset, value) of array stores])"""
    f, S = F.f, F.S
    for i in calls(f, (sink,)):
        b, off = F.base(i.ops[1])
        d = f.val.get(b) if isinstance(b, int) else None
        if d is None or d.op not in ("call", "alloca"):
            continue
        if d.op == "call" and d.callee() not in ("sc_malloc", "sc_calloc"):
            continue
        H, A = {}, []
        for st in f.instrs():
            if st.op == "store":
                bb, oo = F.base(st.ops[1])
                if bb == b:
                    k = cst(oo)
                    v = S.poly(st.ops[0])
                    if S.ptr(st.ops[1])[0] != b:
                        A.append((None, v, st))      # through a moving pointer
                    elif k is not None and k % 8 == 0:
                        H.setdefault(k // 8, []).append((v, st))
                    else:
                        A.append((oo, v, st))
        if len(H) >= 5:
            return i, b, S.poly(i.ops[2]), H, A
    return None


def loads_of(F, base):
    """{index: [load instr]} of the 64 bit words of a buffer"""
    r = {}
    for i in F.f.instrs():
        if i.op == "load":
            b, off = F.base(i.ops[0])
            if b == base and cst(off) is not None and cst(off) % 8 == 0:
                r.setdefault(cst(off) // 8, []).append(i)
    return r


def compared(F, ld):
    """constants/polynomials the loaded word must equal or else the program stops or returns failure"""
    f, S = F.f, F.S
    out = []
    st = [ld.id]
    seen = set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for u in f.users[x]:
            if u.op in ("trunc", "zext", "sext", "phi"):
                st.append(u.id)
            if u.op == "icmp" and u.x["pred"] in ("eq", "ne"):
                o = [v for v in u.ops if v != x]
                if o and enforced(f, u):
                    out.append(S.poly(o[0]))
    return out


def enforced(f, cmp, depth=0):
    """a branch (or returned value) depends on the comparison, with one side that ends the operation"""
    for u in f.users[cmp.id]:
        if u.op == "br":
            su = f.succs(u.bb)
            if any(t in f.abortset for t in su):
                return True
            for t in su:
                if quick_exit(f, t):
                    return True
        if u.op in ("or", "and", "xor", "select", "phi", "zext", "freeze") and depth < 4 and enforced(f, u, depth + 1):
            return True
    return False


def quick_exit(f, b):
    """block leads to the return without reading anything further"""
    seen = set()
    st = [b]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        for i in f.blocks[x]:
            if i.op == "call" and i.callee() and ("read" in i.callee() or "Bcast" in i.callee()):
                return False
        st.extend(f.lsuccs(x))
    return True


def pathsums(F, names, lenarg, start, stop, limit=20000):
    """all sums of lengths of the calls of names on paths strictly after start up to and including stop"""
    f, S = F.f, F.S
    o = order(f)
    out = {}
    st = [(start.bb, start.idx + 1, {}, frozenset())]
    n = 0
    seen = set()
    while st:
        b, k, tot, env = st.pop()
        key = (b, k, tuple(sorted(tot.items())), env)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        if n > limit:
            return None
        done = False
        for i in f.blocks[b][k:]:
            if i.op == "call" and i.callee() in names:
                tot = add(tot, S.poly(i.ops[lenarg]))
                if i is stop:
                    out[show(tot)] = tot
                    done = True
                    break
        if done:
            continue
        t = f.blocks[b][-1]
        su = f.succs(b)
        cond = t.x.get("cond")
        ctx = None
        if cond is not None and len(set(su)) == 2:
            ctx = S.cond(cond)
            if "phi:" in ctx or "%" in ctx or "call:" in ctx:
                ctx = None
        for j, s in enumerate(su):
            if s in f.abortset or o.get(s, -1) <= o.get(b, 0):
                continue
            e = env
            if ctx is not None:
                val = j == 0
                d = dict(env)
                if ctx in d and d[ctx] != val:
                    continue
                e = env | {(ctx, val)}
            st.append((s, 0, tot, e))
    return out


def connectivity(c, p, d, config):
    fw, Sw, W = stream(p, d, "_connectivity_sink", ("sc_io_sink_write",), 1, 2, None)
    fr, Sr, R = stream(p, d, "_connectivity_source", ("sc_io_source_read",), 1, 2, None)
    c.floor("connectivity_items_%s_%s" % (d, config), len(W), 9)
    c.obligation(len(W) == len(R), "%s:items" % d, "%s_connectivity_sink writes %d items in sequence, _source reads %d" % (d, len(W), len(R)), sample=True)
    for k, (w, r) in enumerate(zip(W, R)):
        ww = w[0] if not w[0].startswith("local:") else "header"
        rr = r[0] if not r[0].startswith("local:") else "header"
        c.obligation(ww == rr and w[1] == r[1] and w[2] == r[2], "%s:item%d:%s" % (d, k, w[0]),
                     "item %d: %s writes %s, %s bytes when {%s}; %s reads %s, %s bytes when {%s}" % (
                         k, w[3].where(), ww, show(w[1]), ",".join(sorted(w[2])), r[3].where(), rr, show(r[1]), ",".join(sorted(r[2]))))
    # header words
    FW, FR = Fmt(p, d + "_connectivity_sink"), Fmt(p, d + "_connectivity_source")
    hw = header_writer(FW)
    if not c.obligation(hw is not None, d + ":conn-header", "%s_connectivity_sink writes a header of 64 bit words" % d):
        return
    H = hw[3]
    rd = [i for i in calls(FR.f, ("sc_io_source_read",)) if FR.S.poly(i.ops[2]) == hw[2]]
    rb = FR.base(rd[0].ops[1])[0] if rd else None
    L = loads_of(FR, rb)
    new = p.ext[d + "_connectivity_new"]
    use = {}
    for i in calls(FR.f, (d + "_connectivity_new", d + "_connectivity_set_attr")):
        for k, o in enumerate(i.ops):
            b = src_word(FR, o, rb)
            if b is not None:
                use[b] = "tree_attr_bytes" if i.callee().endswith("attr") else new.params[k]["name"]
    names = {"ett_offset[num_edges]": "num_ett", "ctt_offset[num_corners]": "num_ctt"}
    for k in sorted(H):
        v, st = H[k][0]
        a = single(v)
        if a is not None and a not in ("array10",):
            n = names.get(a, a)
            if n in NUMS:
                c.obligation(use.get(k) == n, "%s:conn-word%d" % (d, k), "header word %d holds %s (%s) and is used as %s by the reader" % (k, n, st.where(), use.get(k)), sample=True)
                continue
        if use.get(k) in NUMS and cst(v) is None:
            vs = alts(FW, st.ops[0])
            ns = [names.get(single(x), single(x)) for x in vs if x]
            c.obligation(bool(ns) and all(n == use[k] for n in ns), "%s:conn-word%d" % (d, k), "header word %d holds %s (%s) and is used as %s by the reader" % (k, [show(x) for x in vs], st.where(), use[k]))
            continue
        if cst(v) is not None and (cst(v) != 0 or k in L):
            got = [x for l in L.get(k, []) for x in compared(FR, l)]
            c.obligation(any(x == v for x in got), "%s:conn-word%d" % (d, k), "header word %d is written as the constant %s (%s) and compared with %s by the reader" % (k, show(v), st.where(), [show(x) for x in got]), sample=True)
    # the magic string: same literal on both sides
    mw = [strarg(p, FW.f, i.ops[1]) for i in FW.f.instrs() if i.op == "call" and i.callee() == "strncpy"]
    mr = [strarg(p, FR.f, i.ops[1]) for i in FR.f.instrs() if i.op == "call" and i.callee() in ("strncmp", "memcmp", "bcmp")]
    if mw and mr and mw[0] is not None and mr[0] is not None:
        c.obligation(mw[0] == mr[0], d + ":magic", "magic written %r, compared with %r" % (mw[0], mr[0]))


def src_word(F, o, base):
    """index of the header word an operand is converted from"""
    f = F.f
    n = 0
    while isinstance(o, int) and n < 8:
        n += 1
        d = f.val.get(o)
        if d is None:
            return None
        if d.op in ("trunc", "zext", "sext", "freeze"):
            o = d.ops[0]
        elif d.op == "load":
            b, off = F.base(d.ops[0])
            return cst(off) // 8 if b == base and cst(off) is not None else None
        else:
            return None
    return None


def loadof(f, v):
    """the load a value comes from through conversions"""
    d = f.val.get(v) if isinstance(v, int) else None
    while d is not None and d.op in ("trunc", "sext", "zext", "freeze"):
        d = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
    return d if d is not None and d.op == "load" else None


def split(b, off):
    """(pointer without its constant displacement, displacement)"""
    return (b, tuple(sorted((m, c) for m, c in off.items() if m))), off.get((), 0)


def fieldloads(F, want, pre):
    """{record pointer: {byte offset: (field, instr)}} of quadrant fields assigned from memory"""
    f, S = F.f, F.S
    by = {}
    for i in f.instrs():
        if i.op == "store":
            rt, t, fl = S.addr(i.ops[1])
            if fl and fl[-1].startswith(pre) and fl[-1][len(pre):] in want:
                v = i.ops[0]
                dd = f.val.get(v) if isinstance(v, int) else None
                while dd is not None and dd.op in ("trunc", "sext", "zext"):
                    v = dd.ops[0]
                    dd = f.val.get(v) if isinstance(v, int) else None
                if dd is not None and dd.op == "load":
                    b, k = split(*S.ptr(dd.ops[0]))
                    by.setdefault(b, {})[k] = (fl[-1][len(pre):], i)
    if not by:
        return None, {}
    b = max(by, key=lambda k: len(by[k]))
    return b, by[b]


def alts(F, o, depth=0):
    """the values a length can take, phis split"""
    d = F.f.val.get(o) if isinstance(o, int) else None
    if d is None or depth > 20:
        return [F.S.poly(o)]
    if d.op in ("zext", "sext", "trunc", "freeze"):
        return alts(F, d.ops[0], depth + 1)
    if d.op == "phi":
        return [x for v, _ in d.x["inc"] if v != o for x in alts(F, v, depth + 1)]
    if d.op in ("mul", "add"):
        return [(mul if d.op == "mul" else add)(x, y) for x in alts(F, d.ops[0], depth + 1) for y in alts(F, d.ops[1], depth + 1)]
    if d.op == "shl" and cst(F.S.poly(d.ops[1])) is not None:
        return [mul(x, const(1 << cst(F.S.poly(d.ops[1])))) for x in alts(F, d.ops[0], depth + 1)]
    return [F.S.poly(o)]


def mods(F):
    """moduli of the alignment computations in a function, with the instruction"""
    r = {}
    for i in F.f.instrs():
        if i.op in ("srem", "urem") and i.bb not in F.f.abortset:
            k = cst(F.S.poly(i.ops[1]))
            r.setdefault(k if k is not None else show(F.S.poly(i.ops[1])), i)
        if i.op == "and" and i.bb not in F.f.abortset:
            k = ir.cval(i.ops[1])
            if k is not None and k + 1 in (8, 16, 32, 64, 128):
                r.setdefault(k + 1, i)
    return r


def roots(F, o):
    """names of the parameters, fields and calls a value is computed from"""
    f, S = F.f, F.S
    out, seen, st = set(), set(), [o]
    while st:
        v = st.pop()
        if not isinstance(v, int) or v in seen:
            continue
        seen.add(v)
        d = f.val.get(v)
        if v < f.nargs:
            out.add(f.params[v]["name"])
        elif d is None:
            continue
        elif d.op == "phi":
            st.extend(x for x, _ in d.x["inc"])
        elif d.op == "load":
            out.add(S.addr(d.ops[0])[1].split(".")[-1])
        elif d.op == "call":
            out.add("call:%s" % d.callee())
        else:
            st.extend(d.ops)
    return out


def sequence(F, marks):
    """the order of alignments ('A') and marked calls in a function, repetitions collapsed"""
    f = F.f
    o = order(f)
    ev = []
    for i in f.instrs():
        if i.bb in f.abortset:
            continue
        if i.op in ("srem", "urem") or i.op == "and" and ir.cval(i.ops[1]) is not None and ir.cval(i.ops[1]) + 1 in (8, 16, 32, 64, 128):
            ev.append((o.get(i.bb, 0), i.idx, "A"))
        elif i.op == "call":
            m = marks(i)
            if m:
                ev.append((o.get(i.bb, 0), i.idx, m))
    t = ""
    for _, _, m in sorted(ev):
        if not t.endswith(m):
            t += m
    return t


def record(F, want, dlen):
    """stores of quadrant fields into the record: {byte offset: field}, by the base pointer with most of them"""
    f, S = F.f, F.S
    by = {}
    for i in f.instrs():
        if i.op == "store":
            a = single(S.poly(i.ops[0]))
            if a in want:
                b, off = S.ptr(i.ops[1])
                if cst(off) is not None:
                    by.setdefault(b, {})[cst(off)] = (a, i)
    if not by:
        return None, {}
    b = max(by, key=lambda k: len(by[k]))
    return b, by[b]


def forest(c, p, d, config):
    dim = 3 if d == "p8est" else 2
    q = 4 * (dim + 1)
    W = Fmt(p, d + "_save_ext")
    hw = header_writer(W)
    if not c.obligation(hw is not None, d + ":header", "%s_save_ext writes a header of 64 bit words" % d):
        return
    wi, wb, WL, H, A = hw
    H = {k: v[0] for k, v in H.items()}
    fixed = min(k for k, (v, st) in H.items() if single(v) and single(v).startswith("global_first_quadrant")) if any(
        single(v) and single(v).startswith("global_first_quadrant") for v, _ in H.values()) else len(H)
    const_words = {k: v for k, v in H.items() if k < fixed}
    c.floor("header_words_%s_%s" % (d, config), len(const_words), 6)
    # meaning of variable words
    dsz = [k for k, (v, _) in const_words.items() if single(v) == "~data_size"]
    npr = [k for k, (v, _) in const_words.items() if single(v) == "~mpisize"]
    c.obligation(len(dsz) == 1 and len(npr) == 1, d + ":words", "%s_save_ext records the data size (word %s) and process count (word %s)" % (d, dsz, npr))
    if len(dsz) != 1 or len(npr) != 1:
        return
    al = mods(W)
    c.obligation(len(al) == 1, d + ":align", "%s aligns file sections to %s" % (W.name, {k: v.where() for k, v in al.items()}), sample=True)
    for k, (v, st) in const_words.items():
        if k in dsz + npr or cst(v) is not None:
            continue
        r = roots(W, st.ops[0])
        c.obligation(r <= {"save_data", "data_size"} and bool(r), "%s:word%d" % (d, k), "%s: header word %d tells whether data is saved; it is computed from %s" % (st.where(), k, sorted(r)))
    # layout of the header: process counts then per-tree counts, both 8 byte words from index 'fixed'
    want = {"gfq": const(8 * fixed), "pertree": add(const(8 * fixed), {("~mpisize",): 8})}
    seen = set()
    for off, v, st in A:
        ld = loadof(W.f, st.ops[0])
        if ld is None:
            c.obligation(False, d + ":hdr-array:" + show(v), "%s: header entry at byte %s holds %s" % (st.where(), show(off), show(v)))
            continue
        kind = "gfq" if any(x.endswith("global_first_quadrant") for x in W.S.addr(ld.ops[0])[2]) else "pertree"
        seen.add(kind)
        if off is None:
            continue
        got = add(off, W.S.ptr(ld.ops[0])[1], -1)
        w = add(want[kind], const(8), -1)
        c.obligation(got == w, d + ":hdr-" + kind, "%s: entry k of %s is written to byte 8*k + %s of the header, expected 8*k + %s" % (st.where(), kind, show(got), show(w)))
    c.obligation(seen == {"gfq", "pertree"}, d + ":hdr-kinds", "%s_save_ext writes partition and per-tree counts into the header (%s)" % (d, seen))
    wl = add(want["pertree"], {("num_trees",): 8})
    c.obligation(WL == wl, d + ":hdr-length", "%s: header written has %s bytes, expected %s" % (wi.where(), show(WL), show(wl)), sample=True)
    # records
    DS = {("~data_size",): 1}
    rec = add(const(q), DS)
    want = ["x", "y"] + (["z"] if dim == 3 else []) + ["level"]
    wbase, got = record(W, want, None)
    c.obligation({k: v[0] for k, v in got.items()} == {4 * k: n for k, n in enumerate(want)}, d + ":record",
                 "%s stores the record fields %s" % (W.name, {k: (v[0], v[1].where()) for k, v in sorted(got.items())}), sample=True)
    dcp = [i for i in calls(W.f, MEMCPY) if W.S.addr(i.ops[1])[2] and any("user_data" in x or x.endswith(".p") or x == "*" for x in W.S.addr(i.ops[1])[2])]
    dcp = [i for i in dcp if W.S.ptr(i.ops[0])[0] == wbase]
    c.obligation(len(dcp) == 1 and W.S.ptr(dcp[0].ops[0])[1] == const(q) and W.S.poly(dcp[0].ops[2]) == DS, d + ":record-data",
                 "%s copies %s bytes of user data to byte %s of the record" % (dcp[0].where() if dcp else W.name, show(W.S.poly(dcp[0].ops[2])) if dcp else "no", show(W.S.ptr(dcp[0].ops[0])[1]) if dcp else "-"))
    outs = [i for i in calls(W.f, ("sc_mpi_write", "sc_fwrite", "sc_io_sink_write")) if "elem_count" in show(lenof(W, i)) and i is not wi]
    c.obligation(len(outs) >= 1, d + ":record-write", "%s writes its quadrant records" % W.name)
    for i in outs:
        c.obligation(lenof(W, i) == mul({("elem_count",): 1}, rec), d + ":record-length", "%s writes %s bytes for elem_count quadrants" % (i.where(), show(lenof(W, i))))
    sq = sequence(W, lambda i: "C" if (i.callee() or "").endswith("_connectivity_sink") else "H" if i is wi else "R" if i in outs else None)
    c.obligation(sq == "CAHAR", d + ":sequence", "%s writes the sections (C connectivity, H header, R records) and alignments (A) in the order %s" % (W.name, sq), sample=True)
    sk = [i for i in calls(W.f, ("MPI_File_seek", "fseek"))]
    for i in sk:
        pl = W.S.poly(i.ops[1])
        if not pl:
            continue
        rest = add(pl, mul({("global_first_quadrant[mpirank]",): 1}, rec), -1)
        c.obligation(single(rest) in ("mpipos", "phi:fpos", "fpos") or len(rest) == 1 and "global" not in show(rest), d + ":record-seek", "%s seeks to %s" % (i.where(), show(pl)), sample=True)
    strides(c, d, W, wbase, [rec], "record pointer")
    # readers
    for rn in ("_source_ext", "_load_mpi", "_load_ext"):
        f = p.ext.get(d + rn) or next((g for g in p.functions() if g.name == d + rn), None)
        if f is None:
            continue
        R = Fmt.__new__(Fmt)
        R.f, R.S, R.name = f, sym.Sym(f), d + rn
        R.S.flat = True
        canonical(R.S)
        if rn == "_load_ext" and not calls(f, ("sc_io_source_read",)):
            continue
        reader(c, p, d, R, q, dim, const_words, WL, rec, dsz[0], npr[0], al)


def lenof(F, i):
    k = {"sc_mpi_write": (2,), "sc_mpi_read": (2,), "sc_io_sink_write": (2,), "sc_io_source_read": (2,), "sc_fwrite": (1, 2), "sc_fread": (1, 2)}[i.callee()]
    r = const(1)
    for x in k:
        r = mul(r, F.S.poly(i.ops[x]))
    return r


def strides(c, d, F, base, want, what, must=True):
    """the loop increment(s) of a moving pointer"""
    f = F.f
    ph = f.val.get(base) if isinstance(base, int) else None
    if ph is None or ph.op != "phi":
        if must:
            c.obligation(False, "%s:%s:stride:%s" % (d, F.name, what), "%s: %s does not advance from quadrant to quadrant" % (F.name, what))
        return
    inc = []
    for v, _ in ph.x["inc"]:
        b, off = F.S.ptr(v)
        if b == base and off:
            inc.append(off)
    if not inc and not must:
        return
    c.obligation(bool(inc) and all(x in want for x in inc), "%s:%s:stride:%s" % (d, F.name, what), "%s: %s advances by %s bytes per quadrant" % (F.name, what, [show(x) for x in inc]))


def reader(c, p, d, R, q, dim, H, WL, rec, kd, kn, al):
    f, S = R.f, R.S
    n = R.name
    rd = calls(f, ("sc_io_source_read",))
    hd = [i for i in rd if not isnull(i.ops[1]) and cst(S.poly(i.ops[2])) == 8 * len(H)]
    if not c.obligation(len(hd) >= 1, n + ":header", "%s reads the %d header words" % (n, len(H))):
        return
    hd = hd[0]
    rb = R.base(hd.ops[1])[0]
    L = loads_of(R, rb)
    for k in sorted(H):
        v, st = H[k]
        if cst(v) is not None:
            got = [x for l in L.get(k, []) for x in compared(R, l)]
            c.obligation(any(x == v for x in got), "%s:word%d" % (n, k), "header word %d: written as %s (%s), %s compares it with %s" % (k, show(v), st.where(), n, [show(x) for x in got]), sample=True)
        else:
            c.obligation(k in L, "%s:word%d" % (n, k), "header word %d (%s) is read by %s" % (k, show(v), n))
    got = [single(x) for l in L.get(kd, []) for x in compared(R, l)]
    c.obligation("data_size" in got, n + ":data-size", "%s compares the saved data size (word %d) with the expected one (%s)" % (n, kd, got))
    ma = mods(R)
    c.obligation(set(ma) == set(al), n + ":align", "%s aligns sections to %s, the writer to %s" % (n, sorted(ma), sorted(al)))
    M = {"~[%d]" % kd: {("~data_size",): 1}, "~[%d]" % kn: {("~mpisize",): 1}}
    got = [single(x) for l in L.get(kn, []) for x in compared(R, l)]
    nproc = [x for x in got if x]
    for x in nproc:
        M[x] = {("~mpisize",): 1}         # enforced equal to the recorded count, or aborts unless it repartitions
    M2 = dict(M)
    # sum of bytes read between the fixed header and the end of the per-tree counts
    pt = [i for i in rd if S.poly(i.ops[2]) == {("num_trees",): 8}]
    c.obligation(len(pt) == 1, n + ":pertree", "%s reads 8*num_trees bytes of per-tree counts" % n)
    if len(pt) == 1:
        sums = pathsums(R, ("sc_io_source_read",), 2, hd, pt[0])
        want = add(WL, const(8 * len(H)), -1)
        ok = {}
        for t, s in (sums or {}).items():
            ok[t] = subst(s, M) == want or (cst(add(s, pt and S.poly(pt[0].ops[2]), -1)) == 0 and len(sums) > 1 and False)
        c.obligation(bool(sums) and all(ok.values()), n + ":header-bytes", "%s reads %s bytes between the fixed header words and the end of the per-tree counts, the writer puts %s there" % (n, sorted(ok), show(want)), sample=True)
        o = order(f)
        k = 0
        for i in rd:
            if isnull(i.ops[1]) and o.get(hd.bb, 0) < o.get(i.bb, 0) < o.get(pt[0].bb, 0):
                k += 1
                pl = S.poly(i.ops[2])
                own = [x for x in nproc if any(x in mo for mo in pl)]
                c.obligation(not own, "%s:skip:%d" % (n, k), "%s: the number of header bytes passed over is %s; it depends on the present number of processes, not on the recorded one" % (i.where(), show(pl)))
    # destination of the two arrays
    narr = 0
    for i in f.instrs():
        if i.op == "store" and i.bb not in f.abortset:
            ld = loadof(f, i.ops[0])
            if ld is None or cst(S.ptr(ld.ops[0])[1]) is not None or S.addr(ld.ops[0])[2]:
                continue
            got = add(S.ptr(i.ops[1])[1], S.ptr(ld.ops[0])[1], -1)
            narr += 1
            c.obligation(got == const(8), n + ":array:%d" % narr, "%s: saved entry k is stored at byte 8*k + %s (an offset array, first entry zero)" % (i.where(), show(got)))
    c.obligation(narr == 2, n + ":arrays", "%s recovers the partition and the per-tree counts (%d arrays)" % (n, narr))
    # offsets: any seek or skip beyond the header
    P = None
    k = 0
    for i in calls(f, ("sc_io_source_read", "MPI_File_seek")):
        pl = S.poly(i.ops[2] if i.callee() == "sc_io_source_read" else i.ops[1])
        t = show(pl)
        if i.callee() == "sc_io_source_read" and not isnull(i.ops[1]):
            continue
        if "~{" in t or "[rank]" in t and "urem" in t or "file_offset" in t:
            k += 1
            offs = dict(pl)
            # the gfq[rank] part
            m = {}
            gterm = {mo: cf for mo, cf in offs.items() if "[rank]" in mo}
            rest = {mo: cf for mo, cf in offs.items() if "[rank]" not in mo}
            g = {}
            for mo, cf in gterm.items():
                l = list(mo)
                l.remove("[rank]")
                g[tuple(l)] = cf
            c.obligation(subst(g, M) == rec, n + ":seek-record", "%s: seeks over %s bytes per preceding quadrant, the record has %s" % (i.where(), show(g), show(rec)), sample=True)
            hl = add(S2poly(WL, kd, kn), {})
            pads = [mo for mo in rest if any("urem" in a for a in mo)]
            padok = len(pads) == 1 and rest[pads[0]] == 1 and pads[0][0] == padtext(hl, sorted(al)[0])
            c.obligation(padok, n + ":seek-pad", "%s: padding after the header is %s, expected %s" % (i.where(), pads, padtext(hl, sorted(al)[0])))
            r2 = {mo: cf for mo, cf in rest.items() if mo not in pads}
            # the header end: either directly or wrapped as one possible value
            txt = show(r2)
            mm = re.match(r"^~\{(.*)\}$", txt)
            inner = mm.group(1) if mm else txt
            wanted = add(hl, {("B",): 1})
            parts = [x for x in inner.split(" + ")]
            hp = show(hl).split(" + ")
            left = [x for x in parts if x not in hp]
            c.obligation(sorted(x for x in parts if x in hp) == sorted(hp) and len(left) == 1 and "*" not in left[0], n + ":seek-header",
                         "%s: offset of the quadrants is %s, the header has %s bytes after the connectivity" % (i.where(), inner, show(hl)))
            if i.callee() == "MPI_File_seek":
                pass
        elif i.callee() == "sc_io_source_read" and "num_procs" in t and "rank" in t:
            k += 1
            w = add(mul({("[num_procs]",): 1}, rec), mul({("[1 + rank]",): 1}, rec), -1)
            c.obligation(subst(pl, {"~[%d]" % kd: {("~data_size",): 1}}) == w, n + ":seek-tail", "%s: skips %s bytes to the end of the data, expected %s" % (i.where(), t, show(w)))
    c.obligation(k >= 1, n + ":seeks", "%s positions each process at its first quadrant (%d computed offsets)" % (n, k))
    # record reads and copies
    reads = [i for i in calls(f, ("sc_io_source_read", "sc_mpi_read"))]
    o = order(f)
    seekpos = max((o.get(i.bb, 0) for i in pt), default=0)
    body = []
    for i in reads:
        if o.get(i.bb, 0) <= seekpos or i.callee() == "sc_io_source_read" and "num_procs" in show(lenof(R, i)) or "urem" in show(lenof(R, i)):
            continue
        body.append(i)
    sq = sequence(R, lambda i: "C" if (i.callee() or "").endswith("_connectivity_source") else "R" if i in body else
                  "H" if i.callee() == "sc_io_source_read" and not isnull(i.ops[1]) else None)
    c.obligation(sq == "CAHAR", n + ":sequence", "sections (C connectivity, H header, R records) and alignments (A): written CAHAR, %s reads %s" % (n, sq), sample=True)
    bases = {}
    DS = {("~data_size",): 1}
    N = zcount(body, R)
    for i in body:
        ln = subst(lenof(R, i), M)
        okl = [const(q), rec, DS] + [mul(z, x) for z in N for x in (const(q), rec)]
        c.obligation(ln in okl, n + ":read:%s" % show(ln), "%s reads %s bytes; a record has %s" % (i.where(), show(ln), show(rec)))
    c.obligation(len(body) >= 2, n + ":reads", "%s reads quadrant records (%d sites)" % (n, len(body)))
    for i in calls(f, MEMCPY):
        ln = S.poly(i.ops[2])
        b, off = S.ptr(i.ops[1])
        db, doff = S.ptr(i.ops[0])
        if ln == const(q):
            c.obligation(off == {} and doff == {}, n + ":copy-coords", "%s copies the coordinates from byte %s of the record" % (i.where(), show(off)))
            strides(c, d, R, db, [const(q)], "coordinate pointer")
            strides(c, d, R, b, [rec, add(const(q), {("~[%d]" % kd,): 1}), add(const(q), {("data_size",): 1})], "record pointer", must=False)
        elif single(ln) == "data_size" or subst(ln, M) == DS:
            c.obligation(off == const(q) and doff == {}, n + ":copy-data", "%s copies user data from byte %s of the record" % (i.where(), show(off)))
            strides(c, d, R, db, [{("data_size",): 1}, {("~[%d]" % kd,): 1}], "data pointer")
        else:
            c.obligation(False, n + ":copy", "%s copies %s bytes out of a record" % (i.where(), show(ln)))


def zcount(body, R):
    """the local quadrant count as the functions express it"""
    return [{("[1 + rank]",): 1, ("[rank]",): -1}]


def S2poly(WL, kd, kn):
    return subst(WL, {"~mpisize": {("~[%d]" % kn,): 1}, "~data_size": {("~[%d]" % kd,): 1}})


def padtext(hl, a):
    return "(%d + -1*(%s urem %d) urem %d)" % (a, show(hl), a, a)


def flate(c, p, d):
    """deflate writes coordinates in the order in which inflate reads them"""
    dim = 3 if d == "p8est" else 2
    want = ["x", "y"] + (["z"] if dim == 3 else []) + ["level"]
    D = Fmt(p, d + "_deflate_quadrants")
    b, got = record(D, want, None)
    c.obligation({k: v[0] for k, v in got.items()} == {4 * k: n for k, n in enumerate(want)}, d + ":deflate", "%s stores %s" % (D.name, {k: (v[0], v[1].where()) for k, v in sorted(got.items())}), sample=True)
    strides(c, d, D, b, [const(4 * (dim + 1))], "coordinate pointer")
    best = None
    for g in p.ext[d + "_inflate"].unit.fns.values():
        if not g.decl and (g.name == d + "_inflate" or g.internal):
            F = Fmt.__new__(Fmt)
            F.f, F.S, F.name = g, sym.Sym(g), g.name
            F.S.flat = True
            b, got = fieldloads(F, want, d + "_quadrant.")
            if best is None or len(got) > len(best[2]):
                best = (F, b, got)
    F, b, got = best
    c.obligation({k: v[0] for k, v in got.items()} == {4 * k: n for k, n in enumerate(want)}, d + ":inflate", "%s loads %s" % (F.name, {k: (v[0], v[1].where()) for k, v in sorted(got.items())}), sample=True)
    strides(c, d, F, b[0] if b else None, [const(4 * (dim + 1))], "coordinate pointer")


def columns(c, W, R):
    """the range of each column goes through the payload of the saved column forest"""
    def pay(F, ptr):
        rt, t, fl = F.S.addr(ptr)
        return t if len(fl) >= 2 and fl[-1] == "*" and fl[-2].endswith("quadrant.p") else None
    M = {}
    for i in W.f.instrs():
        if i.op == "store" and pay(W, i.ops[1]):
            M[pay(W, i.ops[1])] = W.S.poly(i.ops[0])
    used = {pay(R, i.ops[0]) for i in R.f.instrs() if i.op == "load" and pay(R, i.ops[0])}
    k = 0
    for i in R.f.instrs():
        if i.op != "store":
            continue
        pl = R.S.poly(i.ops[0])
        if not R.S.addr(i.ops[1])[2] or not any(a in used for mo in pl for a in mo):
            continue
        fld = R.S.addr(i.ops[1])[1]
        k += 1
        got = subst(pl, M)
        c.obligation(single(got) == fld, "p6est:column-range:%d" % k, "%s: %s of the loaded column becomes %s, in terms of the saved column %s" % (i.where(), fld, show(pl), show(got)))
    c.obligation(k >= 1 and used <= set(M), "p6est:column-ranges", "p6est_load_ext takes the column ranges from %s, p6est_save_ext provides %s" % (sorted(used), sorted(M)))


def p6est(c, p, config):
    W, R = Fmt(p, "p6est_save_ext"), Fmt(p, "p6est_load_ext")
    a, b = mods(W), mods(R)
    c.obligation(set(a) == set(b) and len(a) == 1, "p6est:align", "p6est_save_ext aligns to %s, p6est_load_ext to %s" % (sorted(a), sorted(b)))
    sw = sequence(W, lambda i: "C" if i.callee() == "p4est_save_ext" else "X" if i.callee() == "p6est_connectivity_extra_sink" else
                  "D" if i.callee() == "sc_fwrite" and cst(lenof(W, i)) == 8 else "R" if i.callee() in ("sc_mpi_write", "sc_fwrite") else None)
    sr = sequence(R, lambda i: "C" if i.callee() in ("p4est_source_ext", "p4est_load_mpi") else "X" if i.callee() == "p6est_connectivity_extra_source" else
                  None if i.callee() not in ("sc_io_source_read", "sc_mpi_read") else "D" if cst(lenof(R, i)) == 8 else None if "urem" in show(lenof(R, i)) or "srem" in show(lenof(R, i)) else "R")
    c.obligation(sw == sr and len(sw) >= 6, "p6est:sequence", "sections and alignments of a p6est file: written %s, read %s" % (sw, sr), sample=True)
    columns(c, W, R)
    want = ["z", "level"]
    wb, got = record(W, want, None)
    c.obligation({k: v[0] for k, v in got.items()} == {0: "z", 4: "level"}, "p6est:record", "p6est_save_ext stores %s" % {k: (v[0], v[1].where()) for k, v in got.items()}, sample=True)
    DS = {("~data_size",): 1}
    rec = add(const(8), DS)
    cp = [i for i in calls(W.f, MEMCPY) if W.S.ptr(i.ops[0])[0] == wb]
    c.obligation(len(cp) == 1 and W.S.ptr(cp[0].ops[0])[1] == const(8) and W.S.poly(cp[0].ops[2]) == DS, "p6est:record-data", "p6est_save_ext copies user data behind the coordinates")
    strides(c, "p6est", W, wb, [rec], "record pointer")
    for i in calls(W.f, ("sc_mpi_write",)):
        c.obligation(lenof(W, i) == mul({("elem_count",): 1}, rec), "p6est:length", "%s writes %s bytes" % (i.where(), show(lenof(W, i))))
    for i in calls(W.f, ("MPI_File_seek",)):
        rest = add(W.S.poly(i.ops[1]), mul({("global_first_layer[mpirank]",): 1}, rec), -1)
        c.obligation(len(rest) == 1 and "global" not in show(rest), "p6est:seek", "%s seeks to %s" % (i.where(), show(W.S.poly(i.ops[1]))))
    # reader
    f, S = R.f, R.S
    rb, got = fieldloads(R, want, "p2est_quadrant.")
    c.obligation({k: v[0] for k, v in got.items()} == {0: "z", 4: "level"}, "p6est:load-record", "p6est_load_ext loads %s" % {k: (v[0], v[1].where()) for k, v in got.items()}, sample=True)
    cp = [split(*S.ptr(i.ops[1])) for i in calls(f, MEMCPY)]
    cp = [k for b, k in cp if b == rb]
    c.obligation(cp == [8], "p6est:load-data", "p6est_load_ext copies user data from byte %s of the record" % cp)
    u = [i for i in calls(f, ("sc_io_source_read",))]
    small = [i for i in u if cst(S.poly(i.ops[2])) == 8]
    c.obligation(len(small) == 1, "p6est:data-size", "p6est_load_ext reads the 8 byte data size once (%d)" % len(small))
    if small:
        buf = S.ptr(small[0].ops[1])[0]
        lds = [i for i in f.instrs() if i.op == "load" and S.ptr(i.ops[0])[0] == buf]
        got = [single(x) for l in lds for x in compared(R, l)]
        c.obligation("data_size" in got, "p6est:data-size-check", "p6est_load_ext compares the saved data size with the expected one (%s)" % got)
        a = single(S.poly(lds[0].id)) if lds else None
        M = {a: {("~data_size",): 1}} if a else {}
        k = 0
        for i in u:
            pl = S.poly(i.ops[2])
            if a and a in show(pl):
                k += 1
                q = subst(pl, M)
                ok = False
                for z in {x for mo in q for x in mo} - {"~data_size"}:
                    ok = ok or q == mul({(z,): 1}, rec)
                c.obligation(ok, "p6est:load-bytes:%d" % k, "%s moves %s bytes, records have %s" % (i.where(), show(pl), show(rec)))
        c.obligation(k == 2, "p6est:load-moves", "p6est_load_ext skips the preceding layers and reads its own (%d)" % k)
    # extra connectivity data: same lengths
    A, B = Fmt(p, "p6est_connectivity_extra_sink"), Fmt(p, "p6est_connectivity_extra_source")
    def shape(x):
        """the count of saved entries has a name of its own on each side"""
        return show({("n",) * len(m): k for m, k in x.items()})
    wt = sorted({shape(x) for i in calls(A.f, ("sc_io_sink_write",)) for x in alts(A, i.ops[2])})
    rt = sorted({shape(x) for i in calls(B.f, ("sc_io_source_read",)) for x in alts(B, i.ops[2])})
    c.obligation(wt == rt, "p6est:extra", "p6est_connectivity_extra_sink writes %s, _source reads %s bytes" % (wt, rt), sample=True)


def run():
    c = harness.Check("C14", "Format agreement of writers and readers by symbolic byte counts: the sequence of (field, length, guard) items, header words, section "
                      "alignment, record layout, record strides and file offsets are polynomials in the recorded quantities and must coincide between "
                      "each writer and each reader of the same file format; constants the writer records must be compared by the reader with a rejecting branch.")
    for config in ("release", "debug"):
        p = ir.Prog(config, inline=400)
        for d in ("p4est", "p8est"):
            connectivity(c, p, d, config)
            forest(c, p, d, config)
            flate(c, p, d)
        p6est(c, p, config)
    return c.finish()


harness.main(run)
