"""Byte-precise access summaries relative to pointer parameters."""
import ir, ext
from ir import cval


class Offs:
    """values: id -> set of (root, off) ; root = param index or ('L', param, off); off int or None"""
    def __init__(s, prog):
        s.prog = prog
        s.cache = {}
        s.acc = {}

    def values(s, f):
        if f.key in s.cache:
            return s.cache[f.key]
        val = {k: {(k, 0)} for k in range(f.nargs) if f.params[k]["t"] is not None and f.unit.types[f.params[k]["t"]] == "ptr"}
        order = f._rpo([0], f.succs)
        ch = True
        rounds = 0
        while ch and rounds < 6:
            ch = False
            rounds += 1
            for b in order:
                for i in f.blocks[b]:
                    new = set()
                    if i.op == "getelementptr":
                        for r, o in s.v(val, i.ops[0]):
                            new.add((r, s.gep(f, i.x["gep"], o)))
                    elif i.op in ("bitcast", "addrspacecast", "freeze"):
                        new = set(s.v(val, i.ops[0]))
                    elif i.op == "phi" and i.t == "ptr":
                        for v, _ in i.x["inc"]:
                            new |= s.v(val, v)
                    elif i.op == "select" and i.t == "ptr":
                        new = s.v(val, i.ops[1]) | s.v(val, i.ops[2])
                    elif i.op == "load" and i.t == "ptr":
                        for r, o in s.v(val, i.ops[0]):
                            if isinstance(r, int):
                                new.add((("L", r, o), 0))
                    else:
                        continue
                    if len(new) > 12:
                        new = {(r, None) for r, o in new}
                    old = val.get(i.id, set())
                    if new - old:
                        val[i.id] = old | new
                        ch = True
        s.cache[f.key] = val
        return val

    def v(s, val, o):
        return val.get(o, set()) if isinstance(o, int) else set()

    def gep(s, f, gep, o):
        if o is None:
            return None
        for st in gep["steps"]:
            if "s" in st:
                so = f.unit.structs.get(st["s"])
                if not so or "elems" not in so:
                    return None
                o += so["elems"][st["e"]]["off"]
            else:
                c = cval(st["i"])
                if c is None:
                    return None
                o += c * st["sz"]
        return o

    def size(s, f, t):
        if t.startswith("i") and t[1:].isdigit():
            return max(1, int(t[1:]) // 8)
        return {"ptr": 8, "double": 8, "float": 4}.get(t, None)

    def accesses(s, key, stack=()):
        """list of (instr, kind, root, off, size, callee) for param-rooted memory"""
        if key in s.acc:
            return s.acc[key]
        if key in stack:
            return []
        f = s.prog.fn[key]
        val = s.values(f)
        out = []
        for i in f.instrs():
            if i.bb in f.abortset:
                continue
            if i.op == "load":
                for r, o in s.v(val, i.ops[0]):
                    out.append((i, "R", r, o, s.size(f, i.t), None))
            elif i.op == "store":
                vt = 8
                v = i.ops[0]
                if isinstance(v, int):
                    ins = f.val.get(v)
                    t = ins.t if ins is not None else f.unit.types[f.params[v]["t"]]
                    vt = s.size(f, t)
                elif v.get("w"):
                    vt = max(1, v["w"] // 8)
                for r, o in s.v(val, i.ops[1]):
                    out.append((i, "W", r, o, vt, None))
            elif i.op == "call":
                n = i.callee()
                if n in ext.COPY or n in ext.SETM:
                    sz = cval(i.ops[2])
                    d = 0
                    for r, o in s.v(val, i.ops[0]):
                        out.append((i, "W", r, o, sz, n))
                    if n in ext.COPY:
                        for r, o in s.v(val, i.ops[1]):
                            out.append((i, "R", r, o, sz, n))
                    continue
                t = s.prog.resolve(f.unit, n) if n else None
                if t is None:
                    ws = {k for k, _ in ext.W.get(n, ())} if n in ext.W else set(range(len(i.ops)))
                    if n and n.startswith("llvm."):
                        continue
                    for k, a in enumerate(i.ops):
                        for r, o in s.v(val, a):
                            out.append((i, "R", r, None, None, n))
                            if k in ws:
                                out.append((i, "W", r, None, None, n))
                    continue
                for (ci, kind, cr, co, csz, _) in s.accesses(t.key, stack + (key,)):
                    if isinstance(cr, int):
                        if cr < len(i.ops):
                            for r, o in s.v(val, i.ops[cr]):
                                out.append((i, kind, r, None if o is None or co is None else o + co, csz, t.key))
                    else:
                        # memory behind a pointer loaded from the parameter
                        if cr[1] < len(i.ops):
                            for r, o in s.v(val, i.ops[cr[1]]):
                                if isinstance(r, int):
                                    lo = None if o is None or cr[2] is None else o + cr[2]
                                    out.append((i, kind, ("L", r, lo), co, csz, t.key))
        # dedupe
        seen = set()
        res = []
        for x in out:
            k = (x[0].id, x[1], x[2], x[3], x[4])
            if k not in seen:
                seen.add(k)
                res.append(x)
        s.acc[key] = res
        return res


def overlap(o1, s1, o2, s2):
    if o1 is None or o2 is None:
        return True
    s1 = s1 or 1 << 20
    s2 = s2 or 1 << 20
    return o1 < o2 + s2 and o2 < o1 + s1


def rootmatch(r, spec):
    if isinstance(spec, int) or isinstance(r, int):
        return r == spec
    return r[0] == spec[0] and r[1] == spec[1] and (r[2] is None or r[2] == spec[2])


def alias_safe(offs, key, rin, rout, stack=()):
    """(ok, list of problems, number of ordered pairs examined): no path writes a byte through rout and later reads that
    byte through rin.  rin/rout: param index or ('L', param, off)"""
    prog = offs.prog
    if (key, rin, rout) in stack:
        return [], 0
    f = prog.fn[key]
    acc = offs.accesses(key)
    W = [a for a in acc if a[1] == "W" and rootmatch(a[2], rout)]
    R = [a for a in acc if a[1] == "R" and rootmatch(a[2], rin)]
    prob = []
    pairs = 0
    for w in W:
        after = None
        for r in R:
            if not overlap(w[3], w[4], r[3], r[4]):
                continue
            pairs += 1
            wi, ri = w[0], r[0]
            if wi is ri:
                # one call both reads in and writes out: the callee has to be safe itself
                if w[5] in prog.fn:
                    sub = callee_roots(offs, f, wi, w[5], rin, rout)
                    for a, b in sub:
                        if a == b:
                            continue
                        p2, n2 = alias_safe(offs, w[5], a, b, stack + ((key, rin, rout),))
                        pairs += n2
                        prob += p2
                elif w[5] in ("llvm.memmove.p0.p0.i64", "llvm.memcpy.p0.p0.i64", "memmove", "memcpy"):
                    pass        # copy of an object onto itself
                continue
            if after is None:
                after = {x.id for x in f.reach_from(wi)}
            if ri.id in after:
                prob.append("%s: %s (%s) stores through the output and %s (%s) reads the same bytes of the input afterwards"
                            % (f.name, wi.where(), w[5] or "store", ri.where(), r[5] or "load"))
    return prob, pairs


def callee_roots(offs, f, call, ckey, rin, rout):
    """pairs of callee roots corresponding to (rin, rout) at this call"""
    val = offs.values(f)
    res = []

    def match(spec):
        out = []
        for k, a in enumerate(call.ops):
            for r, o in offs.v(val, a):
                if rootmatch(r, spec):
                    out.append(k)
                if not isinstance(spec, int) and r == spec[1]:
                    out.append(("L", k, spec[2]))
        return out
    for a in match(rin):
        for b in match(rout):
            res.append((a, b))
    return res
