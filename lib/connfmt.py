"""How each connectivity operation moves each field: (field, bytes, guard)."""
import ir, sym
from sym import add, mul, const, show, cst

NUMS = ("num_vertices", "num_trees", "num_edges", "num_ett", "num_corners", "num_ctt", "tree_attr_bytes")


def fields(p, d):
    so = p.structinfo(d + "_connectivity")
    scal, ptr = [], []
    for m in so["members"]:
        t = m.get("t", "")
        (ptr if "*" in str(t) else scal).append(m["n"])
    return scal, ptr


def renames(p, f, d):
    """names of the quantities in function f in terms of the connectivity counts"""
    S = sym.Sym(f)
    r = {"ett_offset[num_edges]": "num_ett", "ctt_offset[num_corners]": "num_ctt"}
    new = p.ext.get(d + "_connectivity_new")
    for i in f.instrs():
        if i.op == "call" and i.callee() == d + "_connectivity_new" and new is not None:
            for k, o in enumerate(i.ops):
                q = S.poly(o)
                if len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1:
                    n = new.params[k]["name"]
                    if n in NUMS:
                        r[list(q)[0][0]] = n
        if i.op == "call" and i.callee() == d + "_connectivity_set_attr":
            q = S.poly(i.ops[1])
            if len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1:
                r[list(q)[0][0]] = "tree_attr_bytes"
    # members of a local record filled from the connectivity
    for i in f.instrs():
        if i.op == "store":
            rt, t, fl = S.addr(i.ops[1])
            if rt[0] == "A" and t.startswith("#"):
                q = S.poly(i.ops[0])
                if len(q) == 1 and list(q.values()) == [1] and len(list(q)[0]) == 1:
                    n = list(q)[0][0]
                    r.setdefault(t, r.get(n, n))
    return r


def symfor(p, f, d):
    r = renames(p, f, d)
    # parameters named *_offset arrays given separately: X[num_edges] -> num_ett
    class R(dict):
        def get(s, n, dflt=None):
            seen = 0
            while dict.__contains__(s, n) and seen < 5:
                m = dict.__getitem__(s, n)
                if m == n:
                    break
                n = m
                seen += 1
            if n == "[num_edges]":
                return "num_ett"
            if n == "[num_corners]":
                return "num_ctt"
            return n
    return sym.Sym(f, R(r))


def field_of(S, o, d, ptrs):
    """connectivity pointer field whose array (not the field itself) o points to"""
    rt, t, fl = S.addr(o)
    st = d + "_connectivity."
    fs = [x for x in fl if x.startswith(st)]
    if fs and fl and fl[-1] == "*" and fs[-1][len(st):] in ptrs and len(fl) >= 2:
        base = t.split("[")[0]
        if fl[-2].startswith(st):
            return fl[-2][len(st):], rt, t
    return None


def guards(f, S, i):
    """conditions 'count > 0' on whose true side instruction i lies"""
    out = set()
    for b in f.tcdeps.get(i.bb, ()):
        t = f.blocks[b][-1]
        c = t.x.get("cond")
        if c is None:
            continue
        tx = S.cond(c)
        tx = tx.replace("tree_to_attr", "tree_attr_bytes")
        w = tx.split(" ")
        neg = False
        if len(w) == 3 and w[2] == "0" and w[0] in NUMS and w[1] in ("sgt", "eq", "sle"):
            neg = w[1] != "sgt"
        else:
            continue
        su = f.succs(b)
        side = [k for k in (0, 1) if reaches(f, su[k], i.bb, b)]
        if len(side) != 1:
            continue
        pos = (side[0] == 0) != neg
        out.add(w[0] + (">0" if pos else "==0"))
    return frozenset(out)


def reaches(f, a, b, avoid):
    seen = {avoid}
    st = [a]
    while st:
        x = st.pop()
        if x == b:
            return True
        if x in seen:
            continue
        seen.add(x)
        st.extend(f.lsuccs(x))
    return False


def order(f):
    o = f._rpo([0], f.succs)
    return {b: k for k, b in enumerate(o)}


def extents(p, d):
    """field -> (bytes, guard) as allocated"""
    scal, ptrs = fields(p, d)
    E = {}
    for fn in ("_connectivity_new", "_connectivity_set_attr"):
        f = p.ext[d + fn]
        S = symfor(p, f, d)
        if fn.endswith("attr"):
            S.rename["bytes_per_tree"] = "tree_attr_bytes"
        for i in f.instrs():
            if i.op == "store":
                rt, t, fl = S.addr(i.ops[1])
                if fl and fl[-1].startswith(d + "_connectivity.") and t in ptrs:
                    for m in mallocs(f, i.ops[0]):
                        E[t] = (S.poly(m.ops[1]) if m.callee() != "sc_calloc" else mul(S.poly(m.ops[1]), S.poly(m.ops[2])), guards(f, S, i), i)
    return E


def mallocs(f, o, depth=0):
    d = f.val.get(o) if isinstance(o, int) else None
    if d is None or depth > 4:
        return []
    if d.op == "call" and d.callee() in ("sc_malloc", "sc_calloc"):
        return [d]
    if d.op == "phi":
        return [x for v, _ in d.x["inc"] for x in mallocs(f, v, depth + 1)]
    return []


def stream(p, d, fn, cal, bi, li, scale=None):
    """sequence of (what, bytes poly, guards, instr) of the calls of cal in control-flow order"""
    f = p.ext[d + fn]
    S = symfor(p, f, d)
    scal, ptrs = fields(p, d)
    o = order(f)
    out = []
    for i in sorted((i for i in f.instrs() if i.op == "call" and i.callee() in cal and i.bb not in f.abortset), key=lambda i: (o.get(i.bb, 0), i.idx)):
        by = S.poly(i.ops[li])
        if scale is not None:
            dt = i.ops[scale]
            nm = dt.get("n") if isinstance(dt, dict) else None
            by = mul(by, const(sym.DTSIZE.get(nm, 0)))
        fo = field_of(S, i.ops[bi], d, ptrs)
        what = fo[0] if fo else "local:" + S.addr(i.ops[bi])[1].split("[")[0]
        out.append((what, by, guards(f, S, i), i, fo))
    return f, S, out
