"""C27: arrays are used within the extent they were given."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
from collections import defaultdict
import ir, harness, bounds, consts, sym
from sym import add, mul, const, cst, show

ALLOC = {"sc_malloc": lambda f, i, P: P(i.ops[1]), "sc_calloc": lambda f, i, P: mul(P(i.ops[1]), P(i.ops[2])), "malloc": lambda f, i, P: P(i.ops[0]),
         "sc_realloc": lambda f, i, P: P(i.ops[2]), "calloc": lambda f, i, P: mul(P(i.ops[0]), P(i.ops[1]))}

# extents of the arrays that public structures own, in elements: polynomials over sibling members
CH, FA, ED = {2: 4, 3: 8}, {2: 4, 3: 6}, {2: 0, 3: 12}
EXT = {
    "p4est.global_first_quadrant": ("mpisize", 1, 1), "p4est.global_first_position": ("mpisize", 1, 1), "p6est.global_first_layer": ("mpisize", 1, 1),
    "p4est_ghost.tree_offsets": ("num_trees", 1, 1), "p4est_ghost.proc_offsets": ("mpisize", 1, 1), "p4est_ghost.mirror_tree_offsets": ("num_trees", 1, 1),
    "p4est_ghost.mirror_proc_offsets": ("mpisize", 1, 1), "p4est_ghost.mirror_proc_front_offsets": ("mpisize", 1, 1),
    "p4est_connectivity.vertices": ("num_vertices", 3, 0), "p4est_connectivity.tree_to_vertex": ("num_trees", CH, 0), "p4est_connectivity.tree_to_tree": ("num_trees", FA, 0),
    "p4est_connectivity.tree_to_face": ("num_trees", FA, 0), "p4est_connectivity.tree_to_corner": ("num_trees", CH, 0), "p4est_connectivity.tree_to_edge": ("num_trees", ED, 0),
    "p4est_connectivity.ctt_offset": ("num_corners", 1, 1), "p4est_connectivity.ett_offset": ("num_edges", 1, 1),
    "p4est_lnodes.face_code": ("num_local_elements", 1, 0), "p4est_lnodes.element_nodes": ("num_local_elements*vnodes", 1, 0),
    "p4est_lnodes.global_owned_count": ("mpisize", 1, 0), "p4est_nodes.global_owned_indeps": ("mpisize", 1, 0),
    "p4est_mesh.quad_to_tree": ("local_num_quadrants", 1, 0), "p4est_mesh.ghost_to_proc": ("ghost_num_quadrants", 1, 0), "p4est_mesh.quad_to_quad": ("local_num_quadrants", FA, 0),
    "p4est_mesh.quad_to_face": ("local_num_quadrants", FA, 0), "p4est_mesh.quad_to_corner": ("local_num_quadrants", CH, 0), "p4est_mesh.quad_to_edge": ("local_num_quadrants", ED, 0),
    "p4est_nodes.local_nodes": ("num_local_quadrants", CH, 0),
}

for _k in ("tree_offsets", "proc_offsets", "mirror_tree_offsets", "mirror_proc_offsets", "mirror_proc_front_offsets"):
    EXT["p6est_ghost." + _k] = EXT["p4est_ghost." + _k]

RANGE = {"p4est_quadrant_child_id": CH, "p4est_quadrant_ancestor_id": CH}


class An:
    def __init__(s, p):
        s.p = p
        s.mods = bounds.Mods(p)
        s.tabs = {}
        s.res = []           # (function, instr, kind, verdict, text)

    def table(s, unit, n):
        k = (unit.name, n)
        if k not in s.tabs:
            s.tabs[k] = None
            g = unit.globals.get(n)
            u = unit
            if g is not None and g["decl"]:
                for u in s.p.units.values():
                    h = u.globals.get(n)
                    if h and not h["decl"]:
                        g = h
                        break
            if g is not None and not g["decl"] and g.get("const"):
                t = u.types[g["t"]] if isinstance(g.get("t"), int) else g.get("t")
                try:
                    v = consts.conv(g.get("init"), t)
                except Exception:
                    v = None
                fl = []

                def walk(x):
                    if isinstance(x, list):
                        for y in x:
                            walk(y)
                    else:
                        fl.append(x)
                if v is not None:
                    walk(v)
                    if fl and all(isinstance(x, int) for x in fl):
                        s.tabs[k] = (min(fl), max(fl))
        return s.tabs[k]

    def bd(s, f):
        if f.key not in s.bds:
            rg = {}
            for n, r in RANGE.items():
                for v in (n, n.replace("p4est_", "p8est_")):
                    rg[v] = (0, r[3 if v.startswith("p8est") else 2] - 1)
            s.bds[f.key] = bounds.BD(s.p, f, s.mods, rg, s.table)
        return s.bds[f.key]

    def run(s):
        s.bds = {}
        s.learn()
        s.needs = defaultdict(dict)      # function -> {(parameter, polynomial text): (parameter, end, where)}
        s.calls = defaultdict(list)
        for f in s.p.functions():
            s.function(f)
            for i in f.instrs():
                if i.op == "call" and i.bb not in f.abortset:
                    t = s.p.target(i)
                    if t is not None:
                        s.calls[t.key].append((f, i))
        todo = [(k, n) for k in s.needs for n in s.needs[k]]
        n = 0
        while todo:
            n += 1
            k, a = todo.pop()
            pk, q, wh = s.needs[k][a]
            for f, i in s.calls[k]:
                B = s.bd(f)
                r = s.translate(f, B, i, s.p.fn[k], q)
                if r is None or pk >= len(i.ops):
                    continue
                before = set(s.needs[f.key])
                s.need = (f.key, wh)
                s.access(f, B, i, i.ops[pk], r, "passed to %s, which uses it at %s," % (s.p.fn[k].name, wh))
                todo += [(f.key, x) for x in set(s.needs[f.key]) - before]
            if n > 20000:
                raise ir.Broken("no end of requirements")

    def translate(s, f, B, i, g, q):
        """polynomial over g's parameters in terms of the caller at call i"""
        r = {}
        for m, c in q.items():
            t = const(c)
            for a in m:
                if a.startswith("m:~"):
                    v = {(a,): 1}
                elif a[0] == "%" and int(a[1:]) < g.nargs:
                    n = int(a[1:])
                    if n >= len(i.ops):
                        return None
                    v = B.poly(i.ops[n])
                else:
                    return None
                t = mul(t, v)
            r = add(r, t)
        return r

    def require(s, f, B, i, k, q):
        """q, the end of what is used of parameter k: largest value reached for certain, over parameters"""
        for _ in range(6):
            at = [(m, a) for m in q for a in m if not (a.startswith("m:~") or a[0] == "%" and int(a[1:]) < f.nargs)]
            if not at:
                break
            m, a = at[0]
            c = q[m]
            rest = list(m)
            rest.remove(a)
            if a in rest or not all(B.sgn(x) for x in rest):
                return
            bs, alts = B.bounds(a, i.bb, c > 0)
            for r, e in bs:
                if e and not any(a in x for x in r) and all(B.le(r, w, c > 0) for w, _ in bs if w != r) and not B.opaque(a, i.bb) and B.consistent(a, r, i.bb):
                    n = dict(q)
                    del n[m]
                    q = add(n, mul({tuple(rest): c}, r))
                    break
            else:
                return
        else:
            return
        if cst(q) is not None and cst(q) <= 0:
            return
        # only if the use is not made to depend on the parameters otherwise
        at = {a for m in q for a in m}
        for g in B.facts(i.bb)[0]:
            x = {a for m in g for a in m}
            if x & at and all(a.startswith("m:") or int(a[1:]) < f.nargs for a in x if a[0] in "%m"):
                return
        for w, x in B.facts(i.bb)[1]:
            if w == "?" and any(a[0] == "%" and B.depends(x, int(a[1:]), 0) for a in at) or w == "ne" and any(a in at for m in x for a in m):
                return
        s.needs[f.key].setdefault((k, show(q)), (k, q, i.where()))

    def base(s, f, B, o):
        """follow address arithmetic: (base operand, byte offset, [(index operand, array length)])"""
        off, dims = {}, []
        for _ in range(40):
            d = f.val.get(o) if isinstance(o, int) else None
            if d is None:
                break
            if d.op == "bitcast":
                o = d.ops[0]
                continue
            if d.op != "getelementptr":
                break
            for st in d.x["gep"]["steps"]:
                if "s" in st:
                    off = add(off, const(f.unit.structs[st["s"]]["elems"][st["e"]]["off"]))
                else:
                    off = add(off, mul(B.poly(st["i"]), const(st["sz"])))
                    if not st.get("first") and st.get("n"):
                        dims.append((st["i"], st["n"]))
            o = d.ops[0]
        return o, off, dims

    def leaf(s, f, o, n=0):
        """the single pointer other than NULL that flows into o"""
        out, st, seen = [], [o], set()
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get("k") != "null":
                    return None
                continue
            if x in seen:
                continue
            seen.add(x)
            d = f.val.get(x)
            if d is not None and d.op == "phi":
                st += [v for v, _ in d.x["inc"]]
            elif d is not None and d.op == "select":
                st += d.ops[1:3]
            elif d is not None and d.op in ("bitcast", "freeze"):
                st.append(d.ops[0])
            else:
                out.append(x)
        return out[0] if len(set(out)) == 1 else None

    def extent(s, f, B, o, i):
        """(size in bytes, what) of the object at o, None if not known"""
        if isinstance(o, dict):
            return None
        o = s.leaf(f, o)
        if o is None:
            return None
        d = f.val.get(o)
        if d is None:
            return None
        if d.op == "alloca":
            sz = d.x.get("asz")
            n = ir.cval(d.ops[0]) if d.ops else 1
            if sz and n == 1:
                return const(sz), "local %s" % ((f.vars.get(o) or [{"n": "?"}])[0]["n"])
            return None
        if d.op == "call" and d.callee() in ALLOC:
            return ALLOC[d.callee()](f, d, B.poly), "allocated at %s" % d.where()
        if d.op == "load":
            k = bounds.fieldkey(f, d.ops[0])
            if k is None:
                return s.viavar(f, B, d)
            v = s.viafield(f, B, d, k)
            if v is not None:
                return v
            e = s.field(f, B, d, k)
            if e is not None:
                return e, k
            e = s.learned.get(key2(k))
            if e is not None:
                return e, "%s as it is allocated" % k
        return None

    def learn(s):
        """members that are everywhere allocated with a size that depends on numbers all objects of a forest share"""
        s.learned = {}
        bad = set()
        for f in s.p.functions():
            B = None
            for i in f.instrs():
                if i.op != "store" or i.bb in f.abortset:
                    continue
                k = bounds.fieldkey(f, i.ops[1])
                if k is None or not s.ptr(f, i.ops[0]):
                    continue
                o = i.ops[0]
                if isinstance(o, dict) and o.get("k") == "null":
                    continue
                k = key2(k)
                v = s.leaf(f, o)
                d = f.val.get(v) if v is not None else None
                if d is None or d.op != "call" or d.callee() not in ALLOC:
                    bad.add(k)
                    continue
                B = B or s.bd(f)
                q = ALLOC[d.callee()](f, d, B.poly)
                if any(not a.startswith("m:~") for m in q for a in m) or s.learned.get(k, q) != q:
                    bad.add(k)
                s.learned[k] = q
        for k in bad:
            s.learned.pop(k, None)

    def ptr(s, f, o):
        if isinstance(o, dict):
            return o.get("k") == "null"
        if o in f.val:
            return f.val[o].t == "ptr"
        return False

    def viafield(s, f, B, l, k):
        """loaded from a member that this function stored an allocation in"""
        r = bounds.fullpath(f, l.ops[0])
        if r is None:
            return None
        o, e = B.reaching(l, k, r[0].rsplit(".", 1)[0])
        if len(o) != 1 or e or o[0].op != "store":
            return None
        q = bounds.fullpath(f, o[0].ops[1])
        if q is None or q[0] != r[0]:
            return None
        v = s.leaf(f, o[0].ops[0])
        d = f.val.get(v) if v is not None else None
        if d is not None and d.op == "call" and d.callee() in ALLOC:
            return ALLOC[d.callee()](f, d, B.poly), "allocated at %s" % d.where()
        return None

    def owned(s, f, B, i, k):
        """an allocation becomes an array of a public structure"""
        v = s.leaf(f, i.ops[0])
        d = f.val.get(v) if v is not None else None
        if d is None or d.op != "call" or d.callee() not in ALLOC:
            return
        n, m, a = EXT[key2(k)]
        if n is None:
            return
        if isinstance(m, dict):
            m = m[3 if k.startswith("p8est") else 2]
        r = bounds.fullpath(f, i.ops[1])
        if r is None:
            return
        base = r[0].rsplit(".", 1)[0]
        q = const(m)
        for x in n.split("*"):
            q = mul(q, s.final(f, B, i, base, k.split(".")[0], x))
        q = add(q, const(a))
        sz = s.elemsize(f, i, k)
        if sz:
            s.decide(f, B, i, mul(q, const(sz)), ALLOC[d.callee()](f, d, B.poly), "extent of %s" % k, "allocation")

    def final(s, f, B, i, base, st, x):
        """member x of the object at base as the function sets it, before or after i"""
        k = st + "." + x
        ss = [(j, b) for j, b in B.stores.get(k, ()) if b is None or b == base]
        if len(ss) == 1 and ss[0][0].op == "store" and ss[0][1] == base:
            return B.poly(ss[0][0].ops[0])
        if not ss:
            return {(bounds.canon(base + "." + x),): 1}
        return s.sibling(f, B, i, base, st, x)

    def viavar(s, f, B, l):
        r = bounds.fullpath(f, l.ops[0])
        if r is None or r[0][0] != "A" or "*" in r[0] or "." in r[0] or "[" in r[0]:
            return None
        o, e = B.reaching(l, r[0], None)
        if len(o) != 1 or o[0].op != "store":
            return None
        v = s.leaf(f, o[0].ops[0])
        d = f.val.get(v) if v is not None else None
        if d is not None and d.op == "call" and d.callee() in ALLOC:
            return ALLOC[d.callee()](f, d, B.poly), "allocated at %s" % d.where()
        return None

    def field(s, f, B, l, k):
        dim = 3 if k.startswith("p8est") or f.unit.name.startswith("p8est") else 2
        key = key2(k)
        e = EXT.get(key)
        if e is None or e[0] is None:
            return None
        n, m, a = e
        if isinstance(m, dict):
            m = m[3 if k.startswith("p8est") else 2]
        r = bounds.fullpath(f, l.ops[0])
        if r is None:
            return None
        base = r[0].rsplit(".", 1)[0]
        q = const(m)
        for x in n.split("*"):
            q = mul(q, s.sibling(f, B, l, base, k.split(".")[0], x))
        q = add(q, const(a))
        sz = s.elemsize(f, l, k)
        return mul(q, const(sz)) if sz else None

    def sibling(s, f, B, l, base, st, x):
        """the value of member x of the object at path base, as of load l"""
        k = st + "." + x
        o, e = B.reaching(l, k, base)
        v = B.vers(o, e)
        if len(o) == 1 and not e and o[0].op == "store":
            a = bounds.fullpath(f, o[0].ops[1])
            if a and a[0] == base + "." + x:
                return B.poly(o[0].ops[0])
        if v is None:
            return {("?%d" % l.id,): 1}
        # versions of pointers on the way are those of the load itself
        n, _ = B.locmemo(l.id)
        if n is None:
            # the array member itself may have been replaced; the path to its owner counts
            r = bounds.fullpath(f, l.ops[0])
            for kk, b in r[1][:-1]:
                if kk == "load":
                    if B.locmemo(b)[0] is None:
                        return {("?%d" % l.id,): 1}
                else:
                    oo, ee = B.reaching(l, kk, b)
                    if oo:
                        return {("?%d" % l.id,): 1}
            return {(bounds.canon(base + "." + x + v),): 1}
        return {(bounds.canon(base + "." + x + v),): 1}

    def elemsize(s, f, l, k):
        b, m = k.split(".")
        if m == "global_first_position":
            u = f.unit.structs.get("struct.%s_quadrant" % b[:5])
            return u["size"] if u and "size" in u else None
        return ELEM.get(m, 4)

    def function(s, f):
        dim = 3 if f.unit.name.startswith("p8est") else 2
        B = s.bd(f)
        for i in f.instrs():
            if i.bb in f.abortset or i.bb not in f.reachable:
                continue
            if i.op == "store":
                k = bounds.fieldkey(f, i.ops[1])
                if k and key2(k) in EXT:
                    s.owned(f, B, i, k)
            if i.op in ("load", "store"):
                a = i.ops[0] if i.op == "load" else i.ops[1]
                sz = i.x.get("sz") or SIZE(f, i)
                s.access(f, B, i, a, const(sz) if sz else None, i.op)
            elif i.op == "call":
                n = i.callee()
                if n is None:
                    continue
                if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove") or n in ("memcpy", "memmove"):
                    s.access(f, B, i, i.ops[0], B.poly(i.ops[2]), "memcpy to")
                    s.access(f, B, i, i.ops[1], B.poly(i.ops[2]), "memcpy from")
                elif n.startswith("llvm.memset") or n == "memset":
                    s.access(f, B, i, i.ops[0], B.poly(i.ops[2]), "memset")
                elif n in SINK:
                    for a, c in SINK[n]:
                        if isinstance(i.ops[a], dict):
                            continue
                        q = const(1)
                        for x in c:
                            q = mul(q, B.poly(i.ops[x]) if x >= 0 else const(-x))
                        s.access(f, B, i, i.ops[a], q, n)
                elif n == "MPI_Allgather" and dtsize(f, i.ops[5]):
                    s.access(f, B, i, i.ops[3], mul({("m:~.mpisize",): 1}, mul(B.poly(i.ops[4]), const(dtsize(f, i.ops[5])))), n)
                if n.startswith("sc_array_") and s.p.target(i) is None and i.ops and isinstance(i.ops[0], int):
                    s.access(f, B, i, i.ops[0], const(32), n)
                if n in MPI:
                    for a, c, t in MPI[n]:
                        ts = dtsize(f, i.ops[t])
                        if ts:
                            s.access(f, B, i, i.ops[a], mul(B.poly(i.ops[c]), const(ts)), n)
                elif n.endswith("array_index") or n in ("sc_array_index_int", "sc_array_index_ssize_t", "sc_array_index_topidx"):
                    if len(i.ops) >= 2:
                        s.sc(f, B, i)

    def access(s, f, B, i, a, sz, kind):
        o, off, dims = s.base(f, B, a)
        for x, n in dims:
            if ir.cval(x) is not None and 0 <= ir.cval(x) < n:
                continue
            if n <= 1:
                continue
            if i.op in ("load", "store"):
                s.decide(f, B, i, B.poly(x), const(n - 1), "index of an array of %d" % n, kind)
        if sz is None or isinstance(o, dict):
            return
        e = s.extent(f, B, o, i)
        if e is None:
            x = s.leaf(f, o)
            if x is not None and x < f.nargs:
                s.require(f, B, i, x, add(off, sz))
            return
        d = f.val.get(s.leaf(f, o))
        if d is not None and d.op == "alloca" and (not off or cst(off) is not None) and cst(sz) is not None and i.op in ("load", "store"):
            return
        if d is not None and d.op == "alloca" and dims and i.op in ("load", "store"):
            return
        s.decide(f, B, i, off, add(e[0], sz, -1), "offset in what is %s" % e[1], kind)

    def sc(s, f, B, i):
        r = bounds.fullpath(f, i.ops[0])
        if r is None:
            return
        # the count as of this call
        o, e = B.reaching(i, "sc_array.elem_count", r[0])
        v = B.vers(o, e)
        q = None
        if len(o) == 1 and not e and o[0].op == "call" and o[0].bb not in B.cyc:
            n = o[0].callee()
            k = bounds.MUTATE.get(n)
            p = bounds.fullpath(f, o[0].ops[0]) if o[0].ops else None
            if p and p[0] == r[0] and type(k) is int:
                q = B.poly(o[0].ops[k])
        if q is None and not o and r[0][0] == "C" and "." not in r[0] and "*" not in r[0]:
            c = f.val[int(r[0][1:])]
            k = bounds.NEWARR.get(c.callee())
            if k is not None:
                q = B.poly(c.ops[k])
        if q is None:
            if v is None:
                return
            for kk, b in r[1]:
                if kk == "load":
                    if B.locmemo(b)[0] is None:
                        return
                elif B.reaching(i, kk, b)[0]:
                    return
            q = {(bounds.canon(r[0] + ".elem_count" + v),): 1}
        s.decide(f, B, i, B.poly(i.ops[1]), add(q, const(-1)), "index of an array", i.callee())

    def decide(s, f, B, i, q, top, what, kind):
        hi = add(top, q, -1)
        if B.prove(hi, i.bb) and B.prove(q, i.bb):
            s.res.append((f, i, kind, "ok", what, ""))
            return
        x = B.refute(hi, i.bb)
        if x is not None:
            s.res.append((f, i, kind, "bad", what, "reaches %s, the last within it is %s%s" % (nm(f, q), nm(f, top), "".join(", with %s = %s" % (nm(f, {(a,): 1}), nm(f, r)) for a, r in x))))
            return
        x = B.refute(q, i.bb)
        if x is not None:
            s.res.append((f, i, kind, "bad", what, "%s becomes negative%s" % (nm(f, q), "".join(", with %s = %s" % (nm(f, {(a,): 1}), nm(f, r)) for a, r in x))))
            return
        s.res.append((f, i, kind, "?", what, "%s within %s" % (nm(f, q), nm(f, top))))


def nm(f, q):
    import re

    def at(a):
        if a[0] == "%":
            v = f.vars.get(int(a[1:]))
            return v[0]["n"] if v else a
        if a.startswith("m:"):
            a = re.sub(r"'\d+", "", a[2:]).replace("*", "")
            m = re.match(r"([PAC])(\d+)(.*)", a)
            if m:
                i = int(m.group(2))
                b = f.pname(i) if m.group(1) == "P" else (f.vars.get(i) or [{"n": "?"}])[0]["n"]
                return b + m.group(3)
        return a
    return show({tuple(at(a) for a in m): c for m, c in q.items()})


# arguments (pointer, factors of its size; a negative number is a constant)
SINK = {"MPI_Waitall": [(1, (0, -8))], "MPI_Waitsome": [(1, (0, -8)), (3, (0, -4))], "fread": [(0, (1, 2))], "fwrite": [(0, (1, 2))], "sc_fread": [(0, (1, 2))], "sc_fwrite": [(0, (1, 2))],
        "sc_io_source_read": [(1, (2,))], "sc_io_sink_write": [(1, (2,))], "sc_array_init_data": [(1, (2, 3))], "sc_array_new_data": [(0, (1, 2))],
        "memcmp": [(0, (2,)), (1, (2,))]}


def key2(k):
    a, _, b = k.replace("p8est", "p4est").partition(".")
    return (a[:-2] if a.endswith("_t") else a) + "." + b


ELEM = {"global_first_quadrant": 8, "global_first_position": None, "global_first_layer": 8, "vertices": 8, "tree_to_face": 1, "quad_to_face": 1, "face_code": 1}
MPI = {"MPI_Isend": [(0, 1, 2)], "MPI_Send": [(0, 1, 2)], "MPI_Irecv": [(0, 1, 2)], "MPI_Recv": [(0, 1, 2)], "MPI_Bcast": [(0, 1, 2)], "MPI_Allreduce": [(0, 2, 3), (1, 2, 3)],
       "MPI_Exscan": [(0, 2, 3), (1, 2, 3)], "MPI_Allgather": [(0, 1, 2)]}


def dtsize(f, o):
    d = f.val.get(o) if isinstance(o, int) else None
    n = None
    if isinstance(o, dict):
        n = o.get("n")
    return sym.DTSIZE.get(n)


def SIZE(f, i):
    t = i.t if i.op == "load" else None
    if i.op == "store":
        v = i.ops[0]
        if isinstance(v, dict):
            return v["w"] // 8 if v.get("w", 0) >= 8 else 8 if v.get("k") in ("null", "g") else None
        if isinstance(v, int):
            t = f.val[v].t if v in f.val else None
            if t is None and v < f.nargs:
                t = f.unit.types[f.params[v]["t"]] if isinstance(f.params[v].get("t"), int) else None
    return {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4, "ptr": 8, "i1": 1}.get(t)


def analyse(config):
    p = ir.Prog(config, inline=0)
    a = An(p)
    a.run()
    return [(f.name, i.where(), k, v, w, t) for f, i, k, v, w, t in a.res]


def run():
    c = harness.Check("C27", "Symbolic extent analysis: every access through an index into an array of known extent (declared dimension, allocation visible in the function, stored in an "
                      "object member or passed by a caller, documented extent of a public member, counted container), and every copy, fill, message and file buffer, is compared with that "
                      "extent under the loop bounds and branch conditions in force. An access is reported when the extreme values of its index are known to be reached and lie outside.",
                      assumptions=["sizes and counts do not overflow", "loops with a bound run to it unless a condition on their counter prevents it",
                                   "accesses that depend on further data are counted as undecided"], level="other")
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        n = defaultdict(int)
        kinds = defaultdict(int)
        for fn, wh, k, v, w, t in r:
            n[v] += 1
            if v == "ok":
                kinds[k.split(" ")[0] if " " in k else k] += 1
                if len(c.samples) < 12 and n["ok"] % 1000 == 1:
                    c.samples.append("%s (%s, %s): %s is kept" % (wh, fn, k, w))
            elif v == "bad":
                x = ":%s" % wh if os.environ.get("ALLV") else ""
                c.obligation(False, "%s:%s:%s%s" % (fn, k.split(", which")[0], w.split(" at ")[0], x), "%s (%s, %s): %s %s" % (wh, fn, k, w, t))
            elif os.environ.get("UND"):
                print("?", fn, wh, k, w, t)
        c.good(n["ok"])
        c.floor("accesses_within_extent_" + config, n["ok"], 8000 if config == "debug" else 6500)
        c.counts["undecided_" + config] = n["?"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
