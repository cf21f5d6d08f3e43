"""Symbolic bounds of indices.  Integers are polynomials over atoms: an SSA value that is not linear ("%12"), or a location that
keeps its value ("m:<path>").  Branches that dominate a point give linear facts there; induction variables, masks, remainders,
constant tables and library functions of small range give bounds.  An index is proved within an extent, refuted (a value is
reached for certain that is not below the extent), or left undecided."""
import ir
from collections import defaultdict
from sym import add, mul, const, cst

MUTATE = {"sc_array_init": None, "sc_array_init_size": 2, "sc_array_init_count": 2, "sc_array_resize": 1, "sc_array_push": None, "sc_array_push_copy": None, "sc_array_push_count": None,
          "sc_array_pop": None, "sc_array_reset": "zero", "sc_array_truncate": "zero", "sc_array_rewind": 1, "sc_array_destroy": None, "sc_array_copy": None, "sc_array_copy_into": None,
          "sc_array_uniq": None, "sc_array_split": None, "sc_array_init_view": None, "sc_array_init_data": None, "sc_array_init_reshape": None, "sc_array_destroy_null": None,
          "sc_array_is_permutation": False}
NEWARR = {"sc_array_new_count": 1, "sc_array_new_size": 1}
CAST = ("zext", "sext", "trunc", "freeze")
LIM = 400


def fullpath(f, o, depth=0):
    """(text, [(field, base text)], root) of a pointer; None when it is not a stable access path"""
    if depth > 24:
        return None
    if isinstance(o, dict):
        n = o.get("n")
        return ("@%s" % n, []) if n and o.get("k") == "g" else None
    if o < f.nargs:
        return "P%d" % o, []
    d = f.val.get(o)
    if d is None:
        return None
    if d.op == "alloca":
        return "A%d" % o, []
    if d.op == "call":
        return "C%d" % o, []
    if d.op in ("bitcast", "freeze"):
        return fullpath(f, d.ops[0], depth + 1)
    if d.op == "load":
        r = fullpath(f, d.ops[0], depth + 1)
        return (r[0] + "*", r[1] + [("load", o)]) if r else None
    if d.op == "getelementptr":
        r = fullpath(f, d.ops[0], depth + 1)
        if r is None:
            return None
        t, fl = r
        fl = list(fl)
        for st in d.x["gep"]["steps"]:
            if "s" in st:
                b, m, _ = f.unit.member(st["s"], st["e"])
                fl.append((b + "." + m, t))
                t += "." + m
            else:
                c = ir.cval(st["i"])
                if c is None:
                    return None
                if c or not st.get("first"):
                    t += "[%d]" % c
        return t, fl
    return None


class Mods:
    """struct fields that a function stores, with all it calls"""
    def __init__(s, p):
        s.p = p
        direct = {}
        calls = defaultdict(set)
        for f in p.functions():
            w = set()
            for i in f.instrs():
                if i.op == "store":
                    k = fieldkey(f, i.ops[1])
                    if k:
                        w.add(k)
                elif i.op == "call":
                    t = p.target(i)
                    if t is not None:
                        calls[f.key].add(t.key)
                    elif i.callee() in MUTATE and MUTATE[i.callee()] is not False:
                        w.add("sc_array.elem_count")
            direct[f.key] = w
        s.w = direct
        ch = True
        while ch:
            ch = False
            for k in direct:
                n = set(direct[k])
                for c in calls[k]:
                    n |= s.w[c]
                if n != s.w[k]:
                    s.w[k] = n
                    ch = True


def fieldkey(f, o):
    d = f.val.get(o) if isinstance(o, int) else None
    while d is not None and d.op in ("bitcast",):
        d = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
    if d is None or d.op != "getelementptr":
        return None
    k = None
    for st in d.x["gep"]["steps"]:
        if "s" in st:
            b, m, _ = f.unit.member(st["s"], st["e"])
            k = b + "." + m
    return k


class BD:
    def __init__(s, p, f, mods, ranges=None, consts=None):
        s.p, s.f, s.mods = p, f, mods
        s.memo = {}
        s.ranges = ranges or {}
        s.consts = consts or (lambda unit, n: None)
        s.fmemo = {}
        s.nonneg = set()
        s.version = {}
        s.loops()
        s.collect()

    # ---- loops -----------------------------------------------------------
    def loops(s):
        f = s.f
        s.body = {}
        for b in f.reachable:
            for t in f.succs(b):
                if f.dominates(t, b):
                    n = s.body.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in n:
                            continue
                        n.add(x)
                        st += f.preds[x]
        s.cyc = set()
        for b in s.body.values():
            s.cyc |= b

    # ---- memory versions -------------------------------------------------
    def collect(s):
        f = s.f
        s.stores = defaultdict(list)       # field key or alloca -> [(instr, base text or None)]
        s.taken = defaultdict(list)
        for i in f.instrs():
            if i.op == "store":
                k = fieldkey(f, i.ops[1])
                if k:
                    r = fullpath(f, i.ops[1])
                    s.stores[k].append((i, r[0].rsplit(".", 1)[0] if r else None))
                else:
                    r = fullpath(f, i.ops[1])
                    if r and r[0][0] == "A":
                        s.stores[r[0]].append((i, None))
            elif i.op == "call":
                n = i.callee()
                t = s.p.target(i)
                if t is not None:
                    for k in s.mods.w[t.key]:
                        s.stores[k].append((i, None))
                elif n in MUTATE and MUTATE[n] is not False:
                    r = fullpath(f, i.ops[0])
                    s.stores["sc_array.elem_count"].append((i, r[0] if r else None))
                if n and n.startswith("llvm."):
                    if not n.startswith("llvm.mem"):
                        continue
                for o in i.ops:
                    if isinstance(o, int):
                        r = fullpath(f, o)
                        if r and r[0][0] == "A" and "*" not in r[0]:
                            s.stores[r[0].split(".")[0].split("[")[0]].append((i, None))

    def reaching(s, l, key, base):
        """the changes of a location that may be the last before load l"""
        f = s.f
        ms = []
        for m, b in s.stores.get(key, ()):
            if b is not None and base is not None and b != base and distinct(b, base):
                continue
            ms.append(m)
        ids = {m.id for m in ms}
        out = []
        for m in ms:
            if any(x.id == l.id for x in f.reach_from(m, stop=lambda x: x.id in ids)):
                out.append(m)
        # from the entry
        seen, st, ent = set(), [(0, 0)], False
        while st and not ent:
            b, k = st.pop()
            hit = False
            for x in f.blocks[b][k:]:
                if x.id == l.id:
                    ent = True
                    break
                if x.id in ids:
                    hit = True
                    break
            if not hit and not ent:
                for t in f.succs(b):
                    if t not in seen:
                        seen.add(t)
                        st.append((t, 0))
        return out, ent

    def location(s, l):
        """name of what load l reads, or None; the same name is the same value"""
        r = fullpath(s.f, l.ops[0])
        if r is None:
            return None, None
        t, fl = r
        vers = []
        last = None
        if t[0] == "A" and "*" not in t:
            o, e = s.reaching(l, t, None)
            if "." in t or "[" in t:
                root = t.split(".")[0].split("[")[0]
                o2, e2 = s.reaching(l, root, None)
                o, e = o + o2, e or e2
                k = fieldkey(s.f, l.ops[0])
                if k:
                    o3, e3 = s.reaching(l, k, t.rsplit(".", 1)[0])
                    o = list({x.id: x for x in o + o3}.values())
            v = s.vers(o, e)
            if v is None:
                return None, None
            last = o[0] if len(o) == 1 and not e else None
            if len(o) == 1:
                last = o[0]
            return t + v, last
        for k, b in fl:
            if k == "load":
                # an intermediate pointer that is loaded
                n, _ = s.locmemo(b)
                if n is None:
                    return None, None
                continue
            o, e = s.reaching(l, k, b)
            v = s.vers(o, e)
            if v is None:
                return None, None
            vers.append(v)
            last = o[0] if len(o) == 1 and not e else None
        if not fl or fl[-1][0] == "load":
            return None, None          # *p: no field, may be anything
        return t + "".join(vers), last

    def locmemo(s, lid):
        if lid not in s.version:
            s.version[lid] = (None, None)
            s.version[lid] = s.location(s.f.val[lid])
        return s.version[lid]

    def vers(s, o, e):
        if not o:
            return ""
        if len(o) == 1 and not e and o[0].bb not in s.cyc:
            return "'%d" % o[0].id
        return None

    # ---- polynomials -----------------------------------------------------
    def poly(s, o, depth=0):
        if isinstance(o, dict):
            c = ir.cval(o)
            if c is not None:
                return const(c)
            if o.get("k") == "null":
                return {}
            return {("@" + str(o.get("n", o.get("k"))),): 1}
        if o in s.memo:
            return s.memo[o]
        s.memo[o] = {("%%%d" % o,): 1}
        r = s._poly(o, depth)
        s.memo[o] = r
        return r

    def _poly(s, o, depth):
        f = s.f
        me = {("%%%d" % o,): 1}
        d = f.val.get(o)
        if d is None or depth > 80:
            return me
        op = d.op
        if op in CAST:
            if isinstance(d.ops[0], int):
                x = f.val.get(d.ops[0])
                if x is not None and x.op in ("icmp", "fcmp"):
                    return me
            return s.poly(d.ops[0], depth + 1)
        if op == "add":
            return add(s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1))
        if op == "sub":
            return add(s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1), -1)
        if op == "mul":
            return mul(s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1))
        if op == "shl":
            c = cst(s.poly(d.ops[1], depth + 1))
            if c is not None and 0 <= c < 63:
                return mul(s.poly(d.ops[0], depth + 1), const(1 << c))
        if op == "load":
            n, last = s.locmemo(o)
            if last is not None:
                v = s.stored(last, d)
                if v is not None:
                    return v
            if n is not None:
                return {(canon(n),): 1}
            return me
        if op == "phi":
            vs = []
            for v, _ in d.x["inc"]:
                if v == o:
                    continue
                q = s.poly(v, depth + 1)
                if q not in vs:
                    vs.append(q)
            if len(vs) == 1:
                return vs[0]
        return me

    def stored(s, m, l):
        """value that the last change m of the location gives, if it is known"""
        if m.op == "store":
            if m.t is not None and isinstance(m.ops[0], (int, dict)):
                a, b = fullpath(s.f, m.ops[1]), fullpath(s.f, l.ops[0])
                if a and b and a[0] == b[0]:
                    v = m.ops[0]
                    if isinstance(v, int) and v in s.f.val and (s.f.val[v].bb in s.cyc) and s.f.val[v].bb != l.bb:
                        return None
                    return s.poly(v)
        elif m.op == "call":
            n = m.callee()
            k = MUTATE.get(n)
            r, b = fullpath(s.f, m.ops[0]) if m.ops else None, fullpath(s.f, l.ops[0])
            if r and b and b[0] == r[0] + ".elem_count":
                if k == "zero":
                    return {}
                if isinstance(k, int) and not isinstance(k, bool) and m.bb not in s.cyc:
                    return s.poly(m.ops[k])
        return None

    # ---- facts -----------------------------------------------------------
    def facts(s, b):
        """linear facts (polynomials that are not negative) and opaque conditions (values) that hold in block b"""
        if b in s.fmemo:
            return s.fmemo[b]
        f = s.f
        F, O = [], []
        x = b
        seen = set()
        while x in f.idom:
            ps = [q for q in f.preds[x] if q in f.reachable]
            if len(ps) == 1:
                d = ps[0]
                br = f.blocks[d][-1]
                if br.op == "br" and "cond" in br.x and len(set(f.succs(d))) == 2:
                    s.fact(br.x["cond"], f.succs(d)[0] == x, F, O)
                elif br.op == "switch":
                    cs = [c for c, t in zip(br.x.get("cases", []), br.x["succ"][1:]) if t == x]
                    if len(cs) == 1 and "cond" in br.x and x != br.x["succ"][0]:
                        q = add(s.poly(br.x["cond"]), const(cs[0]), -1)
                        F += [q, {k: -v for k, v in q.items()}]
            if f.idom[x] == x:
                break
            x = f.idom[x]
        s.fmemo[b] = (F, O)
        return F, O

    def fact(s, c, truth, F, O):
        d = s.f.val.get(c) if isinstance(c, int) else None
        if d is None:
            return
        if d.op in ("zext", "freeze", "trunc"):
            return s.fact(d.ops[0], truth, F, O)
        if d.op == "xor" and ir.cval(d.ops[1]) in (1, -1, True):
            return s.fact(d.ops[0], not truth, F, O)
        if d.op == "icmp":
            pr = d.x["pred"]
            a, b = d.ops
            if pr in ("eq", "ne") and ir.cval(b) == 0 and isinstance(a, int):
                x = s.f.val.get(a)
                y = x
                while y is not None and y.op in ("zext", "sext", "trunc", "freeze"):
                    y = s.f.val.get(y.ops[0]) if isinstance(y.ops[0], int) else None
                if y is not None and y.op == "icmp" and x.op != "icmp":
                    return s.fact(y.id, truth == (pr == "ne"), F, O)
            try:
                a, b = s.poly(a), s.poly(b)
            except RecursionError:
                return
            if pr[0] == "u" and pr[1:] in ("lt", "le", "gt", "ge"):
                pr = "s" + pr[1:]
            if not truth:
                pr = {"slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "eq": "ne", "ne": "eq"}.get(pr, pr)
            one = const(1)
            if pr == "slt":
                F.append(add(add(b, a, -1), one, -1))
            elif pr == "sle":
                F.append(add(b, a, -1))
            elif pr == "sgt":
                F.append(add(add(a, b, -1), one, -1))
            elif pr == "sge":
                F.append(add(a, b, -1))
            elif pr == "eq":
                F.append(add(a, b, -1))
                F.append(add(b, a, -1))
            elif pr == "ne":
                O.append(("ne", add(a, b, -1)))
            return
        O.append(("?", c))

    # ---- bounds of atoms -------------------------------------------------
    def ind(s, v):
        """(init operand, step, header) of an induction variable"""
        d = s.f.val.get(v)
        if d is None or d.op != "phi" or d.bb not in s.body:
            return None
        init = None
        step = None
        for x, b in d.x["inc"]:
            if b in s.body[d.bb]:
                q = add(s.poly(x), {("%%%d" % v,): 1}, -1)
                c = cst(q)
                if c is None or (step is not None and step != c):
                    return None
                step = c
            else:
                if init is not None and init != x:
                    return None
                init = x
        if init is None or not step:
            return None
        return init, step, d.bb

    def sign(s, atom):
        """is the atom known not to be negative?"""
        if atom.startswith("m:"):
            last = atom.split(".")[-1].split("'")[0]
            return last.startswith("num_") or last.endswith("_count") or last.endswith("_num_quadrants") or last in ("mpisize", "mpirank", "elem_size", "data_size", "ett_offset", "degree", "vnodes")
        if atom[0] == "%":
            v = int(atom[1:])
            d = s.f.val.get(v)
            if d is None:
                return False
            if d.op == "and":
                return any((ir.cval(x) or -1) >= 0 for x in d.ops)
            if d.op in ("icmp", "lshr", "urem", "udiv", "zext"):
                return True
            if d.op == "load" and d.t in ("i8",):
                return False
            if d.op == "call" and d.callee() in s.ranges:
                return s.ranges[d.callee()][0] >= 0
            i = s.ind(v)
            if i:
                q = s.poly(i[0])
                return i[1] > 0 and s.nn(q)
            if d.op in ("srem", "sdiv", "ashr"):
                return s.nn(s.poly(d.ops[0])) and s.nn(s.poly(d.ops[1]))
            if d.op == "select":
                return s.nn(s.poly(d.ops[1])) and s.nn(s.poly(d.ops[2]))
        return False

    def nn(s, q):
        return all(c >= 0 and all(s.sgn(a) for a in m) for m, c in q.items())

    def sgn(s, a):
        if a in s.nonneg:
            return True
        k = ("sgn", a)
        if k not in s.fmemo:
            s.fmemo[k] = False
            s.fmemo[k] = s.sign(a)
        return s.fmemo[k]

    def bounds(s, a, b, up):
        """bounds of atom a in block b: [(poly, reached for certain)], alternatives [[poly]]"""
        out, alts = [], None
        F, O = s.facts(b)
        if up and a == "m:~.mpirank":
            out.append((add({("m:~.mpisize",): 1}, const(-1)), False))
        k = (a,)
        iv = s.ind(int(a[1:])) if a[0] == "%" else None
        for q in F:
            c = q.get(k)
            if c is None or any(a in m and m != k for m in q):
                continue
            if up and c == -1 or not up and c == 1:
                r = dict(q)
                del r[k]
                if not up:
                    r = {m: -x for m, x in r.items()}
                eqv = any(w == {m: -x for m, x in q.items()} for w in F)
                exact = eqv
                if iv and not eqv:
                    # reached by the last iteration, if the bound does not change in the loop
                    inv = all(not s.inloop(x, iv[2]) for m in r for x in m)
                    exact = inv and (iv[1] == 1 if up else iv[1] == -1) and b in s.body[iv[2]]
                out.append((r, exact))
        if a[0] == "%":
            v = int(a[1:])
            d = s.f.val.get(v)
            if iv:
                init, step, h = iv
                if up and step < 0 or not up and step > 0:
                    out.append((s.poly(init), s.unguarded(h, b)))
                for w, q in O:
                    if w == "ne" and (step == 1 and up or step == -1 and not up):
                        c = q.get(k)
                        if c in (1, -1):
                            r = dict(q)
                            del r[k]
                            r = {m: -x * c for m, x in r.items()}
                            if all(not s.inloop(x, h) for m in r for x in m):
                                out.append((add(r, const(-1 if up else 1)), b in s.body[h]))
                # after the loop: the value at which the condition failed
                if b not in s.body[h] and step in (1, -1):
                    for q in F:
                        c = q.get(k)
                        if c is None or any(a in m and m != k for m in q):
                            continue
                        if up and step == 1 and c == 1 or not up and step == -1 and c == -1:
                            r = dict(q)
                            del r[k]
                            r = {m: -x * c for m, x in r.items()}
                            if all(not s.inloop(x, h) for m in r for x in m):
                                alts = [[(r, True)], [(s.poly(init), False)]]
            elif d is not None:
                if d.op == "and":
                    for o in d.ops:
                        c = ir.cval(o)
                        if c is not None and c >= 0:
                            out.append((const(c if up else 0), False))
                elif d.op in ("srem", "urem"):
                    if up:
                        out.append((add(s.poly(d.ops[1]), const(-1)), False))
                        if s.nn(s.poly(d.ops[0])):
                            out.append((s.poly(d.ops[0]), False))
                    elif d.op == "urem" or s.nn(s.poly(d.ops[0])):
                        out.append(({}, False))
                elif d.op in ("sdiv", "udiv"):
                    c = cst(s.poly(d.ops[1]))
                    q = s.poly(d.ops[0])
                    if c and c > 0 and s.nn(q) and up:
                        n = cst(q)
                        out.append((q if n is None else const(n // c), False))
                elif d.op in ("icmp", "fcmp") or d.op == "zext":
                    out.append((const(1 if up else 0), False))
                elif d.op == "select":
                    x, y = s.poly(d.ops[1]), s.poly(d.ops[2])
                    c = s.f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                    mm = None
                    if c is not None and c.op == "icmp":
                        g, h = s.poly(c.ops[0]), s.poly(c.ops[1])
                        pr = c.x["pred"][1:]
                        if (g, h) == (x, y):
                            mm = "min" if pr in ("lt", "le") else "max" if pr in ("gt", "ge") else None
                        elif (g, h) == (y, x):
                            mm = "max" if pr in ("lt", "le") else "min" if pr in ("gt", "ge") else None
                    if mm == ("min" if up else "max"):
                        out += [(x, False), (y, False)]
                    else:
                        alts = [[(x, False)], [(y, False)]]
                elif d.op == "phi" and d.bb not in s.body:
                    alts = []
                    for x, pb in d.x["inc"]:
                        alts.append([(s.poly(x), False)])
                    if len(alts) > 6:
                        alts = None
                elif d.op == "call":
                    r = s.ranges.get(d.callee())
                    if r:
                        out.append((const(r[1] if up else r[0]), False))
                elif d.op == "load":
                    r = s.table(d)
                    if r:
                        out.append((const(r[1] if up else r[0]), False))
        return out, alts

    def unguarded(s, h, b):
        """is b reached in the first round of the loop, decided by the loop's own test alone?"""
        if b not in s.body[h]:
            return False
        x = b
        while x != h and x in s.f.idom:
            ps = s.f.preds[x]
            if len(ps) == 1 and len(set(s.f.lsuccs(ps[0]))) > 1 and all(t in s.body[h] for t in s.f.lsuccs(ps[0])):
                return False
            x = s.f.idom[x]
        return True

    def inloop(s, a, h):
        if a[0] == "%":
            d = s.f.val.get(int(a[1:]))
            return d is not None and d.bb in s.body[h]
        return False

    def table(s, l):
        """range of a constant table"""
        o = l.ops[0]
        for _ in range(10):
            if isinstance(o, dict):
                n = o.get("n")
                if n is None and isinstance(o.get("o"), dict):
                    o = o["o"]
                    continue
                return s.consts(s.f.unit, n) if n else None
            d = s.f.val.get(o)
            if d is None or d.op not in ("getelementptr", "bitcast"):
                return None
            o = d.ops[0]
        return None

    # ---- decisions -------------------------------------------------------
    def prove(s, q, b, depth=0, fuel=None):
        """q >= 0 in block b"""
        if fuel is None:
            fuel = [LIM]
        fuel[0] -= 1
        if fuel[0] < 0:
            return False
        bad = [(m, c) for m, c in q.items() if not (c > 0 and all(s.sgn(a) for a in m))]
        if not bad:
            return True
        if depth > 8 or (len(bad) == 1 and bad[0][0] == () and len(q) == 1):
            return False
        # a fact helps directly?
        F, O = s.facts(b)
        for g in F:
            r = add(q, g, -1)
            if all(c >= 0 and all(s.sgn(a) for a in m) for m, c in r.items()):
                return True
        for m, c in sorted(q.items(), key=lambda x: (x[1] >= 0, len(x[0]))):
            if m == () or (c > 0 and all(s.sgn(a) for a in m)):
                continue
            for a in dict.fromkeys(m):
                rest = list(m)
                rest.remove(a)
                if not all(s.sgn(x) for x in rest):
                    continue
                bs, alts = s.bounds(a, b, c < 0)
                for r, _ in bs:
                    n = dict(q)
                    del n[m]
                    n = add(n, mul({tuple(rest): c}, r))
                    if a in {x for k in r for x in k}:
                        continue
                    if s.prove(n, b, depth + 1, fuel):
                        return True
                if alts:
                    ok = True
                    for al in alts:
                        n = dict(q)
                        del n[m]
                        n = add(n, mul({tuple(rest): c}, al[0][0]))
                        if not s.prove(n, b, depth + 1, fuel):
                            ok = False
                            break
                    if ok:
                        return True
        # a positive multiple of something not known to be positive
        for m, c in q.items():
            if c > 0 and len(m) == 1 and not s.sgn(m[0]):
                bs, alts = s.bounds(m[0], b, False)
                for r, _ in bs:
                    n = dict(q)
                    del n[m]
                    if m[0] in {x for k in r for x in k}:
                        continue
                    if s.prove(add(n, mul(const(c), r)), b, depth + 1, fuel):
                        return True
        return False

    def refute(s, q, b, depth=0):
        """q < 0 is reached for certain in block b: explanation or None"""
        if all(c < 0 and all(s.sgn(a) for a in m) for m, c in q.items()) and q.get((), 0) < 0:
            return []
        if depth > 5:
            return None
        for m, c in q.items():
            for a in dict.fromkeys(m):
                rest = list(m)
                rest.remove(a)
                if a in rest or not all(s.sgn(x) for x in rest):
                    continue
                bs, alts = s.bounds(a, b, c < 0)
                cand = [r for r, e in bs if e]
                for r in cand:
                    if any(a in k for k in r):
                        continue
                    # it must be the tightest of all
                    if not all(s.le(r, w, c < 0) for w, _ in bs if w != r):
                        continue
                    if s.opaque(a, b):
                        continue
                    # and be consistent with the other facts here
                    if not s.consistent(a, r, b):
                        continue
                    n = dict(q)
                    del n[m]
                    n = add(n, mul({tuple(rest): c}, r))
                    x = s.refute(n, b, depth + 1)
                    if x is not None:
                        return [(a, r)] + x
        return None

    def le(s, r, w, up):
        d = add(w, r, -1) if up else add(r, w, -1)
        return s.nn(d)

    def consistent(s, a, r, b):
        for g in s.facts(b)[0]:
            if not any(a in m for m in g):
                continue
            n = {}
            for m, c in g.items():
                if a in m:
                    rest = list(m)
                    rest.remove(a)
                    if a in rest:
                        return False
                    n = add(n, mul({tuple(rest): c}, r))
                else:
                    n = add(n, {m: c})
            # definitely false at that value?
            if n and all(c < 0 and all(s.sgn(x) for x in m) for m, c in n.items()) and n.get((), 0) < 0:
                return False
            if not s.nn(n) and any(x for m in n for x in m):
                # cannot tell
                if len({x for m in n for x in m}) > 0 and not s.nn(n):
                    if not s.prove(n, b):
                        return False
        for w, g in s.facts(b)[1]:
            if w == "ne" and any(a in m for m in g):
                return False
        return True

    def opaque(s, a, b):
        """a condition that holds here depends on a in a way not understood"""
        if a[0] != "%":
            return False
        v = int(a[1:])
        for w, x in s.facts(b)[1]:
            if w == "?" and s.depends(x, v, 0):
                return True
        return False

    def depends(s, x, v, n):
        if x == v:
            return True
        d = s.f.val.get(x) if isinstance(x, int) else None
        if d is None or n > 12 or d.op in ("load", "call", "phi"):
            return False
        return any(s.depends(o, v, n + 1) for o in d.ops)


def canon(n):
    """one name for numbers that all objects of a function share"""
    t = n.split("'")
    last = t[0].rsplit(".", 1)
    if len(last) == 2 and len(t) == 1:
        if last[1] == "mpisize":
            return "m:~.mpisize"
        if last[1] == "mpirank":
            return "m:~.mpirank"
        if t[0].endswith(".trees*.elem_count") or t[0].endswith(".connectivity*.num_trees"):
            return "m:~.num_trees"
    return "m:" + n


def distinct(a, b):
    """two access paths that cannot be the same object"""
    ra, rb = a.split(".")[0].split("*")[0].split("[")[0], b.split(".")[0].split("*")[0].split("[")[0]
    if ra == rb:
        # same root: different if neither goes through a pointer and the fields differ
        return "*" not in a and "*" not in b and not a.startswith(b) and not b.startswith(a)
    own = lambda r, t: r[0] in "AC" and "*" not in t
    if own(ra, a) and (own(rb, b) or rb[0] in "P@"):
        return True
    if own(rb, b) and ra[0] in "P@":
        return True
    return False
