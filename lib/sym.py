"""Symbolic integer expressions over SSA values: polynomials whose atoms are
named after the memory they are loaded from, so that expressions of different
functions can be compared."""
import ir

DTSIZE = {"ompi_mpi_double": 8, "ompi_mpi_float": 4, "ompi_mpi_int": 4, "ompi_mpi_byte": 1, "ompi_mpi_char": 1, "ompi_mpi_long_long_int": 8,
          "ompi_mpi_long": 8, "ompi_mpi_int8_t": 1, "ompi_mpi_signed_char": 1, "ompi_mpi_unsigned": 4, "ompi_mpi_unsigned_long": 8,
          "ompi_mpi_unsigned_char": 1, "ompi_mpi_unsigned_long_long": 8, "ompi_mpi_short": 2, "ompi_mpi_unsigned_short": 2}


def add(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + k * c
        if r[m] == 0:
            del r[m]
    return r


def mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n))
            r[k] = r.get(k, 0) + c * d
            if r[k] == 0:
                del r[k]
    return r


def const(c):
    return {(): c} if c else {}


def show(p):
    if not p:
        return "0"
    return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + list(m)) for m, c in sorted(p.items(), key=lambda x: (len(x[0]), x[0])))


def cst(p):
    if not p:
        return 0
    if set(p) == {()}:
        return p[()]
    return None


class Sym:
    def __init__(s, f, rename=None):
        s.f = f
        s.memo = {}
        s.rename = rename or {}
        s.flat = False      # phi of constants and one other value: named after that value

    def vname(s, i):
        v = s.f.vars.get(i)
        if v:
            return v[0]["n"]
        return None

    def atom(s, n):
        n = s.rename.get(n, n)
        if isinstance(n, dict):
            return n
        return {(n,): 1}

    def poly(s, o, depth=0):
        if isinstance(o, dict):
            c = ir.cval(o)
            if c is not None:
                return const(c)
            if o.get("k") == "null":
                return {}
            return s.atom("@" + str(o.get("n", o.get("k"))))
        if o in s.memo:
            return s.memo[o]
        s.memo[o] = s.atom("%%%d" % o)      # recursion guard
        r = s._poly(o, depth)
        s.memo[o] = r
        return r

    def _poly(s, o, depth):
        f = s.f
        if o < f.nargs:
            return s.atom(f.params[o]["name"] or "arg%d" % o)
        d = f.val.get(o)
        if d is None or depth > 60:
            return s.atom("%%%d" % o)
        op = d.op
        if op in ("zext", "sext", "trunc", "freeze"):
            if op == "zext" and f.val.get(d.ops[0]) is not None and f.val[d.ops[0]].op == "icmp" if isinstance(d.ops[0], int) else False:
                return s.atom("b(" + s.cond(d.ops[0]) + ")")
            return s.poly(d.ops[0], depth + 1)
        if op == "add":
            return add(s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1))
        if op == "sub":
            return add(s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1), -1)
        if op == "mul":
            return mul(s.poly(d.ops[0], depth + 1), s.poly(d.ops[1], depth + 1))
        if op == "shl":
            c = cst(s.poly(d.ops[1], depth + 1))
            if c is not None and 0 <= c < 63:
                return mul(s.poly(d.ops[0], depth + 1), const(1 << c))
        if op in ("sdiv", "udiv", "srem", "urem", "and", "or", "xor", "lshr", "ashr"):
            x, y = cst(s.poly(d.ops[0], depth + 1)), cst(s.poly(d.ops[1], depth + 1))
            if x is not None and y is not None and x >= 0 and y > 0 and op in ("sdiv", "udiv", "srem", "urem"):
                return const(x // y if op[1:] == "div" else x % y)
            return s.atom("(%s %s %s)" % (show(s.poly(d.ops[0], depth + 1)), op, show(s.poly(d.ops[1], depth + 1))))
        if op == "load":
            return s.atom(s.addr(d.ops[0], depth + 1)[1])
        if op == "phi":
            vs = []
            for v, _ in d.x["inc"]:
                if v == o:
                    continue
                p = s.poly(v, depth + 1)
                if p not in vs:
                    vs.append(p)
            if len(vs) == 1:
                return vs[0]
            if s.flat:
                l = s.leaves(o)
                if len(l) == 1:
                    q = s.poly(l[0], depth + 1)
                    if not any("%" in a for m in q for a in m):
                        return s.atom("~{%s}" % show(q)) if len(q) > 1 or list(q.values()) != [1] else s.atom("~" + "*".join(list(q)[0]))
            # a variable that stays itself: same value whichever way
            n = s.vname(o)
            return s.atom("phi:%s" % (n or o))
        if op == "select":
            a, b = s.poly(d.ops[1], depth + 1), s.poly(d.ops[2], depth + 1)
            if a == b:
                return a
            return s.atom("(%s ? %s : %s)" % (s.cond(d.ops[0]), show(a), show(b)))
        if op == "icmp":
            return s.atom("b(" + s.cond(o) + ")")
        if op == "call":
            return s.atom("call:%s" % (d.callee() or "?"))
        return s.atom("%%%d" % o)

    def leaves(s, o):
        """the distinct non-constant, non-phi values that can flow into phi o"""
        seen = {o}
        st = [o]
        out = []
        polys = []
        while st:
            for v, _ in s.f.val[st.pop()].x["inc"]:
                if not isinstance(v, int) or v in seen:
                    continue
                seen.add(v)
                d = s.f.val.get(v)
                while d is not None and d.op in ("zext", "sext", "trunc", "freeze"):
                    v = d.ops[0]
                    d = s.f.val.get(v) if isinstance(v, int) else None
                if d is not None and d.op == "phi":
                    if v not in seen or v == d.id:
                        seen.add(v)
                        st.append(v)
                    continue
                q = s.poly(v, 30)
                if q in polys or cst(q) is not None:
                    continue
                polys.append(q)
                out.append(v)
        return out

    def ptr(s, o, depth=0):
        """(base value, byte offset polynomial) of a pointer"""
        f = s.f
        off = {}
        while isinstance(o, int):
            d = f.val.get(o)
            if d is None or d.op not in ("getelementptr", "bitcast", "freeze"):
                break
            if d.op == "getelementptr":
                for st in d.x["gep"]["steps"]:
                    if "s" in st:
                        off = add(off, const(f.unit.structs[st["s"]]["elems"][st["e"]]["off"]))
                    else:
                        off = add(off, mul(s.poly(st["i"]), const(st["sz"])))
            o = d.ops[0]
        return o, off

    def cond(s, o):
        """canonical text of a boolean value"""
        d = s.f.val.get(o) if isinstance(o, int) else None
        if d is None:
            return str(ir.cval(o)) if isinstance(o, dict) else "?"
        if d.op == "icmp":
            a, b = s.poly(d.ops[0]), s.poly(d.ops[1])
            # b(cond) != 0 unwraps
            if cst(b) == 0 and len(a) == 1:
                (m, c), = a.items()
                if c == 1 and len(m) == 1 and m[0].startswith("b(") and d.x["pred"] == "ne":
                    return m[0][2:-1]
            pr = d.x["pred"]
            if pr in ("ugt", "ne") and cst(b) == 0:
                pr = "sgt"
            return "%s %s %s" % (show(a), pr, show(b))
        if d.op in ("zext", "sext", "trunc", "freeze"):
            return s.cond(d.ops[0])
        return show(s.poly(o))

    def addr(s, o, depth=0):
        """(root, text of the access path without the root, list of fields)"""
        f = s.f
        if isinstance(o, dict):
            return ("G", o.get("n")), "@" + str(o.get("n")), []
        if o < f.nargs:
            return ("P", o), "", []
        d = f.val.get(o)
        if d is None or depth > 60:
            return ("?", o), "%%%d" % o, []
        if d.op == "getelementptr":
            r, t, fl = s.addr(d.ops[0], depth + 1)
            t = t
            fl = list(fl)
            for st in d.x["gep"]["steps"]:
                if "i" in st:
                    p = s.poly(st["i"], depth + 1)
                    if st.get("first"):
                        if p:
                            t += "[%s]" % show(p)
                    else:
                        t += "[%s]" % show(p)
                elif "s" in st:
                    b, m, _ = f.unit.member(st["s"], st["e"])
                    t = m if not t or True else t
                    fl.append(b + "." + m)
            return r, t, fl
        if d.op == "load":
            r, t, fl = s.addr(d.ops[0], depth + 1)
            return (("L",) + tuple([r]) if False else r), t, fl + ["*"]
        if d.op == "alloca":
            n = s.vname(o) or "a%d" % o
            return ("A", o), n, []
        if d.op == "call":
            return ("C", o), "", []
        if d.op == "phi":
            rs = []
            for v, _ in d.x["inc"]:
                if v == o or isinstance(v, dict):
                    continue
                rs.append(v)
            if len(rs) == 1:
                return s.addr(rs[0], depth + 1)
            n = s.vname(o)
            return ("V", o), n or "", []
        if d.op in ("bitcast", "freeze"):
            return s.addr(d.ops[0], depth + 1)
        return ("?", o), "%%%d" % o, []
