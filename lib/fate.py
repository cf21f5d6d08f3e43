"""What becomes of the failure of a call: paths from a failed call to returns that do not report it."""
import ir

Z, NZ = 0, 1
CMPN = {"eq", "ne"}


class Fate:
    def __init__(s, p, f, i, failz, logs):
        s.p, s.f, s.i, s.failz, s.logs = p, f, i, failz, logs
        s.derived = {i.id}
        ch = True
        while ch:
            ch = False
            for d in f.instrs():
                if d.id not in s.derived and d.op in ("icmp", "or", "and", "xor", "zext", "sext", "trunc", "select", "phi", "freeze", "add", "sub") and any(
                        isinstance(o, int) and o in s.derived for o in (list(d.ops) + [v for v, _ in d.x.get("inc", ())])):
                    s.derived.add(d.id)
                    ch = True

    def val(s, st, o):
        if isinstance(o, dict):
            if o.get("k") == "null":
                return Z
            c = ir.cval(o)
            if c is None:
                return NZ if o.get("k") == "g" else None
            return NZ if c else Z
        return st.get(o)

    def ev(s, st, d):
        v = lambda k: s.val(st, d.ops[k])
        if d.op in ("zext", "sext", "freeze", "bitcast", "ptrtoint"):
            return v(0)
        if d.op == "icmp":
            a, b = v(0), v(1)
            pr = d.x.get("pred")
            if pr in ("eq", "ne"):
                if a == Z and b == Z:
                    return NZ if pr == "eq" else Z
                if (a, b) in ((Z, NZ), (NZ, Z)):
                    return Z if pr == "eq" else NZ
            return None
        if d.op == "or":
            a, b = v(0), v(1)
            if NZ in (a, b):
                return NZ
            return Z if a == Z and b == Z else None
        if d.op == "and":
            a, b = v(0), v(1)
            if Z in (a, b):
                return Z
            return NZ if d.t == "i1" and a == NZ and b == NZ else None
        if d.op == "xor" and d.t == "i1" and ir.cval(d.ops[1]) is not None:
            a = v(0)
            if a is None:
                return None
            return a if ir.cval(d.ops[1]) == 0 else (Z if a == NZ else NZ)
        if d.op == "select":
            c = v(0)
            if c is None:
                return v(1) if v(1) == v(2) else None
            return v(1) if c == NZ else v(2)
        return None

    def silent(s, limit=4000):
        """(return reached without a report, its result), 'many', or None"""
        f, i = s.f, s.i
        st0 = {i.id: Z if s.failz else NZ}
        work = [(i.bb, i.idx + 1, None, st0)]
        seen = set()
        n = 0
        while work:
            b, k0, frm, st = work.pop()
            n += 1
            if n > limit:
                return "many"
            if b in f.abortset:
                continue
            st = dict(st)
            if k0 == 0 and frm is not None:
                new = {}
                for d in f.blocks[b]:
                    if d.op != "phi":
                        break
                    for x, e in d.x["inc"]:
                        if e == frm:
                            new[d.id] = s.val(st, x)
                for d, x in new.items():
                    if x is None:
                        st.pop(d, None)
                    else:
                        st[d] = x
                k = (b, frm, frozenset(st.items()))
                if k in seen:
                    continue
                seen.add(k)
            rep = False
            for d in f.blocks[b][k0:]:
                if d.op == "phi":
                    continue
                if d is i:
                    # done again: what became of the first failure is only in other values
                    st.pop(i.id, None)
                    continue
                if d.op == "store":
                    if isinstance(d.ops[0], int) and (d.ops[0] in s.derived) or isinstance(d.ops[0], dict) and (ir.cval(d.ops[0]) or 0) != 0:
                        if s.reports(d):
                            rep = True
                            break
                elif d.op == "call":
                    m = d.callee()
                    if m not in s.logs and any(isinstance(o, int) and o in s.derived and o != i.id or o == i.id and not s.failz for o in d.ops if isinstance(o, int)):
                        rep = True
                        break
                    st.pop(d.id, None)
                elif d.op == "ret":
                    if not d.ops:
                        return d, "nothing"
                    v = s.val(st, d.ops[0])
                    o = d.ops[0]
                    if f.rt == "ptr":
                        if v == Z:
                            break
                        return d, "an object"
                    if v == NZ:
                        break
                    if v == Z:
                        return d, "zero"
                    if isinstance(o, int) and o in f.val and f.val[o].op == "load":
                        break
                    return d, "a result that does not depend on it"
                elif d.op in ("br", "switch"):
                    pass
                elif d.t not in (None, "void"):
                    x = s.ev(st, d)
                    if x is None:
                        st.pop(d.id, None)
                    else:
                        st[d.id] = x
            if rep:
                continue
            t = f.blocks[b][-1]
            if t.op == "ret":
                continue
            ss = list(f.succs(b))
            if t.op == "br" and len(ss) == 2 and t.x.get("cond") is not None:
                v = s.val(st, t.x["cond"])
                if v == NZ:
                    ss = ss[:1]
                elif v == Z:
                    ss = ss[1:]
            for x in ss:
                work.append((x, 0, b, st))
        return None

    def reports(s, d):
        """a store that can be seen by the caller"""
        f = s.f
        o = d.ops[1]
        for _ in range(20):
            if isinstance(o, dict):
                return True
            if o < f.nargs:
                return True
            x = f.val.get(o)
            if x is None:
                return True
            if x.op in ("getelementptr", "bitcast"):
                o = x.ops[0]
                continue
            return x.op != "alloca"
        return True
