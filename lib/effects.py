"""Interprocedural, flow-insensitive, field-sensitive mod summaries over access
paths.  An abstract address is (root, path); path steps are "struct.field" and
"*" (load).  Array indices are not distinguished."""
import sys
from collections import defaultdict
import ir, ext
from ir import Broken

MAXLEN = 12
MAXSET = 40


class Sum:
    __slots__ = ("W", "S", "ret", "rS", "ic", "reads", "extcalls")

    def __init__(s):
        s.W = {}        # addr -> witness (I, callee key or None, callee addr)
        s.S = {}        # addr -> set of values stored (pointers)
        s.ret = set()   # returned values
        s.rS = {}       # ('R',) rooted stores
        s.ic = []       # unresolved indirect calls: (values, [arg values], I)
        s.reads = {}    # addr -> witness
    def sig(s):
        return (len(s.W), sum(map(len, s.S.values())), len(s.ret), len(s.rS), len(s.ic), len(s.reads))


def step(a, st):
    if len(a[1]) >= MAXLEN:
        return (a[0], a[1][:MAXLEN - 1] + ("...",)) if a[1][-1] != "..." else a
    return (a[0], a[1] + (st,))


def opaque_ret(i):
    return i.t == "ptr"


class FA:
    """analysis of one function"""
    def __init__(s, eff, fn):
        s.eff = eff
        s.fn = fn
        s.val = defaultdict(set)
        s.M = defaultdict(set)
        s.links = defaultdict(set)   # dst addr -> src addrs (whole copies)
        s.cap = None
        s.capr = None
        s.W = {}
        s.R = {}
        s.ic = {}
        s.callargs = {}              # call I -> [set,...]

    # -- values
    def v(s, o):
        if isinstance(o, int):
            return s.val[o]
        k = o.get("k") if isinstance(o, dict) else None
        if k == "g":
            g = s.fn.unit.globals.get(o["n"])
            n = o["n"] if not (g and g["internal"]) else s.fn.unit.name + ":" + o["n"]
            return {(("G", n), ())}
        if k == "f":
            f = s.fn.unit.fns.get(o["n"])
            n = o["n"]
            if f is not None and not f.decl:
                n = f.key
            return {(("F", n), ())}
        if k == "null":
            return {(("N",), ())}
        if k == "ce" and o["op"] == "getelementptr":
            r = s.v(o["ops"][0])
            return {s.gepa(a, o["gep"]) for a in r}
        if k == "ce":
            r = set()
            for x in o["ops"]:
                r |= s.v(x)
            return r
        return set()

    def gepa(s, a, gep):
        if a[0][0] in ("N",):
            return a
        for stp in gep["steps"]:
            if "s" in stp:
                base, n, _ = s.fn.unit.member(stp["s"], stp["e"])
                if n == "<union>":
                    continue
                a = step(a, base + "." + n)
        return a

    def load(s, a, seen=None):
        if seen is None:
            seen = set()
        if a in seen or len(seen) > 24:
            return set()
        seen.add(a)
        root, path = a
        res = set()
        if root[0] in ("N", "F"):
            return res
        m = s.M.get(a)
        if m:
            res |= m
        if s.links and not (m and root[0] in ("A", "H")):
            for k in range(len(path) + 1):
                pre = (root, path[:k])
                for src in s.links.get(pre, ()):
                    sa = src
                    for x in path[k:]:
                        sa = step(sa, x)
                    if sa != a:
                        res |= s.load(sa, seen)
        if root[0] in ("P", "G", "R", "U") or not res:
            res.add(step(a, "*"))
        return res

    def walk(s, starts, path):
        cur = set(starts)
        for stp in path:
            if stp == "*":
                n = set()
                for a in cur:
                    n |= s.load(a)
                cur = n
            else:
                cur = {step(a, stp) for a in cur if a[0][0] not in ("N", "F")}
            if len(cur) > MAXSET:
                cur = set(sorted(cur)[:MAXSET])
        return cur

    def write(s, a, ins, vals, callee=None, caddr=None):
        if a[0][0] in ("N", "F"):
            return
        if s.cap is not None:
            s.cap.setdefault(a, (callee, caddr))
            return
        if a not in s.W:
            s.W[a] = (ins, callee, caddr)
            s.ch = True
        if vals:
            m = s.M[a]
            n = len(m)
            if n < MAXSET:
                m |= vals
                if len(m) != n:
                    s.ch = True

    def insw(s, i):
        """addresses instruction i may write (after the analysis has converged)"""
        s.cap = {}
        try:
            s.do(i)
            return s.cap
        finally:
            s.cap = None

    def read(s, a, ins, callee=None, caddr=None):
        if s.capr is not None:
            s.capr.add(a)
            return
        if a not in s.R and a[0][0] not in ("N", "F"):
            s.R[a] = (ins, callee, caddr)

    def insr(s, i):
        s.capr = set()
        s.cap = {}
        try:
            s.do(i)
            return s.capr
        finally:
            s.capr = None
            s.cap = None

    def setv(s, i, vs):
        o = s.val[i]
        n = len(o)
        if n >= MAXSET:
            return
        o |= vs
        if len(o) != n:
            s.ch = True

    def run(s):
        order = s.fn._rpo([0], s.fn.succs)
        for k in range(s.fn.nargs):
            if s.fn.params[k]["byval"]:
                s.val[k] = {(("A", s.fn.key, "byval%d" % k), ())}
            else:
                s.val[k] = {(("P", k), ())}
        for rnd in range(12):
            s.ch = False
            for b in order:
                for i in s.fn.blocks[b]:
                    s.do(i)
            if not s.ch:
                break
            if rnd == 0:
                # restart values once with the memory contents known
                keep = {k: s.val[k] for k in range(s.fn.nargs)}
                s.val = defaultdict(set, keep)
                s.ch = True
        return s.summary()

    def do(s, i):
        op = i.op
        if op == "getelementptr":
            s.setv(i.id, {s.gepa(a, i.x["gep"]) for a in s.v(i.ops[0])})
        elif op == "load":
            ptrs = s.v(i.ops[0])
            for a in ptrs:
                s.read(a, i)
            if i.t == "ptr":
                r = set()
                for a in ptrs:
                    r |= s.load(a)
                s.setv(i.id, r)
        elif op == "store":
            vals = s.v(i.ops[0])
            for a in s.v(i.ops[1]):
                s.write(a, i, vals)
        elif op == "alloca":
            s.setv(i.id, {(("A", s.fn.key, i.id), ())})
        elif op == "phi":
            if i.t == "ptr":
                for v, _ in i.x["inc"]:
                    s.setv(i.id, s.v(v))
        elif op == "select":
            if i.t == "ptr":
                s.setv(i.id, s.v(i.ops[1]) | s.v(i.ops[2]))
        elif op in ("inttoptr", "ptrtoint", "bitcast", "addrspacecast", "freeze"):
            s.setv(i.id, set(s.v(i.ops[0])))
        elif op == "call":
            s.call(i)

    def call(s, i):
        args = [s.v(o) for o in i.ops]
        s.callargs[i] = args
        c = i.x["callee"]
        targets = []
        if isinstance(c, dict) and c.get("k") == "f":
            targets = [(("F", c["n"]), ())]
            f = s.fn.unit.fns.get(c["n"])
            if f is not None and not f.decl:
                targets = [(("F", f.key), ())]
        else:
            targets = list(s.v(c))
            un = [t for t in targets if t[0][0] not in ("F", "N")]
            if un:
                s.addic(i, frozenset(un), args)
                if i.t == "ptr":
                    s.setv(i.id, {(("U",), ())})
        for t in targets:
            if t[0][0] == "F":
                s.applyf(i, t[0][1], args)

    def addic(s, i, fv, args):
        k = (i, fv)
        old = s.ic.get(k)
        new = tuple(frozenset(a) for a in args)
        if old != new:
            s.ic[k] = new
            if len(s.ic) > 200:
                raise Broken("indirect call explosion in " + s.fn.key)

    def applyf(s, i, name, args, depth=0):
        sm = s.eff.sums.get(name)
        if sm is None:
            if name in s.eff.prog.fn:
                return      # member of the same recursion component, later round
            s.external(i, name, args)
            return
        s.apply(i, name, sm, args, depth)

    def sub(s, a, i, args):
        root, path = a
        if root[0] == "P":
            if root[1] >= len(args):
                return set()
            return s.walk(args[root[1]], path)
        if root[0] == "R":
            return s.walk({(("H", s.fn.key, i.id), ())}, path)
        if root[0] == "G":
            return s.walk({(root, ())}, path)
        if root[0] in ("A", "H"):
            return set()
        return {a}

    def apply(s, i, name, sm, args, depth):
        for a, w in sm.W.items():
            for t in s.sub(a, i, args):
                s.write(t, i, None, name, a)
        for a, w in sm.reads.items():
            for t in s.sub(a, i, args):
                s.read(t, i, name, a)
        for a, vals in sm.S.items():
            vs = set()
            for v in vals:
                vs |= s.sub(v, i, args)
            if vs:
                for t in s.sub(a, i, args):
                    s.write(t, i, vs, name, a)
        if i.t == "ptr":
            r = set()
            for v in sm.ret:
                r |= s.sub(v, i, args)
            s.setv(i.id, r)
        if depth < 4:
            for fv, fargs, _ in sm.ic:
                tg = set()
                for v in fv:
                    tg |= s.sub(v, i, args)
                a2 = []
                for fa in fargs:
                    x = set()
                    for v in fa:
                        x |= s.sub(v, i, args)
                    a2.append(x)
                un = {t for t in tg if t[0][0] in ("P", "G")}
                if un:
                    s.addic(i, frozenset(un), a2)
                for t in tg:
                    if t[0][0] == "F":
                        s.applyf(i, t[0][1], a2, depth + 1)

    def external(s, i, name, args):
        if name in ext.COPY:
            d, sr = ext.COPY[name]
            for a in args[d]:
                s.write(a, i, None)
                if a[0][0] not in ("N", "F"):
                    l = s.links[a]
                    n = len(l)
                    if n < 8:
                        l |= {x for x in args[sr] if x != a}
                        if len(l) != n:
                            s.ch = True
            for a in args[sr]:
                s.read(a, i)
            if i.t == "ptr":
                s.setv(i.id, args[d])
            return
        if name in ext.SETM:
            for a in args[ext.SETM[name]]:
                s.write(a, i, None)
            return
        if name.startswith("llvm."):
            return
        ws = ext.W.get(name)
        if ws is None:
            s.eff.unknown_ext.add(name)
            ws = [(k, ()) for k in range(len(args))]
        for k, suf in ws:
            if k < len(args):
                for t in s.walk(args[k], suf):
                    s.write(t, i, None, name, None)
        if name.startswith("sc_array_init") and args:
            # the array data pointer is set to new (or viewed) memory
            data = {(("H", s.fn.key, i.id), ("data",))}
            if name == "sc_array_init_data" and len(args) > 1:
                data = args[1]
            elif name == "sc_array_init_view" and len(args) > 1:
                data = s.walk(args[1], ("sc_array.array", "*"))
            for a in args[0]:
                s.write(step(a, "sc_array.array"), i, data, name, None)
        for a in args:
            for x in a:
                s.read(x, i, name)
        if name in ("qsort",):
            pass
        # library call-backs through libsc: comparison functions are pure by contract; hash foreach etc. get user data
        if i.t == "ptr":
            r = ext.RET.get(name)
            if r == "fresh" or r is None:
                s.setv(i.id, {(("H", s.fn.key, i.id), ())})
            else:
                s.setv(i.id, args[r])

    def summary(s):
        sm = Sum()
        rets = set()
        for r in s.fn.rets:
            if r.ops and s.fn.rt == "ptr":
                rets |= s.v(r.ops[0])
        hret = {a[0] for a in rets if a[0][0] == "H" and not a[1]}

        def conv(a):
            if a[0] in hret:
                return (("R",), a[1])
            return a
        for a, w in s.W.items():
            r = a[0][0]
            if r in ("P", "G", "U"):
                sm.W[a] = w
            elif a[0] in hret:
                sm.W[conv(a)] = w
        for a, w in s.R.items():
            if a[0][0] in ("P", "G"):
                sm.reads[a] = w
        for a, vals in s.M.items():
            if a[0][0] in ("P", "G") or a[0] in hret:
                vs = {conv(v) for v in vals if v[0][0] in ("P", "G", "F", "N") or v[0] in hret}
                if vs:
                    sm.S[conv(a)] = vs
        for a, srcs in s.links.items():
            pass
        for a in rets:
            a = conv(a)
            if a[0][0] in ("P", "G", "F", "N", "R", "U"):
                sm.ret.add(a)
            elif a[0][0] == "H":
                sm.ret.add((("R",), ()))
        seen = set()
        for (i, fv), args in s.ic.items():
            fv2 = frozenset(v for v in fv if v[0][0] in ("P", "G"))
            if not fv2:
                continue
            a2 = tuple(frozenset(v for v in a if v[0][0] in ("P", "G", "F", "N")) for a in args)
            if (fv2, a2) not in seen and len(seen) < 60:
                seen.add((fv2, a2))
                sm.ic.append((fv2, a2, i))
        return sm


class Effects:
    def __init__(s, prog):
        s.prog = prog
        s.sums = {}
        s.fa = {}
        s.unknown_ext = set()
        s.callees = defaultdict(set)
        for f in prog.functions():
            for i in f.instrs():
                if i.op == "call":
                    t = prog.target(i)
                    if t is not None:
                        s.callees[f.key].add(t.key)
                # functions passed as values
                for o in i.ops:
                    if isinstance(o, dict) and o.get("k") == "f":
                        t = prog.resolve(f.unit, o["n"])
                        if t is not None:
                            s.callees[f.key].add(t.key)
        s.order = sccs(list(prog.fn), s.callees)
        for comp in s.order:
            for _ in range(6):
                ch = False
                for k in comp:
                    fa = FA(s, prog.fn[k])
                    sm = fa.run()
                    s.fa[k] = fa
                    old = s.sums.get(k)
                    if old is None or old.sig() != sm.sig():
                        ch = True
                    s.sums[k] = sm
                if not ch or (len(comp) == 1 and comp[0] not in s.callees[comp[0]]):
                    break

    def witness(s, key, addr, reads=False, limit=12):
        """call chain to the store instruction"""
        out = []
        while key in s.fa and limit:
            limit -= 1
            tab = s.fa[key].R if reads else s.fa[key].W
            w = tab.get(addr)
            if w is None:
                # summaries convert returned heap roots
                break
            i, cal, ca = w
            out.append("%s %s" % (i.where(), s.prog.fn[key].name))
            if cal is None or ca is None:
                if cal:
                    out.append("-> " + cal)
                break
            key, addr = cal, ca
        return out


def sccs(nodes, succ):
    """Tarjan, callees first"""
    idx = {}
    low = {}
    on = set()
    st = []
    out = []
    c = [0]
    for root in nodes:
        if root in idx:
            continue
        work = [(root, iter(sorted(succ.get(root, ()))))]
        idx[root] = low[root] = c[0]
        c[0] += 1
        st.append(root)
        on.add(root)
        while work:
            n, it = work[-1]
            adv = False
            for m in it:
                if m not in idx:
                    idx[m] = low[m] = c[0]
                    c[0] += 1
                    st.append(m)
                    on.add(m)
                    work.append((m, iter(sorted(succ.get(m, ())))))
                    adv = True
                    break
                elif m in on:
                    low[n] = min(low[n], idx[m])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[n])
            if low[n] == idx[n]:
                comp = []
                while True:
                    m = st.pop()
                    on.discard(m)
                    comp.append(m)
                    if m == n:
                        break
                out.append(comp)
    return out


def show(a, fn=None):
    root, path = a
    r = root[0]
    if r == "P":
        s = fn.pname(root[1]) if fn else "arg%d" % root[1]
    elif r == "G":
        s = root[1]
    elif r == "F":
        s = "&" + root[1]
    elif r == "A" and fn is not None and isinstance(root[2], int):
        vs = fn.vars.get(root[2])
        s = vs[0]["n"] if vs else "local%d" % root[2]
    else:
        s = ":".join(str(x) for x in root)
    for p in path:
        s += "->" if p == "*" else "." + p.split(".", 1)[-1]
    return s


if __name__ == "__main__":
    import time
    t = time.time()
    p = ir.Prog()
    print("load", time.time() - t)
    e = Effects(p)
    print("effects", time.time() - t, e.unknown_ext)
    for n in sys.argv[1:]:
        f = p.ext.get(n) or p.fn[n]
        sm = e.sums[f.key]
        print("==", n)
        for a, w in sorted(sm.W.items()):
            print("  W", show(a, f), " @", " ".join(e.witness(f.key, a)))
        for a, w in sorted(sm.S.items()):
            print("  S", show(a, f), [show(x, f) for x in w])
        print("  ret", [show(x, f) for x in sm.ret], "ic", len(sm.ic))
