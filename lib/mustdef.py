"""Definite-assignment (must-write) summaries: which fields of which parameter
are written on every returning path."""
import ir, effects, ext


class Must:
    def __init__(s, prog, eff):
        s.prog = prog
        s.eff = eff
        s.sum = {}
        s.stack = set()

    def get(s, key):
        if key in s.sum:
            return s.sum[key]
        if key in s.stack:
            return frozenset()
        s.stack.add(key)
        r = s.compute(key)
        s.stack.discard(key)
        s.sum[key] = r
        return r

    def gen(s, f, fa, i):
        """addresses definitely written by instruction i"""
        out = set()

        def one(vals):
            v = {a for a in vals if a[0][0] not in ("N",)}
            return next(iter(v)) if len(v) == 1 else None
        if i.op == "store":
            a = one(fa.v(i.ops[1]))
            if a and a[0][0] == "P":
                out.add(a)
        elif i.op == "call":
            n = i.callee()
            if n is None:
                return out
            if n in ext.COPY or n in ext.SETM:
                d = ext.COPY[n][0] if n in ext.COPY else ext.SETM[n]
                a = one(fa.v(i.ops[d]))
                if a and a[0][0] == "P":
                    out.add((a[0], a[1] + ("<whole>",)))
                return out
            t = s.prog.resolve(f.unit, n)
            if t is None:
                for k, suf in ext.W.get(n, ()):
                    if k < len(i.ops):
                        a = one(fa.v(i.ops[k]))
                        if a and a[0][0] == "P":
                            out.add((a[0], a[1] + tuple(suf)))
                return out
            for a in s.get(t.key):
                if a[0][0] == "P" and a[0][1] < len(i.ops):
                    b = one(fa.v(i.ops[a[0][1]]))
                    if b and b[0][0] == "P":
                        out.add((b[0], b[1] + a[1]))
        return out

    def compute(s, key):
        f = s.prog.fn[key]
        fa = s.eff.fa[key]
        gen = {}
        for b in range(len(f.blocks)):
            g = set()
            for i in f.blocks[b]:
                g |= s.gen(f, fa, i)
            gen[b] = g
        dead = f.abortset
        order = [b for b in f._rpo([0], f.succs) if b not in dead]
        OUT = {}
        ch = True
        while ch:
            ch = False
            for b in order:
                ins = None
                if b == 0:
                    ins = frozenset()
                else:
                    for p in f.preds[b]:
                        if p in OUT:
                            ins = OUT[p] if ins is None else ins & OUT[p]
                    if ins is None:
                        continue
                o = ins | gen[b]
                if OUT.get(b) != o:
                    OUT[b] = o
                    ch = True
        res = None
        for b in order:
            if f.blocks[b][-1].op == "ret":
                res = OUT[b] if res is None else res & OUT[b]
        return frozenset(res or ())
