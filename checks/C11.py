"""C11: messages are typed as their data, and every send has its receive."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, paths
from collections import defaultdict

SIZE = {"ompi_mpi_byte": 1, "ompi_mpi_char": 1, "ompi_mpi_signed_char": 1, "ompi_mpi_int8_t": 1, "ompi_mpi_unsigned_char": 1, "ompi_mpi_int": 4, "ompi_mpi_unsigned": 4, "ompi_mpi_float": 4,
        "ompi_mpi_short": 2, "ompi_mpi_long_long_int": 8, "ompi_mpi_long": 8, "ompi_mpi_unsigned_long": 8, "ompi_mpi_unsigned_long_long": 8, "ompi_mpi_double": 8, "ompi_mpi_int32_t": 4,
        "ompi_mpi_int64_t": 8}
# call -> [(buffer, count or None, type)]
USE = {"MPI_Isend": [(0, 1, 2)], "MPI_Irecv": [(0, 1, 2)], "MPI_Send": [(0, 1, 2)], "MPI_Recv": [(0, 1, 2)], "MPI_Ssend": [(0, 1, 2)], "MPI_Issend": [(0, 1, 2)], "MPI_Bcast": [(0, 1, 2)],
       "MPI_Allgather": [(0, 1, 2), (3, None, 5)], "MPI_Gather": [(0, 1, 2), (3, None, 5)], "MPI_Allgatherv": [(0, 1, 2), (3, None, 6)], "MPI_Gatherv": [(0, 1, 2), (3, None, 6)],
       "MPI_Allreduce": [(0, 2, 3), (1, 2, 3)], "MPI_Reduce": [(0, 2, 3), (1, 2, 3)], "MPI_Exscan": [(0, 2, 3), (1, 2, 3)], "MPI_Scan": [(0, 2, 3), (1, 2, 3)],
       "MPI_Alltoall": [(0, 1, 2), (3, None, 5)], "sc_allgather": [(0, 1, 2), (3, None, 5)]}
SEND = {"MPI_Isend": 4, "MPI_Send": 4, "MPI_Ssend": 4, "MPI_Issend": 4}
RECV = {"MPI_Irecv": 4, "MPI_Recv": 4}
FLOATS = {"ompi_mpi_float", "ompi_mpi_double"}


def typename(o):
    if isinstance(o, dict) and o.get("k") == "g":
        return o["n"]
    return None


def width(t):
    if t in ("ptr",):
        return None
    if t == "double":
        return 8
    if t == "float":
        return 4
    if isinstance(t, str) and t[:1] == "i" and t[1:].isdigit():
        return max(1, int(t[1:]) // 8)
    return None


class Checker:
    def __init__(s, p, eff):
        s.p, s.eff = p, eff
        s.graph = {}
        s.alarms, s.uses, s.evid, s.tags, s.pairs = [], 0, 0, 0, 0
        s.samples = []
        s._acc = {}

    def g(s, f):
        if f.key not in s.graph:
            s.graph[f.key] = paths.Graph(f, s.eff.fa[f.key])
        return s.graph[f.key]

    def factors(s, f, o, n=0):
        c = paths.cst(o)
        if c is not None:
            return c, ()
        d = f.val.get(o) if isinstance(o, int) else None
        if d is not None and n < 8:
            if d.op in ("sext", "zext", "trunc", "freeze"):
                return s.factors(f, d.ops[0], n + 1)
            if d.op == "mul" or d.op == "shl" and paths.cst(d.ops[1]) is not None:
                a, b = s.factors(f, d.ops[0], n + 1), s.factors(f, d.ops[1], n + 1)
                if d.op == "shl":
                    b = (1 << b[0], ())
                return a[0] * b[0], tuple(sorted(a[1] + b[1], key=repr))
            if d.op == "phi":
                # a size that is computed in several places
                r = {s.factors(f, v, n + 4)[0] for v, _ in d.x["inc"] if paths.cst(v) != 0}
                if len(r) == 1:
                    return r.pop(), (("v", o),)
        return 1, (s.g(f).canon(o),)

    def accesses(s, f):
        """{abstract address: {width}} of the scalar accesses of a function"""
        r = s._acc.get(f.key)
        if r is None:
            r = s._acc[f.key] = defaultdict(lambda: defaultdict(list))
            fa = s.eff.fa[f.key]
            for i in f.instrs():
                if i.op == "load":
                    t, o = i.t, i.ops[0]
                elif i.op == "store":
                    v = i.ops[0]
                    o = i.ops[1]
                    t = f.val[v].t if isinstance(v, int) and v in f.val else ("i%d" % v["w"] if isinstance(v, dict) and v.get("w") else None)
                else:
                    continue
                w = width(t)
                if w:
                    for a in fa.v(o):
                        r[a][(w, t in ("double", "float"))].append(i)
        return r

    def evidence(s, f, fa, o):
        """element sizes the buffer is used with: [(size, float or None, why)]"""
        out = []
        d = f.val.get(o) if isinstance(o, int) else None
        n = 0
        while d is not None and n < 6:
            n += 1
            if d.op == "getelementptr":
                st = d.x["gep"]["steps"]
                last = st[-1]
                if "sz" in last and "i" in last and paths.cst(last["i"]) is None:
                    out.append((last["sz"], None, "indexed in steps of %d bytes" % last["sz"]))
                break
            if d.op == "alloca":
                out.append((("room", d.x.get("asz")), None, "variable of %s bytes" % d.x.get("asz")))
                break
            if d.op in ("bitcast", "freeze"):
                d = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                continue
            if d.op == "call" and d.callee() in ("sc_malloc", "sc_calloc", "sc_realloc"):
                if d.callee() == "sc_calloc":
                    k = s.factors(f, d.ops[1])[0] * s.factors(f, d.ops[2])[0]
                else:
                    k = s.factors(f, d.ops[-1])[0]
                out.append((("alloc", k), None, "allocated in units of %d bytes" % k))
            break
        acc = s.accesses(f)
        for r in {a[0] for a in fa.v(o) if a[0][0] == "A" and a[0][1] == f.key}:
            # an array of scalars: all its accesses have one width
            ws = {k: us for a, x in acc.items() if a[0] == r for k, us in x.items()}
            if len(ws) == 1:
                (w, fl), us = next(iter(ws.items()))
                out.append((w, fl, "accessed with %d bytes at %s" % (w, us[0].where())))
        for a in fa.v(o):
            if a[0][0] in ("A", "H", "P") and not (a[0][0] == "P" and a[1] == ()) and not (a[1] and a[1][-1] == "data"):
                for (w, fl), us in acc.get(a, {}).items():
                    out.append((w, fl, "accessed with %d bytes at %s" % (w, us[0].where())))
        return out

    def use(s, f, fa, i, bo, co, to):
        s.uses += 1
        o = i.ops[bo]
        t = typename(i.ops[to])
        if t not in SIZE or not isinstance(o, int):
            return
        z = SIZE[t]
        cnt = paths.cst(i.ops[co]) if co is not None else None
        for ev, fl, why in s.evidence(f, fa, o):
            s.evid += 1
            bad = None
            if isinstance(ev, tuple):
                kind, k = ev
                if k is None:
                    continue
                if kind == "room" and cnt is not None and cnt * z > k:
                    bad = "%d elements of %d bytes do not fit" % (cnt, z)
                if kind == "room" and cnt == 1 and z > 1 and k < 16 and k != z:
                    bad = "one element has %d bytes" % z
                if kind == "alloc" and z > 1 and k % z:
                    bad = "the elements have %d bytes" % z
            elif z == 1 and ev > 1:
                # bytes: whole elements
                if cnt is not None and cnt % ev:
                    bad = "%d bytes are not whole elements" % cnt
            elif z > 1 and ev != z:
                if ev > z and ev % z == 0 and cnt is not None and cnt * z == ev and "indexed" in why:
                    continue        # a fixed number of elements per entry
                if ev > z and ev % z == 0 and cnt is None and "indexed" in why:
                    continue
                bad = "the elements have %d bytes" % z
            elif z > 1 and fl is not None and fl != (t in FLOATS):
                bad = "the elements are %s" % t
            if bad:
                s.alarms.append(("%s:type:%s:%s" % (f.name, i.callee(), t.replace("ompi_mpi_", "")), "%s (%s): %s transfers %s, but its buffer is %s: %s" % (
                    i.where(), f.name, i.callee(), t.replace("ompi_mpi_", ""), why, bad)))
                return

    def params(s, f, fs):
        return frozenset(x for x in fs if x[0] == "v" and isinstance(x[1], int) and x[1] < f.nargs)

    def unit(s, f, fa, i, bo, co):
        """bytes are sent in whole units of the buffer: the stride it is indexed with, the element size of its container"""
        o = i.ops[bo]
        k, fs = s.factors(f, i.ops[co])
        d = f.val.get(o) if isinstance(o, int) else None
        n = 0
        while d is not None and d.op == "getelementptr" and n < 4:
            n += 1
            st = d.x["gep"]["steps"]
            if len(st) == 1 and st[0].get("first") and st[0].get("sz") == 1:
                us = s.params(f, s.factors(f, st[0]["i"])[1])
                # the unit is the factor that is a size
                us = {x for x in us if f.unit.types[f.params[x[1]]["t"]] == "i64"}
                if us:
                    s.evid += 1
                    if not us & set(fs):
                        s.alarms.append(("%s:unit:%s" % (f.name, i.callee()), "%s (%s): %s transfers bytes from a place found in steps of %s, but the number of bytes does not depend on it" % (
                            i.where(), f.name, i.callee(), ", ".join(f.pname(x[1]) for x in us))))
            d = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
        if d is not None and d.op == "call" and (d.callee() or "").startswith("sc_array_index"):
            arr = fa.v(d.ops[0])
        elif d is not None and d.op == "load" and {a[1][-1:] for a in fa.v(d.ops[0])} == {("sc_array.array",)}:
            arr = {(a[0], a[1][:-1]) for a in fa.v(d.ops[0])}
        else:
            return
        for x in fs:
            if x[0] == "ld" and x[2] and all(a[1] and a[1][-1] == "sc_array.elem_size" for a in x[2]):
                s.evid += 1
                of = {(a[0], a[1][:-1]) for a in x[2]}
                if not of & arr and not any(a[0][0] in ("U",) for a in of | arr) and not s.madewith(f, arr, x):
                    s.alarms.append(("%s:unit:%s" % (f.name, i.callee()), "%s (%s): %s transfers elements of one container, counted with the element size of another" % (i.where(), f.name, i.callee())))

    def madewith(s, f, arr, x):
        """containers that were given this very element size"""
        g, fa = s.g(f), s.eff.fa[f.key]
        for i in f.instrs():
            n = i.callee() if i.op == "call" else None
            if n is None or not n.startswith("sc_array_") or not ("init" in n or "new" in n):
                continue
            mine = {(("H", f.key, i.id), ())} if "new" in n else fa.v(i.ops[0])
            if mine & arr and any(g.canon(y) == x for y in i.ops if isinstance(y, int)):
                return True
        return False

    def tagvals(s, f, o, n=0):
        """constants a tag can be"""
        c = paths.cst(o)
        if c is not None:
            return {c}
        if isinstance(o, int) and o < f.nargs and n < 4:
            r = set()
            cs = s.callers.get(f.key, [])
            for h, j in cs:
                r |= s.tagvals(h, j.ops[o], n + 1)
            if f.internal and cs:
                return r
            return r | {("given", f.name.replace("p8est", "p4est"), f.params[o].get("n", o))}
        d = f.val.get(o) if isinstance(o, int) else None
        if d is not None and d.op in ("phi", "select"):
            r = set()
            for v in ([v for v, _ in d.x["inc"]] if d.op == "phi" else d.ops[1:]):
                r |= s.tagvals(f, v, n + 1) if n < 4 else {None}
            return r
        return {None}

    def run(s):
        s.callers = defaultdict(list)
        for f in s.p.functions():
            for i in f.instrs():
                if i.op == "call":
                    t = s.p.target(i)
                    if t is not None:
                        s.callers[t.key].append((f, i))
        snd, rcv = defaultdict(list), defaultdict(list)
        for f in s.p.functions():
            fa = s.eff.fa[f.key]
            dim = "p8est" if f.unit.name.startswith("p8est") or "/p8est" in f.unit.name else "p4est"
            for i in f.instrs():
                if i.op != "call" or i.bb not in f.reachable:
                    continue
                n = i.callee()
                for bo, co, to in USE.get(n, ()):
                    if to < len(i.ops):
                        s.use(f, fa, i, bo, co, to)
                        if co is not None and SIZE.get(typename(i.ops[to])) == 1:
                            s.unit(f, fa, i, bo, co)
                for tab, box in ((SEND, snd), (RECV, rcv)):
                    if n in tab:
                        t = typename(i.ops[2])
                        k, fs = s.factors(f, i.ops[1])
                        ps = s.params(f, fs)
                        for v in s.tagvals(f, i.ops[tab[n]]):
                            box[(dim, v)].append((t, k * SIZE[t] if t in SIZE and k * SIZE[t] > 1 else None, i, f, ps))
        s.tags = len(set(snd) | set(rcv))
        for key in sorted(set(snd) | set(rcv), key=repr):
            a, b = snd.get(key, []), rcv.get(key, [])
            if key[1] is None or isinstance(key[1], tuple):
                continue
            if not a or not b:
                x = (a or b)[0]
                s.alarms.append(("%s:tag" % x[3].name, "%s (%s): messages with this tag are %s but never %s" % (x[2].where(), x[3].name, "sent" if a else "received", "received" if a else "sent")))
                continue
            s.pairs += 1
            ta, tb = {x[0] for x in a}, {x[0] for x in b}
            if ta != tb:
                x = next((x for x in a + b if x[0] in ta ^ tb), a[0])
                s.alarms.append(("%s:pairtype" % x[3].name, "%s (%s): the type of this message, %s, is not used on the other side" % (x[2].where(), x[3].name, x[0])))
                continue
            for h in {x[3] for x in a} & {x[3] for x in b}:
                pa, pb = {x[4] for x in a if x[3] is h}, {x[4] for x in b if x[3] is h}
                if pa != pb:
                    x = next((x for x in a + b if x[3] is h and x[4] in pa ^ pb), a[0])
                    s.alarms.append(("%s:pairunit" % h.name, "%s (%s): the length of this message depends on other sizes given to the function than that of the other side" % (x[2].where(), h.name)))
            ka, kb = {x[1] for x in a} - {None}, {x[1] for x in b} - {None}
            if ka != kb and ka and kb:
                x = next((x for x in a + b if x[1] in ka ^ kb), a[0])
                s.alarms.append(("%s:pairsize" % x[3].name, "%s (%s): this message comes in units of %s bytes, those of the other side in units of %s" % (
                    x[2].where(), x[3].name, x[1], sorted(kb if x in a else ka))))
            elif len(s.samples) < 4:
                s.samples.append("tag of %s: %d sends and %d receives agree in type and unit (%s, %s bytes)" % (a[0][2].where(), len(a), len(b), sorted(ta), sorted(ka, key=str)))


def analyse(config):
    p = ir.Prog(config, inline=0)
    eff = effects.Effects(p)
    ck = Checker(p, eff)
    ck.run()
    return {x: getattr(ck, x) for x in ("alarms", "uses", "evid", "tags", "pairs", "samples")}


def run():
    c = harness.Check("C11", "Message type analysis: the type given to every MPI call has the size and kind of the elements of its buffer (strides, variables, allocation units and scalar accesses "
                      "of the same memory); every tag that is sent is received and vice versa, with one type and unit on both sides.",
                      assumptions=["buffers without element evidence (opaque user data) are transferred as bytes by the caller's size", "tags the caller provides are the caller's"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        c.good(r["uses"] + r["pairs"] - len(r["alarms"]))
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:3]
        c.floor("buffers_" + config, r["uses"], 180)
        c.floor("evidence_" + config, r["evid"], 150)
        c.floor("tags_paired_" + config, r["pairs"], 40)
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
