"""C10: messages in flight are completed, and their buffers left alone until then."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, ext, own, paths
from collections import defaultdict

START = {"MPI_Isend": (6, 0), "MPI_Irecv": (6, 0), "MPI_Issend": (6, 0), "MPI_Ibsend": (6, 0), "MPI_Irsend": (6, 0)}
WAIT = {"MPI_Wait": (0, None), "MPI_Waitall": (1, 0), "MPI_Waitsome": (1, 0), "MPI_Waitany": (1, 0), "sc_MPI_Waitall": (1, 0), "sc_MPI_Waitsome": (1, 0),
        "MPI_Cancel": (0, None)}
# calls that move, drop or rearrange the elements of a container
RESIZE = {"sc_array_resize", "sc_array_push", "sc_array_push_count", "sc_array_reset", "sc_array_truncate", "sc_array_rewind", "sc_array_destroy", "sc_array_init", "sc_array_init_size",
          "sc_array_init_count", "sc_array_memset", "sc_array_sort", "sc_array_uniq", "sc_array_copy", "sc_array_copy_into"}
ARR = ("sc_array.array", "*")


def names(fa, addrs):
    """other ways to reach the same memory: (root, path)"""
    out = set()
    st = list(addrs)
    while st and len(out) < 60:
        a = st.pop()
        if a in out or a[0][0] in ("N", "U", "F"):
            continue
        out.add(a)
        if a[0][0] == "H" and len(a[1]) < 9:
            for loc, vals in rev(fa).get(a[0], ()):
                for v in vals:
                    if v[0] == a[0] and a[1][:len(v[1])] == v[1]:
                        st.append((loc[0], loc[1] + ("*",) + a[1][len(v[1]):]))
    return out


def rev(fa):
    r = getattr(fa, "_rev", None)
    if r is None:
        r = fa._rev = defaultdict(list)
        for loc, vals in fa.M.items():
            for root in {v[0] for v in vals if v[0][0] == "H"}:
                r[root].append((loc, vals))
    return r


def split(path):
    return tuple(x for x in path)


class Flight(paths.Walk):
    """from the start of a message to its completion"""

    def __init__(s, g, ck, i, req, buf, recv):
        super().__init__(g, 8000)
        s.ck, s.i, s.req, s.buf, s.recv = ck, i, req, buf, recv
        s.open = None
        s.single = {a for a in buf if a[0][0] == "A" and not ({"*", "[]"} & set(a[1])) and ck.scalar(g.f, a[0])}
        s.rel, s.touch = [], []
        f = s.f
        loops = [h for h, body in g.loops.items() if i.bb in body]
        inside = set()
        for h in loops:
            inside |= g.loops[h]
        # blocks reached without starting the loop anew
        seen = set()
        st = [i.bb]
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            st += [t for t in f.succs(b) if t not in loops]
        s.same = seen
        s.inside = inside
        s.ends = 0

    def step(s, j, held):
        if j is s.i:
            return False
        if j.op == "call":
            if s.ck.waits(s.f, s.fa, j) & s.req and not s.ck.apart(s.f, s.i, j):
                s.ends += 1
                return True
        if j.op not in ("call", "store", "load"):
            return False
        late = j.bb not in s.inside or j.bb in s.same and (j.bb != s.i.bb or j.idx > s.i.idx)
        if not late:
            return False
        if j.op == "call":
            for a in s.ck.own.released(s.f, s.fa, j):
                q = a[1][:-1] if a[1] and a[1][-1] == "@" else a[1]
                if any(n[0] == a[0] and n[1][:len(q)] == q for n in s.req):
                    s.rel.append((j, "its request is released"))
                    return True
                if any(n[0] == a[0] and n[1][:len(q)] == q for n in s.buf):
                    s.rel.append((j, "its buffer is released"))
                    return True
            if j.callee() in RESIZE and s.ck.container(s.f, s.fa, j) & s.buf and s.ck.alike(s.f, s.fa, s.i, j):
                s.touch.append((j, "its buffer is changed by " + j.callee()))
                return True
        if s.single:
            r = s.ck.touches(s.f, s.fa, j)
            if r[1] & s.single:
                s.touch.append((j, "its buffer is overwritten"))
                return True
            if s.recv and r[0] & s.single:
                s.touch.append((j, "the buffer to receive is read"))
                return True
        return False

    def end(s, j, held, trail):
        if s.open is None:
            s.open = (j, trail)


class Until(paths.Walk):
    """does a wait come before the release, on all paths?"""

    def __init__(s, g, ck, path, stop=None):
        super().__init__(g, 8000)
        s.ck, s.path, s.stop = ck, path, stop
        s.miss = None

    def step(s, j, held):
        if j.op == "call":
            if s.path in s.ck.waits(s.f, s.fa, j):
                return True
            t = s.ck.p.target(j)
            if t is not None and (s.path[0], ()) in s.ck.own.released(s.f, s.fa, j) and any(q[0][0] == "P" for q in s.ck.must.get(t.key, ())):
                # handed on to a function that completes the whole exchange and releases its holder
                return True
            if s.stop is not None and j in s.stop:
                s.miss = s.miss or j
                return True
        return False

    def end(s, j, held, trail):
        if s.stop is None:
            s.miss = s.miss or j


def strip(f, o):
    while isinstance(o, int) and o in f.val and f.val[o].op in ("sext", "zext", "trunc"):
        o = f.val[o].ops[0]
    return o


def first(d):
    """the index of a step in an array"""
    if d is None or d.op != "getelementptr" or len(d.x["gep"]["steps"]) != 1 or not d.x["gep"]["steps"][0].get("first"):
        return None
    return d.x["gep"]["steps"][0]["i"]


def asks(d):
    """is something compared with zero: anything or nothing"""
    k = paths.cst(d.ops[1])
    if k is None:
        # null pointers and the like
        return d.x["pred"] in ("eq", "ne")
    return (d.x["pred"], k) in {("eq", 0), ("ne", 0), ("sgt", 0), ("ugt", 0), ("sle", 0), ("ule", 0), ("slt", 1), ("ult", 1), ("sge", 1), ("uge", 1),
                                     ("sgt", -1), ("sge", 0), ("slt", 0), ("sle", -1), ("eq", -1), ("ne", -1)}


class Checker:
    def __init__(s, p, eff):
        s.p, s.eff = p, eff
        s.own = own.Own(p, eff)
        s.graph, s._w, s._t, s._c = {}, {}, {}, {}
        s.must = defaultdict(set)      # key -> {(root, path)} waited for on all paths
        s.started, s.waitsites = {}, []
        s.pend = defaultdict(dict)     # key -> {(root, path): witness}: in flight when the function returns
        s.alarms, s.sites, s.direct, s.waitcalls, s.holders, s.undecided, s.counts = [], 0, 0, 0, 0, 0, 0
        s.samples = []
        for comp in eff.order:
            for k in comp:
                s.summ(k)

    def g(s, f):
        if f.key not in s.graph:
            s.graph[f.key] = paths.Graph(f, s.eff.fa[f.key])
        return s.graph[f.key]

    def waits(s, f, fa, j):
        r = s._w.get((f.key, j.id))
        if r is None:
            n = j.callee()
            a = set()
            t = s.p.target(j)
            if t is not None:
                for root, path in s.must.get(t.key, ()):
                    a |= s.tr(f, fa, j, root, path)
            elif n in WAIT:
                a |= fa.v(j.ops[WAIT[n][0]])
            r = s._w[(f.key, j.id)] = names(fa, a)
        return r

    def apart(s, f, i, j):
        """a loop of starts and a wait that use different parts of the same block of requests"""
        if i.callee() not in START or j.callee() not in WAIT or s.p.target(i) is not None or s.p.target(j) is not None:
            return False
        g = s.g(f)
        b = g.f.val.get(i.ops[START[i.callee()][0]]) if isinstance(i.ops[START[i.callee()][0]], int) else None
        ix = first(b)
        if ix is None or not any(i.bb in body for body in g.loops.values()):
            return False
        while ix in f.val and f.val[ix].op in ("sext", "zext", "trunc"):
            ix = f.val[ix].ops[0]
        if ix not in f.val or f.val[ix].op != "phi" or f.val[ix].bb not in g.loops and not any(f.val[ix].bb in body for body in g.loops.values()):
            return False
        a, w = s.part(f, b.ops[0]), s.part(f, j.ops[WAIT[j.callee()][0]])
        if a is None or w is None or a[0] != w[0] or a[1] == w[1]:
            return False
        n = WAIT[j.callee()][1]
        if n is None:
            return False
        cnt = g.canon(strip(f, j.ops[n])) if isinstance(j.ops[n], int) else None
        return w[1] is not None and a[1] is None or a[1] is not None and w[1] is None and a[1] == cnt

    def part(s, f, o):
        """(block, offset into it): offset None at its start"""
        d = f.val.get(o) if isinstance(o, int) else None
        if d is None:
            return None
        if isinstance(first(d), int):
            return d.ops[0], s.g(f).canon(strip(f, first(d)))
        return o, None

    def tr(s, f, fa, j, root, path):
        if root[0] == "P":
            if root[1] >= len(j.ops):
                return set()
            v = fa.v(j.ops[root[1]])
            return fa.walk(v, path) | {(a[0], a[1] + path) for a in v if a[0][0] not in ("N", "U", "F")}
        if root[0] == "R":
            return fa.walk({(("H", f.key, j.id), ())}, path) | {(("H", f.key, j.id), path)}
        if root[0] == "G":
            return {(root, path)}
        return set()

    def touches(s, f, fa, j):
        r = s._t.get((f.key, j.id))
        if r is None:
            if j.op == "load":
                r = (names(fa, fa.v(j.ops[0])), set())
            elif j.op == "store":
                r = (set(), names(fa, fa.v(j.ops[1])))
            elif j.callee() in own.REL or j.callee() in START or j.callee() in RESIZE:
                r = (set(), set())
            else:
                r = (names(fa, fa.insr(j)), names(fa, fa.insw(j)))
            s._t[(f.key, j.id)] = r
        return r

    def scalar(s, f, root):
        d = f.val.get(root[2]) if root[1] == f.key else None
        return d is not None and d.op == "alloca" and d.x.get("asz", 99) <= 48

    def alike(s, f, fa, i, j):
        """the very container a message was started on: the same local variable, or found by the same expression"""
        g = s.g(f)
        if any(a[0][0] == "A" and not ({"*", "[]"} & set(a[1])) and s.scalar(f, a[0]) for a in fa.v(j.ops[0])):
            return True
        n = i.callee()
        if n not in START:
            return False
        d = f.val.get(i.ops[START[n][1]]) if isinstance(i.ops[START[n][1]], int) else None
        while d is not None and d.op == "getelementptr" and d.ops[0] in f.val:
            d = f.val[d.ops[0]]
        if d is None or d.op != "load":
            return False
        e = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
        base = {d.ops[0]} if e is None else {d.ops[0], e.ops[0] if e.op == "getelementptr" else d.ops[0]}
        return j.ops[0] in base or any(isinstance(b, int) and g.addr(b) == g.addr(j.ops[0]) for b in base)

    def container(s, f, fa, j):
        r = s._c.get((f.key, j.id))
        if r is None:
            a = set()
            for x in fa.v(j.ops[0]):
                a |= {(x[0], x[1] + ARR)} | fa.load((x[0], x[1] + ARR[:1]))
            r = s._c[(f.key, j.id)] = names(fa, a)
        return r

    def outside(s, f, fa, ns):
        """names that callers can use"""
        out = set()
        ret = set()
        for b in f.reachable:
            t = f.blocks[b][-1]
            if t.op == "ret" and t.ops:
                ret |= fa.v(t.ops[0])
        for root, path in ns:
            if root[0] in ("P", "G"):
                out.add((root, path))
            for v in ret:
                if v[0] == root and root[0] == "H" and path[:len(v[1])] == v[1]:
                    out.add((("R",), path[len(v[1]):]))
        return out

    def summ(s, k):
        f, fa = s.p.fn[k], s.eff.fa[k]
        calls = [i for i in f.instrs() if i.op == "call" and i.bb in f.reachable and i.bb not in f.abortset]
        wcalls = [i for i in calls if s.waits(f, fa, i)]
        s.waitcalls += sum(1 for i in wcalls if i.callee() in WAIT)
        # sites
        sites = []
        for i in calls:
            n = i.callee()
            t = s.p.target(i)
            if t is None and n in START:
                s.direct += 1
                sites.append((i, names(fa, fa.v(i.ops[START[n][0]])), names(fa, fa.v(i.ops[START[n][1]])), "recv" in n, None))
            elif t is not None:
                for (root, path), (buf, recv) in s.pend.get(t.key, {}).items():
                    r = names(fa, s.tr(f, fa, i, root, path))
                    if r:
                        b = set()
                        for x in buf:
                            b |= s.tr(f, fa, i, *x)
                        sites.append((i, r, names(fa, b), recv, path))
        for i, req, buf, recv, via in sites:
            s.sites += 1
            w = Flight(s.g(f), s, i, req, buf, recv)
            kills = {j.bb for j in wcalls if s.waits(f, fa, j) & req and not s.apart(f, i, j)}
            w.force = s.forced(f, fa, i, wcalls, req)
            if not w.run(i, (), kills=kills):
                s.undecided += 1
            what = "the message started at" if via is None else "what is started by %s at" % i.callee()
            for j, why in (w.rel + w.touch)[:1]:
                s.alarms.append(("%s:%s:%s" % (f.name, why, i.callee()), "%s %s (%s): %s at %s before it is complete" % (what, i.where(), f.name, why, j.where())))
            if w.open is not None:
                o = s.outside(f, fa, req)
                if not o:
                    s.alarms.append(("%s:open:%s" % (f.name, i.callee()), "%s %s (%s) is not waited for on a path (lines %s) to the return at %s" % (
                        what, i.where(), f.name, paths.route(f, w.open[1]), w.open[0].where())))
                else:
                    loc = [b for b in buf if b[0][0] == "A"]
                    ob = frozenset(s.outside(f, fa, buf))
                    if loc and not ob:
                        s.alarms.append(("%s:local:%s" % (f.name, i.callee()), "%s %s (%s): the buffer is a local variable, but the message is in flight when the function returns" % (what, i.where(), f.name)))
                    for q in o:
                        b0, r0 = s.pend[k].get(q, (frozenset(), False))
                        s.pend[k][q] = (b0 | ob, r0 or recv)
            elif len(s.samples) < 6 and not (w.rel or w.touch):
                s.samples.append("%s %s (%s): completed on all paths" % (what, i.where(), f.name))
        s.started[k] = sites
        s.waitsites += [(f, fa, j) for j in wcalls if j.callee() in WAIT and WAIT[j.callee()][1] is not None]
        # waits on all paths
        cand = set()
        for j in wcalls:
            cand |= {n for n in s.waits(f, fa, j) if n[0][0] == "P"}
        for q in cand:
            w = Until(s.g(f), s, q)
            kl = {j.bb for j in wcalls if q in s.waits(f, fa, j)}
            w.force = s.forced(f, fa, None, wcalls, {q})
            if w.run(f.blocks[0][0], (), inclusive=True, kills=kl) and w.miss is None:
                s.must[k].add(q)

    def web(s, f, fa, o, arith=True):
        """values a variable takes: {value: blocks it is assigned in}"""
        out = defaultdict(set)
        st = [(o, None)]
        done = set()
        while st:
            o, b = st.pop()
            k = (o if isinstance(o, int) else repr(o), b)
            if k in done or len(done) > 200:
                continue
            done.add(k)
            if b is not None:
                out[o if isinstance(o, int) else repr(o)].add(b)
            d = f.val.get(o) if isinstance(o, int) else None
            if d is None:
                continue
            if d.op == "phi":
                out[o]
            else:
                out[o].add(d.bb)
            if d.op == "phi":
                st += [(v, p) for v, p in d.x["inc"]]
            elif d.op in ("sext", "zext", "trunc", "freeze"):
                st.append((d.ops[0], b))
            elif d.op in ("add", "sub") and arith:
                st += [(x, d.bb) for x in d.ops if isinstance(x, int)] if any(not isinstance(x, int) for x in d.ops) else []
            elif d.op == "select":
                st += [(x, d.bb) for x in d.ops[1:]]
            elif d.op == "load":
                e = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                if e is not None and e.op == "alloca":
                    st += [(u.ops[0], u.bb) for u in f.users[e.id] if u.op == "store" and u.ops[1] == e.id]
        return out

    def forced(s, f, fa, i, wcalls, req):
        """branches that ask whether there is anything to wait for: decided, as a message was started"""
        g = s.g(f)
        out = {}
        mine = [j for j in wcalls if s.waits(f, fa, j) & req]
        counts = [j.ops[WAIT[j.callee()][1]] for j in mine if j.callee() in WAIT and WAIT[j.callee()][1] is not None]
        cc = {g.canon(o) for o in counts if isinstance(o, int)}
        cw = set(cc)
        for o in counts:
            for v in s.web(f, fa, o):
                if isinstance(v, int):
                    cw.add(g.canon(v))
        for j in mine:
            for b in f.tcdeps[j.bb]:
                t = f.blocks[b][-1]
                su = t.x.get("succ", ())
                c = t.x.get("cond")
                if t.op != "br" or not isinstance(c, int) or len(su) != 2 or b in out:
                    continue
                r = [s.reach(f, x, b, j.bb) for x in su]
                if r[0] == r[1]:
                    continue
                d = f.val.get(c)
                if d is None or d.op != "icmp":
                    continue
                vs = [o for o in d.ops if isinstance(o, int)]
                if len(vs) != 1 or not asks(d):
                    continue
                w = s.web(f, fa, vs[0])
                ok = g.canon(vs[0]) in cc
                for v, bs in w.items():
                    if isinstance(v, int):
                        e = f.val.get(v)
                        if g.canon(v) in cw and g.canon(v)[0] != "c":
                            ok = True
                        if e is not None and e.op == "load":
                            for a in fa.v(e.ops[0]):
                                if a[1] and a[1][-1] == "sc_array.elem_count" and ((a[0], a[1][:-1] + ARR) in req or any(
                                        (x[0], x[1]) in req for x in fa.load((a[0], a[1][:-1] + ARR[:1])))):
                                    ok = True
                        if i is not None:
                            if any(f.tcdeps[x] == f.tcdeps[i.bb] and x != 0 and f.tcdeps[x] for x in bs):
                                ok = True
                if ok:
                    out[b] = 0 if r[0] else 1
        return out

    def factors(s, f, o, n=0):
        """product: (constant, factors)"""
        c = paths.cst(o)
        if c is not None:
            return c, ()
        d = f.val.get(o)
        if d is not None and n < 8:
            if d.op in ("sext", "zext", "trunc", "freeze"):
                return s.factors(f, d.ops[0], n + 1)
            if d.op == "mul" or d.op == "shl" and paths.cst(d.ops[1]) is not None:
                a, b = s.factors(f, d.ops[0], n + 1), s.factors(f, d.ops[1], n + 1)
                if d.op == "shl":
                    b = (1 << b[0], ())
                return a[0] * b[0], tuple(sorted(a[1] + b[1], key=repr))
        q = s.g(f).canon(o)
        # the same field is the same number, whatever object it is read from
        if q[0] == "ld" and isinstance(q[1], tuple) and q[2]:
            return 1, (("ld",) + tuple(sorted({a[1][-1:] for a in q[2]})),)
        return 1, (q,)

    def clamped(s, f, v):
        """a number cut at a constant: min or max of a value and a positive constant"""
        d = f.val.get(v)
        if d is None or d.op not in ("phi", "select"):
            return False
        vs = [x for x, _ in d.x["inc"]] if d.op == "phi" else d.ops[1:]
        cs = {paths.cst(x) for x in vs} - {None}
        if len(vs) != 2 or len(cs) != 1 or not 0 < list(cs)[0] < 2 ** 31:
            return False
        if d.op == "select":
            conds = [d.ops[0]]
        else:
            conds = [f.blocks[b][-1].x.get("cond") for b in f.tcdeps[d.bb] | {x for _, p in d.x["inc"] for x in f.tcdeps[p]} | {p for _, p in d.x["inc"]}]
        other = {x for x in vs if isinstance(x, int)}
        for c in conds:
            e = f.val.get(c) if isinstance(c, int) else None
            if e is not None and e.op == "icmp" and e.x["pred"][0] in "us" and {paths.cst(x) for x in e.ops} & cs:
                g = s.g(f)
                if {g.canon(x) for x in e.ops if isinstance(x, int)} & {g.canon(x) for x in other}:
                    return True
        return False

    def covers(s, f, fa, j, starts, cnt=None, depth=0):
        """the count of a wait is the number of requests there is room for, or counts the messages as they are started"""
        cnt = j.ops[WAIT[j.callee()][1]] if cnt is None else cnt
        where = s.waits(f, fa, j)
        if isinstance(cnt, int) and cnt < f.nargs and where and all(a[0][0] == "P" for a in where) and depth < 4:
            # a helper that is told how many there are: each of its calls counts
            sites = [(g, i) for g in s.p.functions() for i in g.instrs() if i.op == "call" and s.p.target(i) is f and i.bb not in g.abortset]
            return all(s.covers(g, s.eff.fa[g.key], i, [x for x, q, _, _, _ in s.started.get(g.key, ()) if q & s.waits(g, s.eff.fa[g.key], i)], i.ops[cnt], depth + 1) for g, i in sites)
        w = [v for v in s.web(f, fa, cnt, False)] + [cnt]
        if any(s.clamped(f, v) for v in w if isinstance(v, int)):
            return False
        fac = [s.factors(f, v) for v in w if isinstance(v, int)] + ([s.factors(f, cnt)] if not isinstance(cnt, int) else [])
        bases = {x[1] for x in fac if x[0]}
        for v in w:
            e = f.val.get(v) if isinstance(v, int) else None
            if e is not None and e.op == "load":
                for a in fa.v(e.ops[0]):
                    if a[1] and a[1][-1] == "sc_array.elem_count" and ((a[0], a[1][:-1] + ARR) in where or any(x in where for x in fa.load((a[0], a[1][:-1] + ARR[:1])))):
                        return True
            if e is not None and e.op == "add" and any(f.tcdeps[e.bb] == f.tcdeps[i.bb] for i in starts):
                return True
        for a in where:
            if a[0][0] == "A" and paths.cst(cnt) is not None:
                d = f.val.get(a[0][2])
                if d is None or d.x.get("asz") == 8 * paths.cst(cnt):
                    return True
            if a[0][0] == "H":
                for d in s.makers(f, a[0]):
                    for o in d.ops:
                        if s.factors(f, o)[1] in bases and s.factors(f, o)[1]:
                            return True
            if a[0][0] == "P" and a[1]:
                # made elsewhere: the same field gives the number there
                steps = [x for x in a[1] if x != "*"]
                if steps[-1] == "sc_array.array":
                    continue
                last = steps[-1]
                for h in s.p.functions():
                    ha = s.eff.fa[h.key]
                    for loc, vals in ha.M.items():
                        if loc[1] and loc[1][-1] == last:
                            for v in vals:
                                if v[0][0] == "H" and v[0][1] == h.key:
                                    for d in s.makers(h, v[0]):
                                        for o in d.ops:
                                            x = s.factors(h, o)[1]
                                            if x and (x in bases or any(s.fieldof(h, ha, y, bases) for y in d.ops)):
                                                return True
        return False

    def fieldof(s, h, ha, o, bases):
        """an operand whose value is also stored in one of the fields"""
        fs = {y[1][-1] for b in bases for y in b if y[0] == "ld" and len(y) == 2 and y[1]}
        d = h.val.get(o) if isinstance(o, int) else None
        for _ in range(6):
            if d is None:
                return False
            for u in h.users[d.id]:
                if u.op == "store" and u.ops[0] == d.id and any(a[1] and a[1][-1] in fs for a in ha.v(u.ops[1])):
                    return True
            nx = [x for x in d.ops if isinstance(x, int)]
            d = h.val.get(nx[0]) if nx and d.op in ("mul", "sext", "zext", "trunc", "shl", "freeze") else None
        return False

    def makers(s, f, root):
        if root[1] != f.key:
            return []
        d = f.val.get(root[2])
        if d is None:
            d = next((i for i in f.instrs() if i.id == root[2]), None)
        out = [d] if d is not None else []
        # room is made in the container at this place, too
        if d is not None and d.op == "call" and (d.callee() or "").startswith("sc_array"):
            k = {d.id} | {o for o in d.ops[:1] if isinstance(o, int)}
            out += [u for u in f.instrs() if u.op == "call" and u.callee() in ("sc_array_resize", "sc_array_init_count", "sc_array_new_count", "sc_array_push_count")
                    and u.ops and isinstance(u.ops[0], int) and u.ops[0] in k]
        return out

    def reach(s, f, x, b, t):
        if x == t:
            return True
        seen = {b}
        st = [x]
        while st:
            y = st.pop()
            if y in seen:
                continue
            seen.add(y)
            if y == t:
                return True
            st += f.succs(y)
        return False

    def finish(s):
        """what is in flight when an exported function returns is waited for before its holder is released"""
        for f, fa, j in s.waitsites:
            n = j.callee()
            s.counts += 1
            if not s.covers(f, fa, j, [i for i, q, _, _, _ in s.started[f.key] if q & s.waits(f, fa, j)]):
                s.alarms.append(("%s:count:%s" % (f.name, n), "%s (%s): the number of messages %s waits for is not the number that was provided for" % (j.where(), f.name, n)))
        need = defaultdict(set)
        bufs = defaultdict(set)
        for k, d in s.pend.items():
            f = s.p.fn[k]
            if f.internal:
                continue
            for (root, path), (buf, _) in d.items():
                if root[0] in ("R", "P") and path:
                    need[path].add(f.name)
                    bufs[path] |= {b[1] for b in buf if b[0] == root and b[1]}
        for path, who in sorted(need.items()):
            n = 0
            for f in s.p.functions():
                fa = s.eff.fa[f.key]
                for q in range(f.nargs):
                    nm = (("P", q), path)
                    st = set()
                    for i in f.instrs():
                        if i.op != "call" or i.bb in f.abortset or i.bb not in f.reachable:
                            continue
                        for a in s.own.released(f, fa, i):
                            b = a[1][:-1] if a[1] and a[1][-1] == "@" else a[1]
                            if a[0] == ("P", q) and b and (b == path[:len(b)] or any(b == x[:len(b)] for x in bufs[path])):
                                st.add(i)
                    if not st:
                        continue
                    wc = [j for j in f.instrs() if j.op == "call" and nm in s.waits(f, fa, j)]
                    if not wc:
                        continue
                    n += 1
                    s.holders += 1
                    w = Until(s.g(f), s, nm, st)
                    # a wait inside the releasing call itself comes first there
                    w.stop = {j for j in st if not (nm in s.waits(f, fa, j))}
                    w.force = s.forced(f, fa, None, wc, {nm})
                    w.run(f.blocks[0][0], (), inclusive=True, kills={j.bb for j in wc} | {j.bb for j in st})
                    if w.miss is not None:
                        s.alarms.append(("%s:holder:%s" % (f.name, path[0]), "%s (%s): %s, filled by %s, is released on a path without waiting for its messages" % (
                            w.miss.where(), f.name, ".".join(path), ", ".join(sorted(who)))))
            if n == 0:
                s.alarms.append(("holder:%s" % ".".join(path), "messages started by %s are in flight in %s when it returns, but no function waits for them" % (", ".join(sorted(who)), ".".join(path))))


def analyse(config):
    p = ir.Prog(config, inline=0)
    eff = effects.Effects(p)
    ck = Checker(p, eff)
    ck.finish()
    return {x: getattr(ck, x) for x in ("alarms", "sites", "direct", "waitcalls", "counts", "holders", "undecided", "samples")}


def run():
    c = harness.Check("C10", "Request and buffer analysis (points-to, path exploration with correlated branches): from every start of a non-blocking message, also those left in flight by a callee, "
                      "every path waits for its request before the request or the buffer is released, before the container of the buffer is changed and before the function returns, unless "
                      "the request is handed to the caller in an object that a completing function waits for before releasing it; the number of requests waited for is the number provided for.",
                      assumptions=["a branch that asks whether there is anything to wait for (the count of the wait, the length of the container of requests, a variable set where the message is "
                                   "started) is taken if a message was started", "a loop around MPI_Waitsome completes all requests given to it",
                                   "buffers that are elements of a container of buffers are told apart by the expression that finds them"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        c.good(r["sites"] + r["counts"] + r["holders"] - len(r["alarms"]) - r["undecided"])
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:3]
        c.floor("messages_" + config, r["direct"], 85)
        c.floor("messages_with_callees_" + config, r["sites"], 115)
        c.floor("waits_" + config, r["waitcalls"], 50)
        c.floor("completing_functions_" + config, r["holders"], 10)
        c.counts["counts_" + config] = r["counts"]
        c.counts["too_many_paths_" + config] = r["undecided"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
