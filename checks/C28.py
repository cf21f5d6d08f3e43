"""C28: the user data of a leaf lives as long as the leaf."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, paths, sym

FREED, PASSED, NEW = -21, -22, -23
LIST = ("sc_list_append", "sc_list_prepend")


class Events:
    """what gives a leaf its data and what takes it away, found by what functions do"""

    def __init__(s, p, eff):
        s.p, s.eff = p, eff
        s.init, s.free, s.take = {}, {}, set()
        for f in p.functions():
            fa = eff.fa[f.key]
            S = sym.Sym(f)
            for i in f.instrs():
                if i.op != "call":
                    continue
                if i.callee() == "sc_mempool_alloc":
                    if any(u.op == "ret" for u in f.users[i.id]):
                        s.take.add(f.key)
                    for u in f.users[i.id]:
                        if u.op == "store" and u.ops[0] == i.id:
                            rt, t, fl = S.addr(u.ops[1])
                            if rt[0] == "P" and len(fl) == 1 and fl[0].endswith("_quadrant.p"):
                                s.init[f.key] = rt[1]
                elif i.callee() == "sc_mempool_free" and len(i.ops) > 1:
                    for a in fa.v(i.ops[1]):
                        if a[0][0] == "P" and len(a[1]) == 2 and a[1][0].endswith("_quadrant.p"):
                            s.free[f.key] = a[0][1]
        # a function that gives back the data of its parameter whenever it returns
        for _ in range(3):
            for f in p.functions():
                if f.key in s.free or f.key in s.init:
                    continue
                for i, x in s.calls(f, s.free):
                    q = [k for k in range(f.nargs) if k == x]
                    if q and i.bb in f.reachable:
                        rets = {j.bb for j in f.instrs() if j.op == "ret" and j.bb in f.reachable and j.bb not in f.abortset}
                        sites = {j.bb for j, y in s.calls(f, s.free) if y == x}
                        seen, work = {0}, [0]
                        while work:
                            b = work.pop()
                            if b in sites:
                                continue
                            for t in f.succs(b):
                                if t not in seen and t not in f.abortset:
                                    seen.add(t)
                                    work.append(t)
                        if rets and not (seen - sites) & rets:
                            s.free[f.key] = q[0]

    def calls(s, f, what):
        out = []
        for i in f.instrs():
            if i.op == "call" and i.bb in f.reachable and i.bb not in f.abortset:
                t = s.p.target(i)
                k = what.get(t.key) if t is not None else None
                if k is not None and k < len(i.ops) and isinstance(i.ops[k], int):
                    out.append((i, i.ops[k]))
        return out


class Fn:
    def __init__(s, ev, f):
        s.ev, s.f = ev, f
        s.fa = ev.eff.fa[f.key]
        s.g = paths.Graph(f, s.fa)
        s.init = {i.id: x for i, x in ev.calls(f, ev.init)}
        s.free = {i.id: x for i, x in ev.calls(f, ev.free)}
        s.cb = [i for i in f.instrs() if i.op == "call" and i.callee() is None and i.bb in f.reachable and i.bb not in f.abortset and len(i.ops) > 1]

    def root(s, o):
        """(variable the pointer was read from or points to, index or None)"""
        idx = 0
        for _ in range(12):
            i = s.f.val.get(o) if isinstance(o, int) else None
            if i is None:
                return None
            if i.op == "alloca":
                return (o, idx)
            if i.op == "getelementptr":
                for t in i.x["gep"]["steps"]:
                    c = paths.cst(t["i"]) if "i" in t and not isinstance(t["i"], int) else None
                    if "e" in t or c is None:
                        idx = None
                    elif c and idx is not None:
                        idx += c
                o = i.ops[0]
            elif i.op in ("bitcast", "freeze"):
                o = i.ops[0]
            else:
                return None
        return None

    def refills(s, var):
        """first instructions of loops that store all elements of a variable"""
        out = set()
        for i in s.f.instrs():
            if i.op == "store" and s.g.inner.get(i.bb):
                r = s.root(i.ops[1])
                if r == (var, None):
                    for h in s.g.inner[i.bb]:
                        tails = [x for x in s.f.preds[h] if x in s.g.loops[h]]
                        if all(s.f.dominates(i.bb, x) for x in tails):
                            j = next((x for x in s.f.blocks[h] if x.op != "phi"), None)
                            if j is not None:
                                out.add((j.id, j.bb, h))
        return out

    def slot(s, o):
        """(local variable, index) a leaf's address was read from"""
        i = s.f.val.get(o) if isinstance(o, int) else None
        if i is not None and i.op == "load" and i.t == "ptr":
            return s.root(i.ops[0])
        return None

    def replaces(s, i):
        return i in s.cb and len(i.ops) in (6, 10) and sum(isinstance(o, int) for o in i.ops) >= 3

    def seen(s, i):
        """leaves, and variables with addresses of leaves, that a call-back gets"""
        out = set()
        for o in i.ops:
            if isinstance(o, int):
                out.add(o)
                r = s.root(o)
                if r is not None:
                    out.add(r[0])
        return out

    def stored(s, var):
        """addresses of leaves stored in a variable"""
        out = []
        for i in s.f.instrs():
            if i.op == "store" and isinstance(i.ops[0], int):
                r = s.root(i.ops[1])
                if r is not None and r[0] == var:
                    out.append((i, i.ops[0]))
        return out

    def region(s, i, blocks):
        """header of the innermost loop with the instruction and one of the blocks"""
        best = None
        for h in s.g.inner.get(i.bb, ()):
            body = s.g.loops[h]
            if body & blocks and (best is None or len(body) < len(s.g.loops[best])):
                best = h
        return best

    def marks(s, region):
        """blocks in which data is given back for certain, loops over all outgoing leaves included"""
        out = {}
        body = s.g.loops.get(region, s.f.reachable)
        for k in s.free:
            b = s.byid(k).bb
            if any(s.g.loops[h] < body and any(c.bb in s.g.loops[h] for c in s.cb if s.replaces(c)) for h in s.g.inner.get(b, ()) if h != region):
                continue
            out.setdefault(b, set()).add(k)
            for h in s.g.inner.get(b, ()):
                lb = s.g.loops[h]
                if h != region and lb <= body and lb != body:
                    tails = [x for x in s.f.preds[h] if x in lb]
                    if all(s.f.dominates(b, x) for x in tails):
                        out.setdefault(h, set()).add(k)
        return out

    def byid(s, k):
        return next(i for i in s.f.instrs() if i.id == k)


class Leaf(paths.Walk):
    """follows a leaf by its address, and by the variable the address was read from"""

    def __init__(s, fn, src, x):
        super().__init__(fn.g, 8000)
        s.fn, s.src, s.x = fn, src, x
        s.slot = fn.slot(x)
        s.hit = None
        s.held0 = {x} | ({PASSED} if s.slot is not None else set())
        s.refill = set()
        if s.slot is not None and s.slot[1] is None:
            s.refill = {(a, b) for a, b, h in fn.refills(s.slot[0]) if src.bb not in fn.g.loops[h]}

    def grow(s, i, held):
        if i.id in held and i.op not in ("phi", "alloca"):
            held = held - {i.id}
        if PASSED in held:
            if i.op == "store":
                r = s.fn.root(i.ops[1])
                if r is not None and r[0] == s.slot[0] and (r[1] is None or s.slot[1] is None or r[1] == s.slot[1]):
                    held = held - {PASSED}
            elif i.op == "load" and i.t == "ptr" and s.fn.root(i.ops[0]) == s.slot:
                held = held | {i.id}
            if (i.id, i.bb) in s.refill:
                held = held - {PASSED}
        return super().grow(i, held)


class Dead(Leaf):
    """from where data is given back: no call-back gets the leaf, and the data is not given back again"""

    def step(s, i, held):
        if not held:
            return True
        if i.op == "call":
            if s.fn.init.get(i.id) in held:
                return True
            if s.fn.free.get(i.id) in held:
                if i is not s.src:
                    s.hit = (i, "given back again")
                return True
            if i in s.fn.cb:
                seen = s.fn.seen(i)
                hit = seen & held or PASSED in held and s.slot[0] in seen
                for v in seen:
                    st = s.fn.stored(v)
                    hit = hit or st and all(x in held for _, x in st)
                if hit:
                    s.hit = (i, "shown to a call-back")
                    return True
            if (i.callee() or "").startswith("llvm.mem") and i.ops[0] in held:
                return True
        return i.op == "store" and i.ops[1] in held

    def grow(s, i, held):
        if i.op == "call" and (i.callee() or "").startswith("llvm.memcpy") and i.ops[1] in held and isinstance(i.ops[0], int):
            held = held | {i.ops[0]}
        return super().grow(i, held)


class Lost(Leaf):
    """from where a leaf gets its data: not overwritten before the leaf was copied or its data given back"""

    def step(s, i, held):
        if not held or i is s.src:
            return True
        if i.op == "call":
            n = i.callee() or ""
            if n.startswith(("llvm.memcpy", "llvm.memmove")):
                if i.ops[0] in held and i.ops[1] not in held:
                    s.hit = i
                return i.ops[0] in held or i.ops[1] in held
            if s.fn.free.get(i.id) in held:
                return True
            if s.fn.init.get(i.id) in held:
                s.hit = i
                return True
            if not n.startswith("llvm.") and i.callee() is not None and any(o in held for o in i.ops if isinstance(o, int)):
                return True
        if i.op == "load" and i.t == "ptr":
            d = s.f.val.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            return d is not None and d.op == "getelementptr" and d.ops[0] in held
        return False


class Late(paths.Walk):
    """after a call-back has seen a new leaf it is not given its data"""

    def __init__(s, fn, src):
        super().__init__(fn.g, 8000)
        s.fn, s.src = fn, src
        s.vars = set()
        for o in src.ops:
            if isinstance(o, int):
                r = fn.root(o)
                if r is not None:
                    s.vars.add(r[0])
        s.hit = None

    def step(s, i, held):
        if not held or i is s.src:
            return True
        if i.op == "call" and i.id in s.fn.init:
            x = s.fn.init[i.id]
            t = s.fn.slot(x)
            if x in held or t is not None and -1000 - t[0] in held:
                s.hit = i
                return True
        return False

    def grow(s, i, held):
        if i.op == "store":
            r = s.fn.root(i.ops[1])
            if r is not None:
                held = held - {-1000 - r[0]}
        if i.id in held and i.op != "phi":
            held = held - {i.id}
        return super().grow(i, held)


class Turn(paths.Walk):
    """one turn of the loop that replaces leaves: the data is given back exactly once"""

    def __init__(s, fn, region, marks, gate=None):
        super().__init__(fn.g, 12000)
        s.fn, s.region, s.gate = fn, region, gate
        s.first = {}
        s.own = set().union(*marks.values()) if marks else set()
        for b, ks in marks.items():
            if b in fn.g.loops:
                i = next((x for x in s.f.blocks[b] if x.op != "phi"), None)
                if i is not None:
                    s.first[i.id, i.bb] = ks
        s.body = fn.g.loops.get(region)
        s.miss = s.twice = None

    def finish(s, i, held):
        if PASSED in held and not any(h <= -5000 for h in held):
            s.miss = s.miss or i

    def grow(s, i, held):
        if i.bb == s.gate and i is s.f.blocks[i.bb][-1]:
            held = held | {PASSED}
        ks = s.first.get((i.id, i.bb))
        if i.id in s.own:
            ks = {i.id}
        for k in ks or ():
            for h in held:
                if h <= -5000 and h != -5000 - k and s.fn.byid(-5000 - h).bb != s.fn.byid(k).bb:
                    s.twice = s.twice or (s.fn.byid(-5000 - h), s.fn.byid(k))
            held = held | {-5000 - k}
        return held

    def end(s, i, held, trail):
        s.finish(i, held)

    def over(s, b, held):
        if b == s.region or s.body is not None and b not in s.body:
            s.finish(s.f.blocks[b][-1], held)
            return True
        return False

    def nullcmp(s, a, b, held):
        return None


def function(ev, f, out):
    fn = Fn(ev, f)
    if not fn.init and not fn.free:
        return
    for k, x in fn.free.items():
        i = fn.byid(k)
        out["free"] += 1
        w = Dead(fn, i, x)
        out["undecided"] += not w.run(i, w.held0)
        if w.hit is not None:
            out["alarms"].append(("%s:%s" % (f.name, w.hit[1].split()[0]), "%s (%s): the leaf whose data is given back here is %s at %s" % (i.where(), f.name, w.hit[1], w.hit[0].where())))
        elif len(out["samples"]) < 3:
            out["samples"].append("%s (%s): not seen by a call-back nor given back again" % (i.where(), f.name))
    for k, x in fn.init.items():
        i = fn.byid(k)
        out["init"] += 1
        w = Lost(fn, i, x)
        out["undecided"] += not w.run(i, w.held0)
        if w.hit is not None:
            out["alarms"].append(("%s:lost" % f.name, "%s (%s): the data the leaf gets here is lost when the leaf is overwritten at %s" % (i.where(), f.name, w.hit.where())))
    sites = [i for i in fn.cb if fn.replaces(i)]
    for i in sites:
        w = Late(fn, i)
        held = {-1000 - v for v in w.vars}
        for v in w.vars:
            held |= {x for _, x in fn.stored(v)}
        out["seen"] += 1
        out["undecided"] += not w.run(i, held)
        if w.hit is not None:
            out["alarms"].append(("%s:late" % f.name, "%s (%s): the call-back sees a leaf that gets its data later, at %s" % (i.where(), f.name, w.hit.where())))
    if not fn.free:
        return
    # replacing by call-back, directly or in a function that gives back the data itself
    blocks = {fn.byid(k).bb for k in fn.free}
    ptrs = {}
    for i in sites:
        ptrs[i.id] = (i, i.x["callee"])
    for k in fn.free:
        i = fn.byid(k)
        for o in i.ops:
            if isinstance(o, int) and (f.val.get(o) is None) and o != fn.free[k] and len(i.ops) > 4:
                ptrs[i.id] = (i, o)
    for i, v in ptrs.values():
        region = fn.region(i, blocks)
        marks = fn.marks(region)
        out["turns"] += 1
        if i.id not in fn.free:
            w = Turn(fn, region, marks)
            out["undecided"] += not w.run(i, {PASSED})
            if w.miss is not None:
                out["alarms"].append(("%s:kept" % f.name, "%s (%s): after this replacement call-back the data of the outgoing leaves is not given back" % (i.where(), f.name)))
        # a whole turn: with the call-back, and without
        start = f.blocks[region][0] if region is not None else f.blocks[0][0]
        w = Turn(fn, region, marks, i.bb)
        out["undecided"] += not w.run(start, (), inclusive=True, kills=set(marks) | {i.bb})
        if w.twice is not None:
            out["alarms"].append(("%s:twice" % f.name, "%s (%s): data of outgoing leaves is given back here and again at %s" % (w.twice[0].where(), f.name, w.twice[1].where())))
        if w.miss is not None:
            out["alarms"].append(("%s:kept" % f.name, "%s (%s): a replacement is made here without giving back the data of the outgoing leaves" % (i.where(), f.name)))
        facts = fn.g and Turn(fn, region, marks).before(i)
        for q, val in facts.items():
            if not val and q[0] == "eq" and ("c", 0) in q[1:] and callback(fn, q, v):
                gate = gateof(fn, q, i)
                if gate is None:
                    continue
                out["gates"] += 1
                region2 = region
                if region is not None and gate not in fn.g.loops[region]:
                    region2 = fn.region(f.blocks[gate][-1], blocks)
                marks2 = fn.marks(region2)
                start = f.blocks[region2][0] if region2 is not None else f.blocks[0][0]
                w = Turn(fn, region2, marks2, gate)
                w.deep = True
                out["undecided"] += not w.run(start, (), facts0={q: True}, inclusive=True, kills=set(marks2) | {gate})
                if w.miss is not None:
                    out["alarms"].append(("%s:nocallback" % f.name, "%s (%s): without a replacement call-back the data of the outgoing leaves is not given back" % (f.blocks[gate][-1].where(), f.name)))


class Pools:
    """data is taken from and given back to a forest's pool only where the forest has one"""

    def __init__(s, p, eff):
        s.p, s.eff = p, eff
        s.sites, s.bad = [], []
        s.callers = {}
        for f in p.functions():
            for i in f.instrs():
                if i.op == "call" and i.bb in f.reachable and i.bb not in f.abortset:
                    t = p.target(i)
                    if t is not None:
                        s.callers.setdefault(t.key, []).append((f, i))
        for f in p.functions():
            fa = eff.fa[f.key]
            for i in f.instrs():
                if i.op == "call" and i.callee() in ("sc_mempool_alloc", "sc_mempool_free") and i.bb in f.reachable and i.bb not in f.abortset and isinstance(i.ops[0], int):
                    d = f.val.get(i.ops[0])
                    if d is not None and d.op == "load" and s.field(f, d.ops[0], (".user_data_pool",)):
                        s.sites.append((f, i))
                        if not s.guarded(f, i, 0):
                            s.bad.append((f, i))

    def field(s, f, o, names):
        return isinstance(o, int) and any(a[1] and a[1][-1].endswith(names) for a in s.eff.fa[f.key].v(o))

    def guarded(s, f, i, n):
        if s.block(f, i.bb, 0):
            return True
        if not f.internal or n > 3:
            return False
        cs = s.callers.get(f.key, ())
        return bool(cs) and all(s.guarded(g, j, n + 1) for g, j in cs)

    def block(s, f, b, n):
        """is the pool known to be there whenever the block is reached?"""
        if n > 6:
            return False
        x = b
        while True:
            d = f.idom.get(x)
            ps = [q for q in f.preds[x] if not f.dominates(x, q)]
            if ps and x != 0 and all(s.edge(f, q, x, n + 1) for q in ps):
                return True
            if d is None or d == x:
                return False
            x = d

    def edge(s, f, b, x, n):
        t = f.blocks[b][-1]
        c, su = t.x.get("cond"), t.x.get("succ", ())
        if t.op == "br" and c is not None and len(su) == 2 and su[0] != su[1]:
            return s.implies(f, c, su[0] == x, n)
        return False

    def data(s, f, o):
        """a forest's data size or pool"""
        for _ in range(4):
            d = f.val.get(o) if isinstance(o, int) else None
            if d is not None and d.op in ("zext", "sext", "trunc", "freeze"):
                o = d.ops[0]
        if not isinstance(o, int):
            return False
        if d is not None and d.op == "load" and s.field(f, d.ops[0], (".data_size", ".user_data_pool")):
            return True
        return any(u.op == "store" and u.ops[0] == o and s.field(f, u.ops[1], (".data_size",)) for u in f.users[o])

    def implies(s, f, c, truth, n):
        d = f.val.get(c) if isinstance(c, int) else None
        if d is None or n > 12:
            return False
        if d.op in ("zext", "sext", "trunc", "freeze"):
            return s.implies(f, d.ops[0], truth, n + 1)
        if d.op == "xor" and paths.cst(d.ops[1]) in (1, -1):
            return s.implies(f, d.ops[0], not truth, n + 1)
        if d.op in ("and", "or") and truth == (d.op == "and"):
            return any(s.implies(f, o, truth, n + 1) for o in d.ops)
        if d.op == "select":
            a, b = d.ops[1:3]
            if truth and paths.cst(b) == 0:
                return s.implies(f, d.ops[0], True, n + 1) or s.implies(f, a, True, n + 1)
            return False
        if d.op == "icmp":
            x, y = d.ops
            pr = d.x["pred"]
            if not isinstance(x, int):
                x, y = y, x
                pr = pr.translate(str.maketrans("gl", "lg"))
            z = 0 if str(y).find("null") >= 0 else paths.cst(y)
            if not isinstance(x, int):
                return False
            if z == 0 and pr in ("ne", "ugt", "sgt") or z == 1 and pr in ("uge", "sge"):
                pos = True
            elif z == 0 and pr in ("eq", "ule", "sle") or z == 1 and pr in ("ult", "slt"):
                pos = False
            else:
                return False
            return pos == truth and (s.data(f, x) or s.implies(f, x, True, n + 1))
        if d.op == "call":
            t = s.p.target(d)
            rs = [r for r in t.instrs() if r.op == "ret" and r.bb in t.reachable] if t is not None else ()
            return bool(rs) and all(r.ops and (truth and paths.cst(r.ops[0]) == 0 or s.implies(t, r.ops[0], truth, n + 3) or s.block(t, r.bb, n + 3)) for r in rs)
        if d.op == "phi" and truth:
            for v, b in d.x["inc"]:
                if paths.cst(v) == 0 or b in f.abortset or b not in f.reachable:
                    continue
                if s.edge(f, b, d.bb, n + 1) or s.block(f, b, n + 1) or s.implies(f, v, True, n + 1):
                    continue
                return False
            return True
        return False


def callback(fn, q, v):
    """does a condition compare the call-back with NULL?"""
    c = fn.g.canon(v)
    return c in q[1:]


def gateof(fn, q, i):
    """the branch on the condition that decides about the call"""
    f = fn.f
    best = None
    for b in f.reachable:
        t = f.blocks[b][-1]
        c = t.x.get("cond")
        if t.op == "br" and c is not None and len(t.x.get("succ", ())) == 2 and f.dominates(b, i.bb) and isinstance(c, int):
            d = f.val.get(c)
            k = fn.g.key(d) if d is not None and d.op == "icmp" else None
            if k is not None and k[0] == q and (best is None or f.dominates(best, b)):
                best = b
    return best


def analyse(config):
    p = ir.Prog(config, inline=401)
    eff = effects.Effects(p)
    ev = Events(p, eff)
    out = {"alarms": [], "samples": [], "free": 0, "init": 0, "seen": 0, "turns": 0, "gates": 0, "undecided": 0,
           "names": sorted({k.split(":")[-1] for k in ev.init} | {k.split(":")[-1] for k in ev.free})}
    for f in p.functions():
        function(ev, f, out)
    po = Pools(p, eff)
    out["pools"] = len(po.sites)
    out["alarms"] += [("%s:pool" % f.name, "%s (%s): leaf data is taken from or given back to the forest's pool where the forest may have no pool since its data size is zero" % (i.where(), f.name))
                      for f, i in po.bad]
    return out


def run():
    c = harness.Check("C28", "Typestate of leaf data (points-to, path exploration with correlated branches): between giving back the data of a leaf and giving it new data no call-back gets the leaf and "
                      "the data is not given back again; new data is not overwritten; leaves seen by a replacement call-back do not get their data later; every turn of a replacing loop gives back "
                      "the outgoing data exactly once, with and without the call-back.",
                      assumptions=["loops over the members of a family or the layers of a column are complete"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        n = r["free"] + r["init"] + r["seen"] + r["turns"] + r["gates"] + r["pools"]
        c.good(n - len(r["alarms"]) - r["undecided"])
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"]
        c.samples.append("data is given and taken by " + ", ".join(r["names"]))
        for k, m in (("free", 20), ("init", 30), ("seen", 8), ("turns", 8), ("gates", 6), ("pools", 8)):
            c.floor(k + "_" + config, r[k], m)
        c.counts["too_many_paths_" + config] = r["undecided"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
