"""Path exploration from an instruction to the exits of its function with correlated branches.  A state keeps the SSA values that
stand for the tracked object, the phis that were given constants, and the outcome of conditions that are asked again later;
edges into certain abort are not taken.  Used by the ownership, request and array-element checks."""
import ir
from collections import defaultdict

LIMIT = 30000
SW = {"sgt": ("slt", 1, 0), "ugt": ("ult", 1, 0), "sle": ("slt", 1, 1), "ule": ("ult", 1, 1), "sge": ("slt", 0, 1), "uge": ("ult", 0, 1),
      "slt": ("slt", 0, 0), "ult": ("ult", 0, 0), "eq": ("eq", 0, 0), "ne": ("eq", 0, 1)}


class Graph:
    """per function facts, computed once"""

    def __init__(s, f, fa):
        s.f, s.fa = f, fa
        s.loops = {}                 # header -> blocks
        for b in f.reachable:
            for t in f.lsuccs(b):
                if f.dominates(t, b):
                    body = s.loops.setdefault(t, {t})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body:
                            continue
                        body.add(x)
                        st.extend(p for p in f.preds[x] if p in f.reachable)
        s.inner = defaultdict(list)  # block -> headers of loops around it
        for h, body in s.loops.items():
            for b in body:
                s.inner[b].append(h)
        s._w, s._lw, s._ld = {}, {}, {}
        s.keys = defaultdict(int)
        s.bk = {}
        for b in f.reachable:
            t = f.blocks[b][-1]
            c = t.x.get("cond")
            if t.op == "br" and c is not None:
                for k in s.atoms(c):
                    s.keys[k] += 1

    def slice(s, kills):
        """(keys, phis) of the branches that decide whether one of the blocks is reached"""
        f = s.f
        bb = set()
        for b in kills:
            bb |= f.tcdeps[b]
        ks = set()
        for b in bb:
            c = f.blocks[b][-1].x.get("cond")
            if c is not None and f.blocks[b][-1].op == "br":
                ks |= set(s.atoms(c))
        return ks, s.relevant(bb)

    def relevant(s, bb):
        """phis that feed conditions"""
        f = s.f
        r = set()
        st = []
        for b in bb:
            t = f.blocks[b][-1]
            c = t.x.get("cond")
            if isinstance(c, int):
                st.append((c, 0))
        seen = set()
        while st:
            o, n = st.pop()
            if o in seen or n > 10:
                continue
            seen.add(o)
            i = f.val.get(o)
            if i is None:
                continue
            if i.op == "phi":
                if i.t != "ptr":
                    r.add(o)
                st.extend((v, n + 1) for v, _ in i.x["inc"] if isinstance(v, int))
            elif i.op in ("icmp", "zext", "sext", "trunc", "xor", "freeze", "and", "or", "add", "sub"):
                st.extend((v, n + 1) for v in i.ops if isinstance(v, int))
        return r

    def atoms(s, c, n=0):
        """keys of the comparisons a condition consists of"""
        i = s.f.val.get(c) if isinstance(c, int) else None
        if i is None or n > 8:
            return []
        if i.op == "phi" and i.t == "i1":
            return [k for v, _ in i.x["inc"] for k in s.atoms(v, n + 1)]
        if i.op in ("zext", "sext", "trunc", "freeze"):
            return s.atoms(i.ops[0], n + 1)
        if i.op in ("xor", "and", "or"):
            return [k for v in i.ops for k in s.atoms(v, n + 1)]
        if i.op == "icmp":
            a, b = i.ops
            if cst(b) == 0 and isinstance(a, int):
                d = s.f.val.get(a)
                if d is not None and d.op in ("zext", "xor", "and", "phi") and s.boolish(a):
                    return s.atoms(a, n + 1)
            k = s.key(i)
            return [k[0]] if k else []
        return [("v", c)]

    def boolish(s, o, n=0):
        d = s.f.val.get(o) if isinstance(o, int) else None
        if d is None:
            return cst(o) in (0, 1)
        if n > 5:
            return False
        if d.t == "i1":
            return True
        if d.op in ("zext", "sext", "freeze"):
            return s.boolish(d.ops[0], n + 1)
        if d.op in ("xor", "and", "or"):
            return all(s.boolish(x, n + 1) for x in d.ops)
        return False

    def canon(s, o, n=0):
        """term for an operand; equal terms are equal values while nothing is written in between"""
        if not isinstance(o, int):
            c = cst(o)
            return ("c", c) if c is not None else ("k", repr(o))
        i = s.f.val.get(o)
        if i is None or n > 6:
            return ("v", o)
        if i.op in ("sext", "zext", "trunc", "freeze"):
            return s.canon(i.ops[0], n + 1)
        if i.op == "load":
            return ("ld", s.addr(i.ops[0], n + 1), tuple(sorted(s.fa.v(i.ops[0]), key=repr)))
        if i.op in ("add", "sub", "mul", "and", "or", "sdiv", "srem", "shl"):
            return (i.op,) + tuple(s.canon(x, n + 1) for x in i.ops)
        return ("v", o)

    def addr(s, o, n=0):
        i = s.f.val.get(o) if isinstance(o, int) else None
        if i is not None and i.op == "getelementptr":
            st = []
            for x in i.x["gep"]["steps"]:
                st.append((repr(sorted((k, v) for k, v in x.items() if k != "i")), s.canon(x["i"], n + 1) if "i" in x else ()))
            return ("gep", s.addr(i.ops[0], n + 1)) + tuple(st)
        return s.canon(o, n + 1)

    def writes(s, i):
        """addresses an instruction may write"""
        w = s._w.get(i.id)
        if w is None:
            w = frozenset()
            if i.op == "store":
                w = frozenset(s.fa.v(i.ops[1]))
            elif i.op == "call":
                w = frozenset(s.fa.insw(i))
            s._w[i.id] = w
        return w

    def loopwrites(s, h):
        w = s._lw.get(h)
        if w is None:
            w = set()
            for b in s.loops[h]:
                for i in s.f.blocks[b]:
                    if i.op in ("store", "call"):
                        w |= s.writes(i)
            s._lw[h] = w
        return w

    def loads(s, q):
        r = s._ld.get(q)
        if r is None:
            r = s._ld[q] = frozenset(loads(q))
        return r

    def key(s, i):
        """(key, negated) of a comparison"""
        p = SW.get(i.x["pred"])
        if p is None:
            return None
        a, b = s.canon(i.ops[0]), s.canon(i.ops[1])
        if p[1]:
            a, b = b, a
        if p[0] == "eq" and repr(b) < repr(a):
            a, b = b, a
        # n < 1 is n <= 0
        if p[0] == "slt" and b == ("c", 1):
            return (("slt0", a), p[2])
        if p[0] == "slt" and a == ("c", 0):
            return (("slt0", b), 1 - p[2])
        return ((p[0], a, b), p[2])


def cst(o):
    if isinstance(o, dict):
        if o.get("k") == "null":
            return 0
        return ir.cval(o)
    return None


class Walk:
    def __init__(s, g, limit=LIMIT):
        s.g, s.f, s.fa = g, g.f, g.fa
        s.limit = limit

    deep = False    # follow what phis at loop heads start with, remember every condition
    force = {}      # branches taken in one direction only: block -> index of the successor
    vol = ()        # values that, when defined anew, end what -1 stands for in the held set

    # handler interface
    def step(s, i, held):
        """called for every instruction on the path; returns True to end the path"""

    def end(s, i, held, trail):
        """a return is reached"""

    def isheld(s, o, held):
        return isinstance(o, int) and o in held

    def nullcmp(s, a, b, held):
        """outcome of a == b for a held object and NULL, None when neither is involved"""
        if cst(b) == 0 and s.isheld(a, held) or cst(a) == 0 and s.isheld(b, held):
            return False
        return None

    def num(s, o, env, n=0):
        if not isinstance(o, int):
            return cst(o)
        if o in env:
            v = env[o]
            return v[1] if v[0] == "c" else (s.num(v[1], env, n + 1) if n < 6 else None)
        i = s.f.val.get(o)
        if i is not None and i.op in ("sext", "zext", "trunc", "freeze") and n < 6 and i.t != "i1":
            return s.num(i.ops[0], env, n + 1)
        return None

    def known(s, o, facts, env):
        """constant an operand is known to be equal to"""
        c = s.g.canon(o)
        if env:
            c = s.sub(c, env)
        if c[0] == "c":
            return c[1]
        for q, v in facts.items():
            if v and q[0] == "eq":
                if q[1] == c and q[2][0] == "c":
                    return q[2][1]
                if q[2] == c and q[1][0] == "c":
                    return q[1][1]
        return None

    def ev(s, c, env, facts, held, n=0):
        """(value or None, key to remember or None, negated)"""
        if not isinstance(c, int):
            v = cst(c)
            return (None if v is None else bool(v), None, 0)
        if n > 10:
            return (None, None, 0)
        if c in env:
            k, v = env[c]
            if k == "c":
                return (bool(v), None, 0)
            return s.ev(v, env, facts, held, n + 1)
        i = s.f.val.get(c)
        if i is None:
            return (None, None, 0)
        if i.op in ("zext", "sext", "freeze") or i.op == "trunc" and s.g.boolish(i.ops[0]):
            return s.ev(i.ops[0], env, facts, held, n + 1)
        if i.op == "xor" and cst(i.ops[1]) in (1, -1):
            v, k, g = s.ev(i.ops[0], env, facts, held, n + 1)
            return (None if v is None else not v, k, 1 - g)
        if i.op == "icmp":
            a, b = i.ops
            pr = i.x["pred"]
            if pr in ("eq", "ne"):
                r = s.nullcmp(a, b, held)
                if r is not None:
                    return (r if pr == "eq" else not r, None, 0)
            if cst(b) == 0 and pr in ("eq", "ne") and s.g.boolish(a):
                v, k, g = s.ev(a, env, facts, held, n + 1)
                if pr == "eq":
                    return (None if v is None else not v, k, 1 - g)
                return (v, k, g)
            x, y = s.num(a, env), s.num(b, env)
            if x is None and facts:
                x = s.known(a, facts, env)
            if y is None and facts:
                y = s.known(b, facts, env)
            if x is not None and y is not None:
                if pr[0] != "u" or x >= 0 and y >= 0:
                    pr = "s" + pr[1:] if pr[0] == "u" else pr
                    return ({"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y}[pr], None, 0)
            kk = s.g.key(i)
            if kk is None:
                return (None, None, 0)
            k, neg = kk
            if env:
                k = s.sub(k, env)
            if k in facts:
                return (facts[k] != bool(neg), None, 0)
            if k[0] == "eq" and y is not None or k[0] == "eq" and x is not None:
                # a == c1 known true decides a == c2
                for q, v in facts.items():
                    if v and q[0] == "eq" and q[1:] != k[1:] and ({q[1], q[2]} & {k[1], k[2]}):
                        com = {q[1], q[2]} & {k[1], k[2]}
                        o1, o2 = ({q[1], q[2]} - com), ({k[1], k[2]} - com)
                        if len(o1) == len(o2) == 1 and next(iter(o1))[0] == "c" and next(iter(o2))[0] == "c" and next(iter(com))[0] != "c":
                            return (False != bool(neg), None, 0)
            return (None, k, neg)
        k = ("v", c)
        if k in facts:
            return (facts[k], None, 0)
        return (None, k, 0)

    def sub(s, q, env, n=0):
        """a key with the phis replaced by what they stand for on this path"""
        if not isinstance(q, tuple) or n > 4:
            return q
        if len(q) == 2 and q[0] == "v":
            e = env.get(q[1])
            if e is None:
                return q
            return ("c", e[1]) if e[0] == "c" else s.sub(s.g.canon(e[1]), env, n + 1)
        r = tuple(s.sub(x, env, n) if isinstance(x, tuple) else x for x in q)
        if r != q and r[0] == "slt" and len(r) == 3:
            if r[1] == ("c", 0):
                return r
        return r

    def before(s, i):
        """facts that hold whenever i is reached: edges that dominate it"""
        f = s.f
        facts = {}
        b = i.bb
        while True:
            d = f.idom.get(b)
            if d is None or d == b:
                break
            t = f.blocks[d][-1]
            c = t.x.get("cond")
            su = t.x.get("succ", ())
            if t.op == "br" and c is not None and len(su) == 2 and su[0] != su[1]:
                for n, x in enumerate(su):
                    if f.dominates(x, i.bb) and all(p == d or f.dominates(x, p) for p in f.preds[x]):
                        # the branch is not re-evaluated on the way unless both lie in a loop that i does not share
                        v, k, g = s.ev(c, {}, facts, frozenset())
                        if k is not None:
                            facts[k] = (n == 0) != bool(g)
            b = d
        return facts

    def over(s, b, held):
        """nothing more can come of a path that gets here"""
        return False

    def run(s, start, held0=frozenset(), facts0=None, stopheaders=(), inclusive=False, kills=None):
        f, g = s.f, s.g
        facts = s.before(start)
        facts.update(facts0 or {})
        if kills is None:
            kills = range(len(f.blocks))
        relkeys, rel = g.slice(kills)
        st = [(start.bb, start.idx + (0 if inclusive else 1), frozenset(held0), frozenset(), frozenset(facts.items()), None)]
        seen = set()
        s.states = 0
        while st:
            b, k, held, env, fc, trail = st.pop()
            key = (b, k, held, env, fc)
            if key in seen:
                continue
            seen.add(key)
            s.states += 1
            if s.states > s.limit:
                return False
            blk = f.blocks[b]
            dead = False
            for j in range(k, len(blk)):
                i = blk[j]
                if i.op == "ret":
                    s.end(i, held, trail)
                    dead = True
                    break
                if i.op == "phi":
                    continue
                if s.step(i, held):
                    dead = True
                    break
                held = s.grow(i, held)
                if i.op in ("store", "call") and fc:
                    bad = [x for x in fc if g.loads(x[0]) and not g.loads(x[0]).isdisjoint(g.writes(i))]
                    if bad:
                        fc = fc - frozenset(bad)
            if dead:
                continue
            t = blk[-1]
            envd = dict(env)
            fd = dict(fc)
            outs = []
            c = t.x.get("cond")
            su = t.x.get("succ", ())
            if t.op == "br" and c is not None and len(su) == 2:
                v, kk, ng = s.ev(c, envd, fd, held)
                if b in s.force:
                    v, kk = s.force[b] == 0, None
                for n, x in enumerate(su):
                    if v is not None and v != (n == 0):
                        continue
                    nf = fd
                    if kk is not None and (kk in relkeys and g.keys.get(kk, 0) > 1 or kk in facts or s.deep):
                        nf = dict(fd)
                        nf[kk] = (n == 0) != bool(ng)
                    outs.append((x, nf))
            else:
                outs = [(x, fd) for x in dict.fromkeys(su)]
            for x, nf in outs:
                if x in f.abortset or x in stopheaders or s.over(x, held):
                    continue
                ne = envd
                nh = held
                ne2 = {}
                if x in g.loops and b in g.loops[x]:
                    # next iteration: forget what was computed in the loop
                    body = g.loops[x]
                    inl = lambda o: isinstance(o, int) and f.val.get(o) is not None and f.val[o].bb in body
                    ne = {o: v for o, v in envd.items() if not inl(o) and not (v[0] == "s" and inl(v[1]))}
                    nf = {q: v for q, v in nf.items() if not any(f.val[o].bb in body for o in vids(q) if o in f.val) and g.loads(q).isdisjoint(g.loopwrites(x))}
                h = set(nh)
                ch = False
                for i in f.blocks[x]:
                    if i.op != "phi":
                        break
                    if i.id in s.vol and -1 in h:
                        h.discard(-1)
                        ch = True
                    for v, p in i.x["inc"]:
                        if p == b:
                            if s.isheld(v, held):
                                h.add(i.id)
                                ch = True
                            elif i.id in h:
                                h.discard(i.id)
                                ch = True
                            if i.id in rel:
                                cv = s.num(v, envd)
                                if cv is not None:
                                    ne2[i.id] = ("c", cv)
                                elif isinstance(v, int) and (i.t == "i1" or x not in g.loops or s.deep and b not in g.loops[x]):
                                    ne2[i.id] = ("s", v)
                                else:
                                    ne2[i.id] = None
                            break
                if ne2:
                    ne = dict(ne)
                    for o, v in ne2.items():
                        if v is None:
                            ne.pop(o, None)
                        else:
                            ne[o] = v
                st.append((x, 0, frozenset(h) if ch else nh, frozenset(ne.items()), frozenset(nf.items()), (b, trail)))
        return True

    def grow(s, i, held):
        """values that stand for the object as well"""
        if i.op in ("bitcast", "freeze", "ptrtoint", "inttoptr", "addrspacecast") and s.isheld(i.ops[0], held):
            return held | {i.id}
        if i.op == "select" and (s.isheld(i.ops[1], held) or s.isheld(i.ops[2], held)):
            return held | {i.id}
        return held


def vids(q):
    r = []
    if isinstance(q, tuple):
        if len(q) == 2 and q[0] == "v" and isinstance(q[1], int):
            r.append(q[1])
        else:
            for x in q:
                r += vids(x)
    return r


def loads(q):
    r = []
    if isinstance(q, tuple):
        if len(q) == 3 and q[0] == "ld":
            r += q[2]
            r += loads(q[1])
        else:
            for x in q:
                r += loads(x)
    return r


def route(f, trail, last=None):
    """source lines along a path"""
    bs = []
    while trail is not None:
        bs.append(trail[0])
        trail = trail[1]
    out = []
    for b in reversed(bs):
        t = f.blocks[b][-1]
        if t.op == "br" and t.x.get("cond") is not None and t.line:
            w = str(t.line)
            if not out or out[-1] != w:
                out.append(w)
    return ",".join(out[-14:])
