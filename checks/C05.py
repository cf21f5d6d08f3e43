"""C05: what may be absent is looked at before it is used."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, ext, paths, optional
from collections import defaultdict

DEPTH = 9
ZERO = {"k": "null"}


class Null(paths.Walk):
    """paths on which some values and some memory are known to be NULL or zero"""

    after = None

    def __init__(s, g, ck, mem, depth, deep, cenv):
        super().__init__(g, 12000 if deep else 3000)
        s.ck, s.depth, s.deep, s.cenv = ck, depth, deep, cenv
        s.hits = []
        s.rfacts = None
        s.returns = False
        s.h = frozenset()

    def ev(s, c, env, facts, held, n=0):
        s.h = held
        return super().ev(c, env, facts, held, n)

    def num(s, o, env, n=0):
        if isinstance(o, int):
            if o in s.h:
                return 0
            if o in s.cenv:
                return s.cenv[o]
        return super().num(o, env, n)

    def nullcmp(s, a, b, held):
        if paths.cst(b) == 0 and s.isheld(a, held) or paths.cst(a) == 0 and s.isheld(b, held):
            return True
        return None

    def isheld(s, o, held):
        return isinstance(o, int) and o in held or s.deep and isinstance(o, dict) and o.get("k") == "null"

    def zero(s, o, held):
        return isinstance(o, int) and o in held or isinstance(o, dict) and o.get("k") == "null"

    def base(s, o):
        n = 0
        while isinstance(o, int) and n < 20:
            i = s.f.val.get(o)
            if i is None or i.op != "getelementptr":
                return o
            o = i.ops[0]
            n += 1
        return o

    def one(s, o):
        """the one address an operand stands for"""
        v = s.fa.v(o)
        if len(v) != 1:
            return None
        a = next(iter(v))
        return a if a[0][0] in ("P", "A", "H") else None

    def hit(s, i, what):
        s.hits.append((i, what))
        return True

    def step(s, i, held):
        if i.op in ("load", "store"):
            o = i.ops[0] if i.op == "load" else i.ops[1]
            b = s.base(o)
            if isinstance(b, int) and b in held:
                return s.hit(i, "%s" % ("read" if i.op == "load" else "written"))
        elif i.op == "call":
            c = i.x["callee"]
            if isinstance(c, int):
                return s.hit(i, "called") if c in held else False
            n = i.callee()
            t = s.ck.p.target(i)
            if t is None:
                for k, o in enumerate(i.ops):
                    b = s.base(o)
                    if isinstance(b, int) and b in held and s.isptr(b) and optional.needs(n, k) and not (
                            n.startswith("llvm.mem") and any(s.zero(x, held) or paths.cst(x) == 0 for x in i.ops[2:3])):
                        return s.hit(i, "passed to %s" % n)
                return False
            args = {}
            for k, o in enumerate(i.ops):
                b = s.base(o)
                if b != o and isinstance(b, int) and b in held:
                    args[k] = 0         # an element of nothing
                elif s.zero(o, held):
                    args[k] = 0
                else:
                    v = paths.cst(o)
                    if v is not None:
                        args[k] = v
            mem = set()
            m = {x[1] for x in held if isinstance(x, tuple)}
            if m:
                for a, at in s.ck.reach(s.f, s.fa, i, t):
                    if at in m:
                        mem.add(a)
                for k, o in enumerate(i.ops):
                    a = s.one(o)
                    if a is not None:
                        mem |= {(("P", k), x[1][len(a[1]):]) for x in m if x[0] == a[0] and x[1][:len(a[1])] == a[1] and len(x[1]) > len(a[1])}
            if (mem or any(v == 0 for v in args.values())) and s.depth < DEPTH:
                r = s.ck.run(t, args, mem, s.depth + 1)
                if r[0] is not None:
                    return s.hit(i, r[0])
                s.after = (i, r[2])
        return False

    def isptr(s, o):
        if o < s.f.nargs:
            return s.f.unit.types[s.f.params[o]["t"]] == "ptr"
        d = s.f.val.get(o)
        return d is None or d.t == "ptr"

    def end(s, i, held, trail):
        s.returns = True
        r = set()
        if s.f.rt == "ptr" and i.ops and isinstance(i.ops[0], int):
            v = s.fa.v(i.ops[0])
            if len(v) == 1:
                a = next(iter(v))
                if a[0][0] == "H" and not a[1]:
                    r = {x[1][1] for x in held if isinstance(x, tuple) and x[1][0] == a[0]}
        s.rfacts = r if s.rfacts is None else s.rfacts & r

    def grow(s, i, held):
        h = held
        if i.id in h:
            h = h - {i.id}
        if i.op == "load":
            a = s.one(i.ops[0])
            if a is not None and ("M", a) in h:
                return h | {i.id}
        elif i.op in ("store", "call"):
            w = s.g.writes(i)
            m = [x for x in h if isinstance(x, tuple)]
            if w and m:
                bad = [x for x in m if any(y[0] == x[1][0] and x[1][1][:len(y[1])] == y[1] for y in w)]
                if bad:
                    h = h - frozenset(bad)
            if i.op == "store" and s.zero(i.ops[0], h):
                a = s.one(i.ops[1])
                if a is not None and (a[0][0] == "A" or a[0][0] == "H" and s.derived(i.ops[0])) and s.plain(i.ops[1]):
                    h = h | {("M", a)}
            if i.op == "call" and s.after is not None and s.after[0] is i:
                if s.after[1] and i.t == "ptr":
                    root = ("H", s.f.key, i.id)
                    if s.fa.v(i.id) == {(root, ())}:
                        h = h | {("M", (root, x)) for x in s.after[1]}
                s.after = None
        elif i.op == "icmp" and (s.isheld(i.ops[0], h) or s.isheld(i.ops[1], h)):
            s.h = h
            v = s.ev(i.id, {}, {}, h)[0]
            if v is False:
                return h | {i.id}
        elif i.op in ("zext", "sext", "trunc") and s.isheld(i.ops[0], h):
            return h | {i.id}
        elif i.op in ("mul", "and") and any(s.isheld(x, h) for x in i.ops):
            return h | {i.id}
        elif i.op == "select":
            return h | {i.id} if s.zero(i.ops[1], h) and s.zero(i.ops[2], h) else h
        return super().grow(i, h)

    def derived(s, o, n=0):
        """absent because of what is assumed, not by a choice made on the way"""
        if not isinstance(o, int):
            return False
        i = s.f.val.get(o)
        if i is None:
            return True
        return n < 6 and i.op in ("icmp", "zext", "sext", "trunc") and any(s.derived(x, n + 1) for x in i.ops)

    def plain(s, o):
        """a field, not an element of an array"""
        i = s.f.val.get(o) if isinstance(o, int) else None
        if i is None:
            return False
        if i.op == "alloca":
            return True
        if i.op == "call":
            return i.t == "ptr"
        if i.op == "getelementptr":
            for x in i.x["gep"]["steps"]:
                if "s" not in x and paths.cst(x.get("i")) != 0:
                    return False
            return s.plain(i.ops[0])
        return False


class Checker:
    def __init__(s, p, eff):
        s.p, s.eff = p, eff
        s.graph = {}
        s.memo = {}
        s.rc = {}
        s.busy = set()
        s.undecided = 0
        s.ctx = 0

    def g(s, f):
        if f.key not in s.graph:
            s.graph[f.key] = paths.Graph(f, s.eff.fa[f.key])
        return s.graph[f.key]

    def reach(s, f, fa, i, t):
        """(address in the callee, address in the caller) for what a callee reads and that is one place"""
        k = (f.key, i.id)
        if k not in s.rc:
            r = []
            args = [fa.v(o) for o in i.ops]
            sm = s.eff.sums.get(t.key)
            for a in (sm.reads if sm else ()):
                if a[0][0] == "P" and a[1] and a[0][1] < len(args):
                    x = fa.walk(args[a[0][1]], a[1])
                    if len(x) == 1:
                        r.append((a, next(iter(x))))
            s.rc[k] = r
        return s.rc[k]

    def run(s, f, args, mem, depth):
        key = (f.key, frozenset(args.items()), frozenset(mem))
        if key in s.memo:
            return s.memo[key]
        if key in s.busy or f.blocks[0] is None:
            return (None, True, frozenset())
        s.busy.add(key)
        s.ctx += 1
        held = frozenset([k for k, v in args.items() if v == 0] + [("M", a) for a in mem])
        cenv = {k: v for k, v in args.items() if v != 0}
        res = (None, True, frozenset())
        kills = set()
        for rnd in range(8):
            deep = rnd > 1
            w = Null(s.g(f), s, mem, depth, deep, cenv)
            full = w.run(f.blocks[0][0], held, inclusive=True, kills=kills)
            res = (None, w.returns or not full, frozenset(w.rfacts or ()) if full else frozenset())
            if not w.hits:
                if not full:
                    s.undecided += 1
                break
            # what is found with all conditions remembered counts even if not all paths could be looked at
            i, what = w.hits[0]
            new = {x.bb for x, _ in w.hits} - kills
            if deep and not new:
                res = ("%s at %s (%s)" % (what, i.where(), f.name) if " at " not in what else "%s, called at %s" % (what, i.where()), w.returns, frozenset())
                break
            kills |= new
        s.busy.discard(key)
        s.memo[key] = res
        return res


def contexts(ck, config):
    """(function, args, mem, description)"""
    out = []
    p = ck.p
    for f in p.functions():
        if f.decl:
            continue
        doc = optional.documented(f.name)
        for ks in doc:
            if all(k < f.nargs for k in ks):
                out.append((f, {k: 0 for k in ks}, set(), "documented: " + ",".join("%s NULL" % f.pname(k) for k in ks), 1))
        if config == "release" and not f.internal:
            done = {ks[0] for ks in doc if len(ks) == 1} | {k for ks in doc if len(ks) > 1 for k in ks}
            for i in f.instrs():
                if i.op == "icmp" and i.bb in f.reachable:
                    for a, b in (i.ops, i.ops[::-1]):
                        if isinstance(a, int) and a < f.nargs and isinstance(b, dict) and b.get("k") == "null" and a not in done and not optional.required(f.name, a):
                            done.add(a)
                            out.append((f, {a: 0}, set(), "tested: %s NULL" % f.pname(a), 0))
        if config == "debug" and not f.internal:
            for k, st in optional.structs(p, f):
                for name, addrs in optional.absent(st):
                    if optional.required(f.name, name):
                        continue
                    mem = {(("P", k), a) for a in addrs}
                    out.append((f, {}, mem, "%s of %s absent" % (name, f.pname(k)), 0))
        if config == "debug":
            for name, root, path, mem in optional.bases(f, ck.eff.fa[f.key]):
                out.append((f, {}, mem, "%s of %s absent" % (name, effects.show((root, path), f)), 0))
    return out


def analyse(config):
    sys.setrecursionlimit(20000)
    p = ir.Prog(config, inline=0)
    eff = effects.Effects(p)
    ck = Checker(p, eff)
    out = {"alarms": [], "sites": 0, "samples": [], "kinds": defaultdict(int)}
    for f, args, mem, d, must in contexts(ck, config):
        out["sites"] += 1
        out["kinds"][d.split()[0] if args else "component"] += 1
        r, ret, _ = ck.run(f, args, mem, 0)
        if r is not None:
            out["alarms"].append(("%s:%s" % (f.name, d), "%s (%s), with %s: %s" % (f.relfile(), f.name, d, r)))
        elif must and not ret:
            out["alarms"].append(("%s:%s:rejected" % (f.name, d), "%s (%s), with %s: does not return" % (f.relfile(), f.name, d)))
    out["undecided"] = ck.undecided
    out["ctx"] = ck.ctx
    out["kinds"] = dict(out["kinds"])
    return out


def run():
    c = harness.Check("C05", "Nullness analysis: under each context (an argument documented or tested as optional is NULL; an optional component of an object is absent) the paths of the function and, "
                      "with what is known of their arguments, of the functions it calls are explored with correlated branches; none reads, writes or calls what is absent, "
                      "and with an argument documented as optional some path returns.",
                      assumptions=["other arguments are independent of the absent one unless lib/optional.py lists them together", "an assertion in the debug configuration states a precondition of components, not of documented arguments"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        c.good(r["sites"] - len(r["alarms"]))
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.floor("contexts_" + config, r["sites"], 700 if config == "debug" else 150)
        c.counts["kinds_" + config] = r["kinds"]
        c.counts["walked_" + config] = r["ctx"]
        c.counts["too_many_paths_" + config] = r["undecided"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
