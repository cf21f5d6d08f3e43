"""C26: what was released is not used again."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, ext, own, paths
from collections import defaultdict

MEM = -1        # pseudo value: the variable the pointer was read from still holds it


class Must(paths.Walk):
    """does a function release what a parameter points to on all paths?"""

    def __init__(s, g, k, kills):
        super().__init__(g)
        s.k, s.kl = k, kills
        s.miss = False

    def step(s, i, held):
        return i.id in s.kl

    def end(s, i, held, trail):
        s.miss = True


class After(paths.Walk):
    def __init__(s, g, ck, i, v):
        super().__init__(g, 6000)
        s.ck, s.src, s.v = ck, i, v
        d = s.f.val.get(v)
        s.addr = s.pts = None
        s.ids = set()
        if d is not None and d.op == "load":
            s.addr = g.addr(d.ops[0])
            s.pts = s.fa.v(d.ops[0])
            s.ids = set(paths.vids(s.addr))
            s.vol = s.ids
            # the variable may have got another value before the release
            before = {x.id for x in s.f.reach_from(d, stop=lambda y: y is i)}
            if i.id in before:
                for x in s.f.instrs():
                    if x.id in before and x.op in ("store", "call") and x is not i and not s.pts.isdisjoint(g.writes(x)) and any(
                            y is i for y in s.f.reach_from(x, stop=lambda y: y is d)):
                        s.addr = s.pts = None
                        break
        s.hits = []

    def nullcmp(s, a, b, held):
        if s.src.id in (a, b) and paths.cst(a if b == s.src.id else b) == 0:
            return False        # realloc has released the old memory only if it returned new memory
        return super().nullcmp(a, b, held)

    def base(s, o):
        n = 0
        while isinstance(o, int) and n < 20:
            i = s.f.val.get(o)
            if i is None or i.op != "getelementptr":
                return o
            o = i.ops[0]
            n += 1
        return o

    def step(s, i, held):
        if i.op in ("load", "store"):
            b = s.base(i.ops[0] if i.op == "load" else i.ops[1])
            if isinstance(b, int) and b in held:
                s.hits.append((i, "read" if i.op == "load" else "written"))
                return True
        elif i.op == "call":
            n = i.callee() or "a call-back"
            if n.startswith("llvm.") and not n.startswith("llvm.mem"):
                return False
            for o in i.ops:
                if isinstance(o, int) and s.base(o) in held:
                    s.hits.append((i, "released again" if o in s.ck.gives(s.f, i) else "passed to %s" % n))
                    return True
        return not held

    def grow(s, i, held):
        h = held
        if i.id in h and i.op != "phi":
            h = h - {i.id}
        if MEM in h:
            if i.op == "load" and i.t == "ptr" and s.g.addr(i.ops[0]) == s.addr:
                h = h | {i.id}
            elif i.op in ("store", "call") and not s.pts.isdisjoint(s.g.writes(i)):
                h = h - {MEM}
            elif i.id in s.ids:
                h = h - {MEM}
        return super().grow(i, h)


class Dangling(paths.Walk):
    """the field that held the pointer gets another value, or the object with the field goes away"""

    def __init__(s, g, ck, i, pts, addr):
        super().__init__(g, 6000)
        s.ck, s.src, s.pts = ck, i, pts
        s.left = []

    def step(s, i, held):
        if i.op in ("store", "call") and i is not s.src:
            if not s.pts.isdisjoint(s.g.writes(i)):
                return True
        if i.op == "call" and i is not s.src:
            r = s.ck.o.released(s.f, s.fa, i)
            for a in s.pts:
                if any(b[0] == a[0] and b[1] == a[1][:len(b[1])] and len(b[1]) < len(a[1]) for b in r):
                    return True
        return False

    def end(s, i, held, trail):
        s.left.append((i, trail))


class Checker:
    def __init__(s, p, eff, o):
        s.p, s.eff, s.o = p, eff, o
        s.must = defaultdict(set)
        s.graph = {}
        for comp in eff.order:
            for k in comp:
                f, fa = p.fn[k], eff.fa[k]
                for q, path in o.rel[k]:
                    if path == ():
                        g = s.g(f)
                        kl = {i.id for i in f.instrs() if i.op == "call" and any((("P", q), ()) in fa.v(x) for x in s.gives(f, i))}
                        if not kl:
                            continue
                        w = Must(g, q, kl)
                        done = w.run(f.blocks[0][0], {q}, inclusive=True, kills={f.val[x].bb for x in kl})
                        if done and not w.miss:
                            s.must[k].add(q)

    def g(s, f):
        if f.key not in s.graph:
            s.graph[f.key] = paths.Graph(f, s.eff.fa[f.key])
        return s.graph[f.key]

    def gives(s, f, i):
        """operands a call certainly releases"""
        n = i.callee()
        t = s.p.target(i)
        if n in own.POOL:
            return [i.ops[own.POOL[n]]]
        if t is not None:
            return [i.ops[q] for q in s.must.get(t.key, ()) if q < len(i.ops)]
        if n in own.REL and own.REL[n] < len(i.ops):
            return [i.ops[own.REL[n]]]
        return []


def analyse(config):
    config, part = config
    # what a helper releases its caller may clear, and the reverse: fields are followed with helpers in place
    p = ir.Prog(config, inline=400 if part == "fields" else 0)
    eff = effects.Effects(p)
    o = own.Own(p, eff)
    ck = Checker(p, eff, o)
    out = {"alarms": [], "sites": 0, "undecided": 0, "fields": 0, "must": sum(map(len, ck.must.values())), "samples": []}
    for f in p.functions():
        fa = eff.fa[f.key]
        for i in f.instrs():
            if i.op != "call" or i.bb in f.abortset or i.bb not in f.reachable:
                continue
            for v in ck.gives(f, i):
                if not isinstance(v, int):
                    continue
                g = ck.g(f)
                out["sites"] += 1
                w = After(g, ck, i, v)
                held = {v}
                d = f.val.get(v)
                while d is not None and d.op in ("bitcast", "freeze"):
                    held.add(d.ops[0])
                    d = f.val.get(d.ops[0])
                if w.addr is not None:
                    held.add(MEM)
                if part == "use":
                    uses = {u.bb for h in held if h != MEM for u in f.users[h]}
                    if not w.run(i, held, kills=uses | {i.bb}):
                        out["undecided"] += 1
                for u, how in w.hits[:1]:
                    out["alarms"].append(("%s:use:%s" % (f.name, u.callee() or u.op), "%s (%s): what is released here is %s at %s" % (i.where(), f.name, how, u.where())))
                if not w.hits and len(out["samples"]) < 4:
                    out["samples"].append("%s (%s): not used after its release" % (i.where(), f.name))
                if part == "fields" and w.pts and len(w.pts) == 1 and not f.internal:
                    a = next(iter(w.pts))
                    if a[0][0] == "P" and a[1] and a[1][-1] != "*":
                        out["fields"] += 1
                        x = Dangling(g, ck, i, w.pts, w.addr)
                        x.run(i, {v})
                        for r, trail in x.left[:1]:
                            out["alarms"].append(("%s:field:%s" % (f.name, a[1][-1]), "%s (%s): %s still refers to what is released here when the function returns at %s" % (
                                i.where(), f.name, effects.show(a, f), r.where())))
    return out


def run():
    c = harness.Check("C26", "Use-after-release analysis (points-to and must-release summaries, path exploration with correlated branches): from every call that certainly releases memory, "
                      "a container or a file, no path reads, writes, passes on, returns or releases it again; exported functions do not return with a structure field "
                      "that still refers to what they released.",
                      assumptions=["paths into certain abort do not count", "a value fetched again after the memory it is stored in was written is another value"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(2 * len(cfgs)) as pool:
        res = pool.map(analyse, [(x, y) for x in cfgs for y in ("use", "fields")], 1)
    for k, config in enumerate(cfgs):
        r, b = res[2 * k:2 * k + 2]
        r["fields"] = b["fields"]
        r["alarms"] += b["alarms"]
        c.good(r["sites"] + r["fields"] - len(r["alarms"]) - r["undecided"])
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:3]
        c.floor("release_sites_" + config, r["sites"], 900)
        c.floor("fields_released_" + config, r["fields"], 80)
        c.floor("releasing_parameters_" + config, r["must"], 35)
        c.counts["too_many_paths_" + config] = r["undecided"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
