"""C07: pointers to array elements are not used after the array has been changed."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, paths
from collections import defaultdict

# calls that may move or release the elements of their first argument
MOVE = {"sc_array_resize", "sc_array_push", "sc_array_push_count", "sc_array_reset", "sc_array_destroy", "sc_array_init", "sc_array_init_size", "sc_array_init_count",
        "sc_hash_array_insert_unique", "sc_hash_array_destroy", "sc_hash_array_rip", "sc_recycle_array_insert", "sc_recycle_array_reset", "sc_array_copy"}
# calls that return a pointer to an element of their first argument
ELEM = {"sc_array_push", "sc_array_push_count", "sc_array_index", "sc_array_index_int", "sc_array_index_long", "sc_array_index_ssize_t", "sc_array_index_begin", "sc_array_pop",
        "sc_hash_array_insert_unique", "sc_recycle_array_insert"}
STALE = -7


class Elem(paths.Walk):
    def __init__(s, g, ck, src, cont):
        super().__init__(g, 6000)
        s.ck, s.src, s.cont = ck, src, cont
        s.hit = None
        s.mover = None
        s.view = None
        s.live = s.todo = None
        s.slots, s.of = {}, {}

    def base(s, o):
        """the local variable an address lies in"""
        for _ in range(8):
            d = s.f.val.get(o) if isinstance(o, int) else None
            if d is None:
                return None
            if d.op == "alloca":
                return d.id
            if d.op not in ("getelementptr", "bitcast"):
                return None
            o = d.ops[0]

    def slot(s, o):
        """token of the place in a local variable an address denotes, None if it is none or not always the same place"""
        if not isinstance(o, int):
            return None
        if o not in s.of:
            r = None
            b = s.base(o)
            if b is not None:
                a = s.g.addr(o)
                x, ok = a, True
                while x[0] == "gep":
                    ok = ok and all(y[1] == () or y[1][0] == "c" for y in x[2:])
                    x = x[1]
                if ok and x == ("v", b):
                    r = s.slots.setdefault((b, a), -(100 + len(s.slots)))
            s.of[o] = r
        return s.of[o]

    def drop(s, h, b):
        return h - {t for (x, _), t in s.slots.items() if x == b}

    def aim(s, movers):
        """blocks from which a use of the pointer can be reached, and those from which a change of the array before it can"""
        f = s.f
        d, work = {s.src.id}, [s.src.id]
        while work:
            v = work.pop()
            for u in f.users[v]:
                if u.op == "store" and u.ops[0] == v and s.slot(u.ops[1]) is not None:
                    for l in f.instrs():
                        if l.op == "load" and l.id not in d and s.slot(l.ops[0]) == s.slot(u.ops[1]):
                            d.add(l.id)
                            work.append(l.id)
                if u.op in ("getelementptr", "bitcast", "freeze", "ptrtoint", "inttoptr", "select", "phi", "add", "sub") and u.id not in d:
                    d.add(u.id)
                    work.append(u.id)
        use = {u.bb for v in d for u in f.users[v]}
        use |= {b for u in f.instrs() if u.op == "phi" and u.id in d for v, b in u.x["inc"] if isinstance(v, int) and v in d}
        s.live = s.back(use)
        s.todo = s.back({m.bb for m in movers if m.bb in s.live})

    def back(s, goal):
        f = s.f
        out, work = set(goal), list(goal)
        while work:
            b = work.pop()
            for p in f.preds[b]:
                if p not in out:
                    out.add(p)
                    if p != s.src.bb:
                        work.append(p)
        return out

    def over(s, b, held):
        return s.live is not None and b not in (s.live if STALE in held else s.todo)

    def step(s, i, held):
        if i is s.src or not (held - {STALE}):
            return True
        if s.view is not None:
            # a view of the array: stale until it is set up again
            if i.op == "call" and i.ops and i.ops[0] == s.view and (i.callee() or "").startswith(("sc_array_init", "sc_array_reset")):
                return True
            if STALE in held:
                if i.op == "call" and s.view in [o for o in i.ops if isinstance(o, int)] and not (i.callee() or "").startswith("llvm.life"):
                    s.hit = s.hit or i
                    return True
                if i.op == "load":
                    d = s.f.val.get(i.ops[0]) if isinstance(i.ops[0], int) else None
                    if d is not None and d.op == "getelementptr" and d.ops[0] == s.view and any(a[1][-1:] == ("sc_array.array",) for a in s.fa.v(i.ops[0])):
                        s.hit = s.hit or i
                        return True
            return False
        if STALE in held:
            for k, o in enumerate(i.ops):
                if isinstance(o, int) and o in held and i.op in ("load", "store", "call", "ret"):
                    if i.op == "store" and k == 0 and s.slot(i.ops[1]) is not None:
                        continue
                    if i.op == "call" and (i.callee() in ("sc_array_position",) or s.ck.p.target(i) is None and (i.callee() or "").startswith("llvm.")) and not (i.callee() or "").startswith("llvm.mem"):
                        continue
                    s.hit = s.hit or i
                    return True
        return False

    def grow(s, i, held):
        h = held
        if i.id in held and i.op not in ("phi",) and i is not s.src and STALE not in held:
            pass
        if i.op in ("getelementptr", "bitcast", "freeze", "ptrtoint", "inttoptr"):
            if s.isheld(i.ops[0], held):
                h = h | {i.id}
            elif i.id in h:
                h = h - {i.id}
        elif i.op == "select":
            if s.isheld(i.ops[1], held) or s.isheld(i.ops[2], held):
                h = h | {i.id}
        elif i.op == "load" and s.view is None:
            t = s.slot(i.ops[0])
            if t is not None and t in h:
                h = h | {i.id}
            elif i.id in h and i is not s.src:
                h = h - {i.id}
        elif i.op == "store" and s.view is None:
            t = s.slot(i.ops[1])
            if t is not None:
                h = h | {t} if s.isheld(i.ops[0], held) else h - {t}
            elif s.slots:
                h = s.drop(h, s.base(i.ops[1]))
        if i.op == "call" and s.slots:
            for o in i.ops:
                b = s.base(o)
                if b is not None:
                    h = s.drop(h, b)
        if i.op == "call" and i is not s.src and s.ck.moves(s.f, s.fa, i, s.cont):
            h = h | {STALE}
            s.mover = i
        return h


class Checker:
    def __init__(s, p, eff):
        s.p, s.eff = p, eff
        s.graph = {}
        s.alarms, s.samples, s.elems, s.walks, s.undecided, s.views = [], [], 0, 0, 0, 0
        s.el = {}                    # key -> parameter the elements of which a function returns
        for comp in eff.order:
            for k in comp:
                s.returns(p.fn[k])
        s.mv = defaultdict(set)      # key -> {(param, path)}: containers whose elements may move
        s._m = {}
        for comp in eff.order:
            for _ in range(3):
                ch = False
                for k in comp:
                    n = len(s.mv[k])
                    s.summ(k)
                    ch |= len(s.mv[k]) != n
                if not ch or len(comp) == 1 and comp[0] not in eff.callees[comp[0]]:
                    break

    def elem(s, i):
        """number of the argument to an element of which a call returns a pointer"""
        t = s.p.target(i)
        if t is not None:
            return s.el.get(t.key)
        return 0 if i.callee() in ELEM else None

    def returns(s, f):
        out = set()
        for r in f.instrs():
            if r.op != "ret" or r.bb not in f.reachable:
                continue
            work, seen = [o for o in r.ops if isinstance(o, int)], set()
            if len(work) != 1:
                return
            while work:
                o = work.pop()
                if not isinstance(o, int):
                    continue
                if o in seen:
                    continue
                seen.add(o)
                d = f.val.get(o)
                if d is None:
                    return
                if d.op in ("getelementptr", "bitcast", "freeze"):
                    work.append(d.ops[0])
                elif d.op == "select":
                    work += d.ops[1:3]
                elif d.op == "phi":
                    work += [v for v, _ in d.x["inc"] if isinstance(v, int)]
                elif d.op == "call" and s.elem(d) is not None and isinstance(d.ops[s.elem(d)], int):
                    out.add(d.ops[s.elem(d)])
                elif d.op == "load":
                    g = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                    if g is None or g.op != "getelementptr" or not any(a[1][-1:] == ("sc_array.array",) for a in s.eff.fa[f.key].v(d.ops[0])):
                        return
                    out.add(g.ops[0])
                else:
                    return
        if len(out) == 1 and next(iter(out)) in range(f.nargs):
            s.el[f.key] = next(iter(out))

    def g(s, f):
        if f.key not in s.graph:
            s.graph[f.key] = paths.Graph(f, s.eff.fa[f.key])
        return s.graph[f.key]

    def moved(s, f, fa, i):
        """[(operand or None, addresses)] of the containers a call may change"""
        n = i.callee()
        t = s.p.target(i)
        if n in MOVE and i.ops:
            if n.startswith("sc_hash_array"):
                return [(None, {(a[0], a[1] + ("sc_hash_array.a",)) for a in fa.v(i.ops[0])})]
            if n.startswith("sc_recycle"):
                return [(None, {(a[0], a[1] + ("sc_recycle_array.a",)) for a in fa.v(i.ops[0])})]
            return [(i.ops[0], fa.v(i.ops[0]))]
        if t is not None:
            out = []
            for q, path in s.mv.get(t.key, ()):
                if q < len(i.ops):
                    out.append((i.ops[q] if path == () else None, fa.walk(fa.v(i.ops[q]), path)))
            return out
        return []

    def summ(s, k):
        f, fa = s.p.fn[k], s.eff.fa[k]
        for i in f.instrs():
            if i.op == "call" and i.bb in f.reachable and i.bb not in f.abortset:
                for _, ad in s.moved(f, fa, i):
                    for a in ad:
                        if a[0][0] == "P":
                            s.mv[k].add((a[0][1], a[1]))

    def moves(s, f, fa, i, cont):
        key = (f.key, i.id, cont[2])
        r = s._m.get(key)
        if r is None:
            r = False
            for o, ad in s.moved(f, fa, i):
                if not (ad & cont[1]):
                    continue
                if o is not None and (o == cont[0] or s.g(f).addr(o) == cont[2] and isinstance(o, int)):
                    r = True
                elif s.single(f, ad & cont[1]):
                    r = True
            s._m[key] = r
        return r

    def single(s, f, ad):
        """a container there is only one of"""
        for a in ad:
            if {"*", "[]"} & set(a[1][1:]):
                return False
            if a[0][0] == "A":
                d = f.val.get(a[0][2]) if a[0][1] == f.key else None
                if d is None or d.op != "alloca" or s.g(f).inner.get(d.bb) and d.x.get("asz", 99) > 64:
                    return False
                if d.x.get("asz", 99) > 400 and a[1] == ():
                    return False
                continue
            if a[0][0] == "H":
                d = f.val.get(a[0][2]) if a[0][1] == f.key else None
                if d is None or s.g(f).inner.get(d.bb) or d.callee() in ("sc_malloc", "sc_calloc", "sc_array_push", "sc_array_init", "sc_array_push_count", "sc_realloc"):
                    return False
                if d.callee() in ("sc_array_new", "sc_array_new_count", "sc_hash_array_new") and a[1] in ((), ("sc_hash_array.a",)):
                    continue
                return False
            if a[0][0] == "P" and a[1] and not ({"*", "[]"} & set(a[1])):
                continue
            return False
        return bool(ad)

    def run(s):
        for f in s.p.functions():
            fa = s.eff.fa[f.key]
            g = s.g(f)
            movers = [i for i in f.instrs() if i.op == "call" and i.bb in f.reachable and i.bb not in f.abortset and s.moved(f, fa, i)]
            if not movers:
                s.elems += sum(1 for i in f.instrs() if i.op == "load" and i.t == "ptr" and any(a[1] and a[1][-1] == "sc_array.array" for a in fa.v(i.ops[0])))
                continue
            for i in f.instrs():
                if i.bb not in f.reachable or i.bb in f.abortset:
                    continue
                cont = None
                if i.op == "load" and i.t == "ptr":
                    ad = {(a[0], a[1][:-1]) for a in fa.v(i.ops[0]) if a[1] and a[1][-1] == "sc_array.array"}
                    d = f.val.get(i.ops[0]) if isinstance(i.ops[0], int) else None
                    if ad and d is not None and d.op == "getelementptr":
                        cont = (d.ops[0], ad, g.addr(d.ops[0]))
                elif i.op == "call" and i.t == "ptr" and s.elem(i) is not None and isinstance(i.ops[s.elem(i)], int):
                    o = i.ops[s.elem(i)]
                    ad = set(fa.v(o))
                    if (i.callee() or "").startswith("sc_hash_array"):
                        ad = {(a[0], a[1] + ("sc_hash_array.a",)) for a in ad}
                    if (i.callee() or "").startswith("sc_recycle"):
                        ad = {(a[0], a[1] + ("sc_recycle_array.a",)) for a in ad}
                    cont = (o, ad, g.addr(o))
                view = None
                if i.op == "call" and i.callee() == "sc_array_init_view" and all(isinstance(o, int) for o in i.ops[:2]):
                    view = i.ops[0]
                    cont = (i.ops[1], set(fa.v(i.ops[1])), g.addr(i.ops[1]))
                if cont is None:
                    continue
                s.elems += 1
                s.views += view is not None
                mine = [m for m in movers if m is not i and s.moves(f, fa, m, cont)]
                if i in movers:
                    mine.append(i)
                mine = [m for m in mine if m is not i or True]
                if not mine:
                    continue
                s.walks += 1
                w = Elem(g, s, i, cont)
                w.view = view
                if view is None:
                    w.aim(mine)
                uses = {m.bb for m in mine} | {u.bb for u in f.users[i.id]}
                if not w.run(i, {i.id}, kills=uses):
                    s.undecided += 1
                if w.hit is not None:
                    # once more with all conditions kept in mind
                    w = Elem(g, s, i, cont)
                    w.deep = True
                    w.view = view
                    if view is None:
                        w.aim(mine)
                    w.limit = 60000
                    if not w.run(i, {i.id}):
                        s.undecided += w.hit is None
                if w.hit is not None:
                    s.alarms.append(("%s:%s" % (f.name, w.hit.callee() or w.hit.op), "%s (%s): the view or element pointer obtained here is used at %s after the array was changed at %s" % (
                        i.where(), f.name, w.hit.where(), w.mover.where())))
                elif len(s.samples) < 5:
                    s.samples.append("%s (%s): not used after the array changes at %s" % (i.where(), f.name, mine[0].where()))


def analyse(config):
    p = ir.Prog(config, inline=0)
    eff = effects.Effects(p)
    ck = Checker(p, eff)
    ck.run()
    r = {x: getattr(ck, x) for x in ("alarms", "samples", "elems", "walks", "undecided", "views")}
    r["movers"] = sum(map(len, ck.mv.values()))
    return r


def run():
    c = harness.Check("C07", "Element pointer analysis (points-to, path exploration with correlated branches): no pointer to an element of an array is used after the array was pushed to, resized, "
                      "reset or destroyed, directly or by a callee, unless it was fetched again.",
                      assumptions=["two containers are the same if they are found by the same expression or there is only one they can be",
                                   "shrinking an array counts as a change as growing does"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        c.good(r["elems"] - len(r["alarms"]) - r["undecided"])
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:3]
        c.floor("element_pointers_" + config, r["elems"], 1400)
        c.floor("with_changes_" + config, r["walks"], 800)
        c.floor("changing_parameters_" + config, r["movers"], 800)
        c.floor("views_" + config, r["views"], 28)
        c.counts["too_many_paths_" + config] = r["undecided"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
