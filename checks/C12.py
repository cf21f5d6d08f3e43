"""C12: what is acquired is released."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, ext, own, paths, sym
from collections import defaultdict

NONLOCAL = ("P", "G", "U", "R")


class Own(own.Own):
    def __init__(s, prog, eff):
        super().__init__(prog, eff)
        # functions that return something the caller owns
        s.gives = set()
        for comp in eff.order:
            for k in comp:
                f, fa = prog.fn[k], eff.fa[k]
                if f.rt != "ptr":
                    continue
                for r in f.rets:
                    if r.ops and any(a[0][0] == "H" and a[0][1] == k and not a[1] and s.acquires(f.val.get(a[0][2])) for a in fa.v(r.ops[0])):
                        s.gives.add(k)

    def acquires(s, i):
        if i is None or i.op != "call":
            return False
        t = s.prog.target(i)
        if t is not None:
            return t.key in s.gives
        return i.callee() in own.ACQ


class Leak(paths.Walk):
    def __init__(s, g, o, i, obj, cont):
        super().__init__(g)
        s.o, s.src, s.obj, s.cont = o, i, obj, cont
        s.leaks = []
        s.nrel = s.nesc = 0
        s.memo = {}

    def roots(s, vals):
        return any(a == s.obj or a[0] in s.cont for a in vals)

    def kills(s, i):
        r = s.memo.get(i.id)
        if r is None:
            r = s.memo[i.id] = s.kills_(i)
        return r

    def kills_(s, i):
        fa = s.fa
        if i.op == "store":
            if s.roots(fa.v(i.ops[0])) and any(a[0][0] in NONLOCAL for a in fa.v(i.ops[1])):
                return "kept"
        elif i.op == "call" and i is not s.src:
            if s.obj in s.o.released(s.f, fa, i):
                return "released"
            n = i.callee()
            t = s.o.prog.target(i)
            if n in own.KEEP and s.roots(fa.v(i.ops[own.KEEP[n]])):
                return "kept"
            if n in ext.COPY:
                d, sr = ext.COPY[n]
                if any(a[0] in s.cont or a[0] == s.obj[0] and a[1] != s.obj[1] for a in fa.v(i.ops[sr])) and any(a[0][0] in NONLOCAL for a in fa.v(i.ops[d])):
                    return "kept"
            if t is not None:
                sm = s.o.eff.sums[t.key]
                args = [fa.v(x) for x in i.ops]
                for a, vals in sm.S.items():
                    if a[0][0] in ("A",):
                        continue
                    for v in vals:
                        if v[0][0] == "P" and s.roots(fa.sub(v, i, args)):
                            if any(x[0][0] in NONLOCAL for x in fa.sub(a, i, args)):
                                return "kept"
                for p, path in s.o.keep.get(t.key, ()):
                    pass
        return None

    def step(s, i, held):
        k = s.kills(i)
        if k == "released":
            if s.other(i, held):
                return False
            s.nrel += 1
        elif k:
            s.nesc += 1
        return bool(k)

    def other(s, i, held):
        """the call gives up a value that is not the object on this path"""
        if s.obj[1]:
            return False
        for o in i.ops:
            if isinstance(o, int) and s.obj in s.fa.v(o):
                d = s.f.val.get(o)
                if o in held or d is None or d.op not in ("phi", "call"):
                    return False
        return any(isinstance(o, int) and s.obj in s.fa.v(o) for o in i.ops)

    def isheld(s, o, held):
        if not isinstance(o, int):
            return False
        if o in held:
            return True
        i = s.f.val.get(o)
        return i is not None and (i.op in ("load", "call") and s.obj in s.fa.v(o) or i.op in ("load", "call", "alloca") and any(a[0] in s.cont and not a[1] for a in s.fa.v(o)))

    def end(s, i, held, trail):
        if i.ops and isinstance(i.ops[0], int) and s.roots(s.fa.v(i.ops[0])) and (s.f.val[i.ops[0]].op != "phi" or s.isheld(i.ops[0], held)):
            s.nesc += 1
            return
        s.leaks.append((i, trail))


def closure(fa, obj):
    """local objects that hold the object, directly or through others"""
    c = set()
    ch = True
    while ch:
        ch = False
        for a, vals in fa.M.items():
            if a[0][0] in ("A", "H") and a[0] not in c and a[0] != obj[0] and any(v == obj or v[0] in c for v in vals):
                c.add(a[0])
                ch = True
        for a, src in fa.links.items():
            if a[0][0] in ("A", "H") and a[0] not in c and any(v[0] in c for v in src):
                c.add(a[0])
                ch = True
    return c


def analyse(config):
    p = ir.Prog(config, inline=0)
    eff = effects.Effects(p)
    o = Own(p, eff)
    out = {"alarms": [], "acq": 0, "inplace": 0, "rel": 0, "esc": 0, "undecided": [], "samples": [], "gives": len(o.gives)}
    owning = defaultdict(list)
    for f in p.functions():
        fa = eff.fa[f.key]
        g = None
        for i in f.instrs():
            if i.op == "store":
                for v in fa.v(i.ops[0]):
                    if v[0][0] == "H" and v[0][1] == f.key and not v[1] and o.acquires(f.val.get(v[0][2])):
                        for a in fa.v(i.ops[1]):
                            if a[1] and a[1][-1] != "*" and a[0][0] != "A":
                                owning[a[1][-1]].append((f, i))
            if i.op != "call" or i.bb in f.abortset or i.bb not in f.reachable:
                continue
            n = i.callee()
            objs = []
            held = {i.id}
            if o.acquires(i):
                objs = [(("H", f.key, i.id), ())]
            elif n in own.INIT:
                for a in fa.v(i.ops[own.INIT[n]]):
                    if a[0][0] == "A":
                        # only containers that get memory
                        grown = n in ("sc_array_init_size", "sc_array_init_count", "sc_hash_array_rip") or any(
                            j is not i and j.op == "call" and j.callee() not in own.RESET and j.callee() not in own.INIT and j.callee() not in own.VIEW
                            and (a[0], a[1] + ("sc_array.array",)) in fa.insw(j) for j in f.instrs())
                        if grown:
                            objs.append((a[0], a[1] + ("@",)))
                        held = set()
                    elif a[1] and a[0][0] != "A":
                        owning[a[1][-1]].append((f, i))
            elif n in own.ACQ_OUT and len(i.ops) > own.ACQ_OUT[n]:
                for a in fa.v(i.ops[own.ACQ_OUT[n]]):
                    if a[0][0] == "A":
                        objs.append((a[0], a[1] + ("@",)))
                        held = set()
                    elif a[1]:
                        owning[a[1][-1]].append((f, i))
            for obj in objs:
                if g is None:
                    g = paths.Graph(f, fa)
                inplace = obj[1][-1:] == ("@",)
                out["inplace" if inplace else "acq"] += 1
                if inplace:
                    cont = set()
                    w = InPlace(g, o, i, obj, cont)
                else:
                    cont = closure(fa, obj)
                    w = Leak(g, o, i, obj, cont)
                stops = [h for h, body in g.loops.items() if i.bb not in body and any(w.kills(x) == "released" for b in body for x in f.blocks[b])]
                kb = {x.bb for x in f.instrs() if w.kills(x)}
                if not inplace:
                    kb |= {b for x in f.instrs() if x.op == "phi" and x.t == "ptr" and obj in fa.v(x.id) for v, b in x.x["inc"]}
                if not w.run(i, held, stopheaders=stops, kills=kb, facts0=split_facts(w, i) if n == "MPI_Comm_split" else None):
                    out["undecided"].append("%s %s" % (i.where(), f.name))
                    continue
                out["rel"] += w.nrel > 0
                out["esc"] += w.nesc > 0
                for r, trail in w.leaks[:1]:
                    out["alarms"].append(("%s:%s" % (f.name, n), "%s (%s): what %s acquires is still held at the return %s, along lines %s" % (
                        i.where(), f.name, n, r.where(), paths.route(f, trail))))
                if not w.leaks and len(out["samples"]) < 5:
                    out["samples"].append("%s (%s): %s released or handed over on all paths" % (i.where(), f.name, n))
    rel = defaultdict(set)
    for k, r in o.rel.items():
        for q, path in r:
            if path[-1:] in (("*",), ("@",)) and len(path) > 1:
                rel[path[-2]].add((k, q, path))
    # releases of local structs' fields
    for f in p.functions():
        fa = eff.fa[f.key]
        for i in f.instrs():
            if i.op == "call":
                for a in o.released(f, fa, i):
                    if a[1][-1:] in (("*",), ("@",)) and len(a[1]) > 1:
                        rel[a[1][-2]].add((f.key, None, a[1]))
                    elif a[0][0] == "H" and not a[1]:
                        for b, vals in fa.M.items():
                            if a in vals and b[1] and b[1][-1] != "*":
                                rel[b[1][-1]].add((f.key, None, b[1]))
    dest = defaultdict(set)
    for k, r in o.rel.items():
        f = p.fn[k]
        if (0, ()) in r and len(f.ditypes) > 1 and f.ditypes[1].count("*") == 1:
            t = f.ditypes[1].replace("*", "").replace("const ", "").strip()
            if "destroy" in f.name or not any("destroy" in x.split(":")[-1] for x in dest[t]):
                if "destroy" in f.name:
                    dest[t] = {x for x in dest[t] if "destroy" in x.split(":")[-1]}
                dest[t].add(k)
    out["fields"] = 0
    owned = set()
    for x, places in sorted(owning.items()):
        if x in BORROWED or "." not in x:
            continue
        out["fields"] += 1
        st = x.split(".")[0]
        ds = set()
        for t, ks in dest.items():
            if t == st or t == st + "_t" or t + "_t" == st:
                ds |= ks
        got = {z[0] for z in rel.get(x, ())}
        if not got or ds and x not in EARLIER and not ds & got:
            f, i = places[0]
            out["alarms"].append(("field:%s" % x, "%s is given something to own (%s, %s) and %s" % (
                x, f.name, i.where(), "no function releases it" if not got else "%s does not release it" % ", ".join(sorted(p.fn[k].name for k in ds)))))
        else:
            owned.add(x)
    out["copies"] = 0
    for f in p.functions():
        copies(p, f, eff.fa[f.key], o, owned, out)
    out["destroyers"] = sum(len(v) for v in dest.values())
    out["always"] = 0
    for k, r in sorted(o.rel.items()):
        always(p.fn[k], eff.fa[k], o, r, out)
    return out


def copies(p, f, fa, o, owned, out):
    """a structure copied as a whole refers to what the original owns: every owned component is replaced in the copy (or taken
    from the original) on every path on which it is not known to be absent"""
    for i in f.instrs():
        if i.op != "call" or i.callee() not in ext.COPY or i.bb not in f.reachable:
            continue
        d, sr = ext.COPY[i.callee()]
        n = paths.cst(i.ops[2])
        dst, src = fa.v(i.ops[d]), fa.v(i.ops[sr])
        dst = {a for a in dst if a[0][0] != "N"}
        if n is None or not dst or dst & src or any(a[0][0] not in ("H", "P") for a in dst):
            continue
        # the type: what is accessed at either end
        types = set()
        for a in src:
            if a[0][0] == "P" and not a[1] and a[0][1] + 1 < len(f.ditypes):
                t = f.ditypes[a[0][1] + 1]
                if t.count("*") == 1:
                    t = t.replace("*", "").replace("const ", "").replace("struct ", "").strip()
                    types.add(t[:-2] if t.endswith("_t") else t)
        for j in f.instrs():
            if j.op == "getelementptr" and fa.v(j.id) and j.ops and isinstance(j.ops[0], int) and fa.v(j.ops[0]) & (dst | src):
                for a in fa.v(j.id):
                    if a[1] and "." in a[1][-1]:
                        types.add(a[1][-1].split(".")[0])
        types = {t for t in types if any(x.split(".")[0] in (t, t + "_t") for x in owned)
                 and any(k.split(".", 1)[-1] in (t, t + "_t") and so.get("size") == n for k, so in f.unit.structs.items())}
        for x in sorted(x for x in owned if x.split(".")[0] in types | {t + "_t" for t in types}):
            out["copies"] += 1
            # the component itself or the flag that says whether it is owned
            there = {(a[0], a[1] + (y,)) for a in dst for y in (x, x + "_owned")}
            here = {(a[0], a[1] + (y,)) for a in src for y in (x, x + "_owned")}

            def replaces(j):
                if j is i:
                    return False
                if j.op == "store":
                    return bool(fa.v(j.ops[1]) & (there | here))
                if j.op == "call":
                    if j.callee() in own.INIT and fa.v(j.ops[own.INIT[j.callee()]]) & there:
                        return True
                    w = fa.insw(j)
                    if w and any(a in w for a in there | here):
                        return True
                    # the shell of the original, or the copy itself, is given up
                    return any(a in src | dst for a in o.released(f, fa, j))
                return False

            done = {j.bb for j in f.instrs() if replaces(j) and (j.bb != i.bb or j.id > i.id or f.blocks[j.bb].index(j) > f.blocks[i.bb].index(i))}
            seen, st, bad = set(), [i.bb], None
            if i.bb in done:
                continue
            while st and bad is None:
                b = st.pop()
                if b in seen:
                    continue
                seen.add(b)
                t = f.blocks[b][-1]
                if t.op == "ret":
                    bad = t
                for k, nb in enumerate(f.lsuccs(b)):
                    if nb in done or absent(f, fa, t, k, there | here):
                        continue
                    st.append(nb)
            if bad is not None:
                out["alarms"].append(("copied:%s:%s" % (f.name, x), "%s (%s): the structure is copied as a whole, and on a path to the return %s the copy keeps the reference to %s, which the original owns" % (
                    i.where(), f.name, bad.where(), x)))


def absent(f, fa, t, k, where):
    """the branch is taken only if the component is absent"""
    c = t.x.get("cond")
    d = f.val.get(c) if isinstance(c, int) else None
    if d is None or d.op != "icmp" or d.x.get("pred") not in ("eq", "ne"):
        return False
    if len(t.x["succ"]) != 2 or f.lsuccs(t.bb)[k] not in t.x["succ"]:
        return False
    l = [f.val.get(q) for q in d.ops if isinstance(q, int)]
    if len(l) != 1 or l[0] is None or l[0].op != "load" or l[0].t != "ptr" or not fa.v(l[0].ops[0]) <= where or not fa.v(l[0].ops[0]):
        return False
    return t.x["succ"].index(f.lsuccs(t.bb)[k]) == (0 if d.x["pred"] == "eq" else 1)


# flags of an object that say what it owns
# ... and counts that are zero where there is nothing (what is allocated under a condition on the same count)
COUNT = {"vertices": "num_vertices", "tree_to_vertex": "num_vertices", "tree_to_corner": "num_corners", "corner_to_tree": "num_corners", "corner_to_corner": "num_corners",
         "tree_to_edge": "num_edges", "edge_to_tree": "num_edges", "edge_to_edge": "num_edges"}
FLAGS = {"conn_owner", "hollow", "ghost_owned", "lnode_changed", "minlevel", "maxlevel"}


def deciding(f, fa, c):
    """what a branch condition reads: (field, is it a pointer)"""
    out = set()
    st = [c]
    seen = set()
    while st:
        x = st.pop()
        if not isinstance(x, int) or x in seen:
            continue
        seen.add(x)
        i = f.val.get(x)
        if i is None:
            out.add((None, False))
        elif i.op == "load":
            for a in fa.v(i.ops[0]):
                out.add((a[1][-1] if a[1] else None, i.t == "ptr"))
        elif i.op == "phi":
            st += [v for v, _ in i.x["inc"]]
        else:
            if i.op == "call":
                out.add((i.callee(), False))
            st += i.ops
    return out


def always(f, fa, o, r, out):
    """a function that gives up an object gives up what the object owns as well, whatever the object's numbers say"""
    fields = [(q, path) for q, path in sorted(r) if len(path) > 1 and path[-1] in ("*", "@") and path.count("*") + path.count("@") == 1]
    calls = [(i, o.released(f, fa, i)) for i in f.instrs() if i.op == "call" and i.bb in f.reachable]
    for q in sorted({q for q, path in r if path == ()}):
        ends = [i for i, rel in calls if (("P", q), ()) in rel]
        for pq, path in fields:
            if pq != q:
                continue
            sites = [i for i, rel in calls if (("P", q), path) in rel]
            if not sites or all(x in ends for x in sites):
                continue
            out["always"] += 1
            sb = {i.bb for i in sites}
            for e in ends:
                if e.bb in sb:
                    continue
                fwd, bwd = set(), set()
                st = [0]
                while st:
                    b = st.pop()
                    if b not in fwd and b not in sb:
                        fwd.add(b)
                        st += f.lsuccs(b)
                st = [e.bb]
                while st:
                    b = st.pop()
                    if b not in bwd and b not in sb:
                        bwd.add(b)
                        st += f.preds[b]
                on = fwd & bwd
                if e.bb not in on:
                    continue
                rch = set()
                st = list(sb)
                while st:
                    b = st.pop()
                    if b not in rch:
                        rch.add(b)
                        st += f.preds[b]
                for b in sorted(on):
                    ss = f.lsuccs(b)
                    t = f.blocks[b][-1]
                    if len(ss) < 2 or not any(x in on for x in ss) or all(x in on or x not in rch for x in ss):
                        continue
                    reads = deciding(f, fa, t.x.get("cond"))
                    odd = sorted(str(n) for n, ptr in reads if not ptr and (n or "").split(".")[-1] not in FLAGS | {COUNT.get(path[-2].split(".")[-1])})
                    if odd:
                        out["alarms"].append(("conditional:%s:%s" % (f.name, path[-2]), "%s (%s): %s is released at %s only if a condition on %s holds, and the object that owns it is given up at %s either way" % (
                            t.where(), f.name, path[-2], sites[0].where(), ", ".join(odd), e.where())))


# fields that refer to something somebody else owns, or whose content is handed out again
BORROWED = {"p4est.user_pointer": "set to the wrapper that owns the forest", "p8est.user_pointer": "as above", "p6est.user_pointer": "as above",
            "p6est.connectivity": "handed to the caller", "p4est.connectivity": "handed to the caller", "p8est.connectivity": "handed to the caller",
            "p4est_build.p4est": "returned by the function that completes the build", "p8est_build.p4est": "as above"}
# fields that are released before the object is destroyed
EARLIER = {"p4est_wrap.old_global_first_quadrant": "lives from a partition to the completion that must follow it", "p8est_wrap.old_global_first_quadrant": "as above"}


def split_facts(w, i):
    """a communicator only comes back where the colour is defined"""
    f = w.f
    d = f.val.get(i.ops[1]) if isinstance(i.ops[1], int) else None
    if d is None or d.op not in ("phi", "select"):
        return None
    if d.op == "select":
        inc = [(d.ops[1], 0), (d.ops[2], 1)]
        c = d.ops[0]
    else:
        t = f.blocks[f.idom[d.bb]][-1]
        c = t.x.get("cond")
        if c is None or len(t.x["succ"]) != 2:
            return None
        inc = []
        for v, p in d.x["inc"]:
            for n, x in enumerate(t.x["succ"]):
                if x == p or x == d.bb and p == f.idom[d.bb]:
                    inc.append((v, n))
    for v, n in inc:
        if (paths.cst(v) or 0) < 0:
            q, k, ng = w.ev(c, {}, {}, frozenset())
            if k is not None:
                return {k: (n == 1) != bool(ng)}
    return None


class InPlace(Leak):
    """a container that lives in a local variable"""

    def isheld(s, o, held):
        if not isinstance(o, int):
            return False
        if o in held:
            return True
        i = s.f.val.get(o)
        if i is None:
            return False
        if i.op == "load" and any((a[0], a[1] + ("@",)) == s.obj for a in s.fa.v(i.ops[0])):
            return True
        return i.op in ("alloca", "getelementptr") and s.fa.v(o) == {(s.obj[0], s.obj[1][:-1])}

    def nullcmp(s, a, b, held):
        for x, y in ((a, b), (b, a)):
            if isinstance(y, dict) and y.get("k") == "g" and "null" in y["n"] and s.isheld(x, held):
                return False
            i = s.f.val.get(x) if isinstance(x, int) else None
            if paths.cst(y) == 0 and i is not None and i.op == "load" and any(
                    (q[0], q[1][:-1] + ("@",)) == s.obj and q[1][-1:] == ("sc_array.elem_count",) for q in s.fa.v(i.ops[0])):
                # an empty container has nothing to give back
                return False
        return super().nullcmp(a, b, held)

    def roots(s, vals):
        return False

    def kills_(s, i):
        fa = s.fa
        if i.op == "call" and i is not s.src:
            if s.obj in s.o.released(s.f, fa, i):
                return "released"
            n = i.callee()
            if n in ext.COPY and any(a[0] == s.obj[0] and s.obj[1][:len(a[1])] == a[1] for a in fa.v(i.ops[ext.COPY[n][1]])):
                return "kept"
            if n in own.VIEW and any((a[0], a[1] + ("@",)) == s.obj for a in fa.v(i.ops[0])):
                return "replaced"
        elif i.op == "store":
            # the handle is copied or replaced
            if any((a[0], a[1] + ("@",)) == s.obj for a in fa.v(i.ops[1])):
                return "replaced"
        elif i.op == "load" and not s.obj[1][:-1] and any((a[0], a[1] + ("@",)) == s.obj for a in fa.v(i.ops[0])):
            for u in s.f.users[i.id]:
                if u.op == "store" and u.ops[0] == i.id and any(a[0][0] in NONLOCAL or a[0][0] == "H" for a in fa.v(u.ops[1])):
                    return "kept"
        return None


def run():
    c = harness.Check("C12", "Ownership analysis (points-to and effect summaries, path exploration with correlated branches): everything a function acquires - heap memory, containers, "
                      "containers in local variables that grow, files, communicators, groups, windows, objects built by other library functions - is on every path to a return released, "
                      "returned, or stored in memory that outlives the call. Every structure field that is given something to own is released by the function that destroys the structure, unconditionally or depending on pointers and ownership flags of the object alone.",
                      assumptions=["paths into certain abort do not count", "a loop over the elements of a local array that releases them releases all of them",
                                   "fields listed as borrowed or released earlier in checks/C12.py (8 fields) are not owned when the structure is destroyed"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    # shared memory windows kept in the fields of an object
    p = ir.Prog(cfgs[0], inline=400)
    made, freed = {}, set()
    for f in p.functions():
        S = None
        for i in f.instrs():
            if i.op == "call" and i.callee() in ("MPI_Win_allocate_shared", "MPI_Win_free") and i.bb not in f.abortset:
                S = S or sym.Sym(f)
                fl = S.addr(i.ops[5 if i.callee() == "MPI_Win_allocate_shared" else 0])[2]
                if fl:
                    made.setdefault(fl[-1], i) if i.callee() == "MPI_Win_allocate_shared" else freed.add(fl[-1])
    for k, i in sorted(made.items()):
        c.obligation(k in freed, "window:" + k, "%s: the window created in %s is %s" % (i.where(), k, "freed" if k in freed else "freed nowhere"), sample=True)
    c.counts["windows_in_fields"] = len(made)
    for config, r in zip(cfgs, res):
        c.good(r["acq"] + r["inplace"] + r["fields"] + r["always"] + r["copies"] - len(r["alarms"]) - len(r["undecided"]))
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:3]
        c.floor("acquisitions_" + config, r["acq"], 900)
        c.floor("containers_in_place_" + config, r["inplace"], 90)
        c.floor("acquisitions_released_here_" + config, r["rel"], 500)
        c.floor("acquisitions_handed_over_" + config, r["esc"], 450)
        c.floor("owning_fields_" + config, r["fields"], 180)
        c.floor("destroying_functions_" + config, r["destroyers"], 20)
        c.floor("components_released_with_their_owner_" + config, r["always"], 120)
        c.floor("owned_components_of_copied_structures_" + config, r["copies"], 10)
        c.counts["too_many_paths_" + config] = len(r["undecided"])
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
