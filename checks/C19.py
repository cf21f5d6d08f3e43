"""C19: the revision counter records exactly the changes of the mesh."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, harness

COUNT = ("p4est_comm_count_quadrants", "p8est_comm_count_quadrants")
GIVEN = ("p4est_partition_given", "p8est_partition_given")
CONSTRUCT = ("H", "C", "A", "E")


def ends(a, field):
    return a[1] and a[1][-1].split(".")[-1] == field and a[1][-1].split(".")[0] in ("p4est", "p8est")


def strip(f, o):
    while isinstance(o, int) and o in f.val and f.val[o].op in ("zext", "sext", "trunc", "freeze"):
        o = f.val[o].ops[0]
    return o


def root(fa, o):
    return {a for a in fa.v(o)}


class F:
    def __init__(s, p, e, f):
        s.p, s.e, s.f, s.fa = p, e, f, e.fa[f.key]
        s.changes = []      # calls that may change the partition or the number of quadrants
        s.bumps = []
        s.resets = []
        s.other = []
        for i in f.instrs():
            if i.op == "call" and i.callee() in COUNT + GIVEN and i.ops:
                s.changes.append(i)
            elif i.op == "store" and not isinstance(i.ops[1], dict):
                for a in s.fa.v(i.ops[1]):
                    if ends(a, "revision"):
                        v = i.ops[0]
                        if ir.cval(v) == 0:
                            s.resets.append((i, a))
                        elif s.isbump(v, a):
                            s.bumps.append((i, a))
                        else:
                            s.other.append((i, a))

    def isbump(s, v, a):
        d = s.f.val.get(v) if isinstance(v, int) else None
        if d is None or d.op != "add":
            return False
        l = [x for x in d.ops if isinstance(x, int) and x in s.f.val and s.f.val[x].op == "load"]
        k = [x for x in d.ops if ir.cval(x) == 1]
        return bool(l and k and a in s.fa.v(s.f.val[l[0]].ops[0]))

    def loads(s, o, field):
        """the load instruction of a forest's field behind a value"""
        o = strip(s.f, o)
        d = s.f.val.get(o) if isinstance(o, int) else None
        if d is not None and d.op == "load" and any(ends(a, field) for a in s.fa.v(d.ops[0])):
            return d
        return None

    def domain(s, call):
        """signs the change can have: shipped quadrants are never negative, the number moves in one direction"""
        if call.callee() in GIVEN:
            return frozenset((0, 1))
        return frozenset((-1, 0)) if "coarsen" in s.f.name else frozenset((0, 1))

    def test(s, cond, call):
        """signs of the change (new minus old number, or quadrants shipped) under which the condition holds, or None"""
        f = s.f
        cond = strip(f, cond)
        d = f.val.get(cond) if isinstance(cond, int) else None
        if d is None:
            return None
        dom = s.domain(call)
        if d.op == "xor" and any(ir.cval(x) in (1, -1, True) for x in d.ops):
            r = s.test([x for x in d.ops if isinstance(x, int)][0], call)
            return None if r is None else dom - r
        if d.op == "select" and len(d.ops) == 3:
            # a && b, a || b
            r = s.test(d.ops[0], call)
            for k in (1, 2):
                v = ir.cval(d.ops[k])
                q = s.test(d.ops[3 - k], call) if isinstance(d.ops[3 - k], int) else None
                if v is not None and r is not None and q is not None:
                    if k == 1:
                        return (r | q) if v else (dom - r) & q
                    return (r & q) if not v else (dom - r) | q
            return None
        if d.op in ("and", "or") and len(d.ops) == 2:
            r, q = s.test(d.ops[0], call), s.test(d.ops[1], call)
            if r is None or q is None:
                return None
            return r & q if d.op == "and" else r | q
        if d.op != "icmp":
            return None
        pr = d.x["pred"]
        a, b = strip(f, d.ops[0]), strip(f, d.ops[1])
        hold = {"eq": (0,), "ne": (-1, 1), "gt": (1,), "ge": (0, 1), "lt": (-1,), "le": (-1, 0)}
        if call.callee() in GIVEN:
            if b == call.id:
                a, b = b, a
                pr = pr[:-2] + {"gt": "lt", "ge": "le", "lt": "gt", "le": "ge"}.get(pr[-2:], pr[-2:])
            v = ir.cval(b)
            if a != call.id or v not in (0, 1):
                return None
            if v == 1:
                if pr[-2:] not in ("ge", "lt"):
                    return None
                pr = "gt" if pr[-2:] == "ge" else "le"
            return dom & frozenset(hold[pr[-2:]])
        # a boolean computed earlier
        if ir.cval(b) == 0 and pr in ("ne", "eq") and isinstance(a, int) and a in f.val and f.val[a].op in ("icmp", "xor", "select", "and", "or"):
            r = s.test(a, call)
            return None if r is None else r if pr == "ne" else dom - r
        la, lb = s.loads(a, "global_num_quadrants"), s.loads(b, "global_num_quadrants")
        if la is None or lb is None:
            return None
        obj = {x[:1] + (x[1][:-1],) for x in s.fa.v(la.ops[0])}
        tgt = set(s.fa.v(call.ops[0]))
        if not obj & tgt or not {x[:1] + (x[1][:-1],) for x in s.fa.v(lb.ops[0])} & tgt:
            return None
        # exactly one of them is from before
        na, nb = f.idominates(call, la), f.idominates(call, lb)
        if na == nb:
            return None
        old, new = (lb, la) if na else (la, lb)
        if any(f.idominates(x, old) or old in f.reach_from(x) for x in s.changes):
            return None
        if not f.idominates(old, call):
            return None
        h = frozenset(hold[pr[-2:]])
        return dom & (h if new is la else frozenset(-x for x in h))


def run():
    c = harness.Check("C19", "Path analysis of every function that recounts or repartitions a forest: a fresh forest gets counter zero after it is filled; on an "
                      "existing one every live path passes exactly one increment by one, guarded by the comparison of the global number of quadrants from before "
                      "with that after (or by the number of shipped quadrants); a local number is never changed without a recount; no other write to the counter or the global count exists.")
    for config in ("debug", "release"):
        p = ir.Prog(config, inline=400)
        e = effects.Effects(p)
        nch, nfresh, nb = 0, 0, 0
        for f in p.functions():
            x = F(p, e, f)
            for i, a in x.other:
                c.violation("write:%s" % f.name, "%s %s: the revision counter is set to something else than zero or its successor" % (i.where(), f.name))
            for i, a in x.resets:
                c.obligation(a[0][0] not in ("P", "G"), "reset:%s" % f.name, "%s %s: counter of %s forest is set to zero" % (i.where(), f.name, "a fresh" if a[0][0] not in ("P", "G") else "an existing"))
            used = set()
            for call in x.changes:
                rs = x.fa.v(call.ops[0])
                fresh = rs and all(r[0][0] not in ("P", "G") for r in rs)
                if any("p4est_build.p4est" in r[1] or "p8est_build.p4est" in r[1] for r in rs):
                    fresh = True     # the builder's forest is its own (see the constructor rule)
                if any(st.startswith("p6est.") for r in rs for st in r[1]):
                    continue         # the columns of an extruded forest have no revision of their own
                if fresh:
                    nfresh += 1
                    c.good()
                    continue
                if f.name in COUNT + GIVEN:
                    continue
                nch += 1
                good, why = paths(f, x, call, used)
                c.obligation(good, "change:%s" % f.name, "%s %s: after %s %s" % (call.where(), f.name, call.callee(), why), sample=True)
            for i, a in x.bumps:
                nb += 1
                c.obligation(i in used, "bump:%s" % f.name, "%s %s: the counter is increased under a test for a change" % (i.where(), f.name))
            # who writes counts and partitions of existing forests
            for i in f.instrs():
                if i.op != "store" or isinstance(i.ops[1], dict):
                    continue
                for a in x.fa.v(i.ops[1]):
                    if a[0][0] in ("P", "G") and not any("_build." in st or st.startswith("p6est.") for st in a[1]) and ends(a, "global_num_quadrants"):
                        pub = f.name in COUNT
                        c.obligation(pub, "recount:%s" % f.name, "%s %s writes the global count of an existing forest%s" % (i.where(), f.name, "" if pub else " without being known to the rule"))
            # the local number moves only together with a recount
            if f.name not in COUNT + GIVEN:
                for i in f.instrs():
                    if i.op == "store" and not isinstance(i.ops[1], dict) and any(
                            a[0][0] == "P" and len(a[1]) == 1 and ends(a, "local_num_quadrants") for a in x.fa.v(i.ops[1])):
                        r = f.reach_from(i, stop=lambda y: y.op == "call" and y.callee() in COUNT)
                        c.obligation(not any(y.op == "ret" for y in r), "local:%s" % f.name, "%s %s: the forest is recounted globally after its local number is written" % (i.where(), f.name))
            constructors(c, e, p, f, x)
        c.floor("changing_calls_" + config, nch, 6)
        c.floor("increments_" + config, nb, 8)
        c.floor("fresh_counts_" + config, nfresh, 4)
    return c.finish()


def paths(f, x, call, used):
    """every live path from the call to a return passes one change test, and the counter moves iff it says so"""
    tests = {}
    dom = x.domain(call)
    for b in range(len(f.blocks)):
        t = f.blocks[b][-1]
        if t.op == "br" and len(t.x.get("succ", ())) == 2 and t.x.get("cond") is not None:
            r = x.test(t.x["cond"], call)
            if r is not None:
                tests[b] = ((t.x["succ"][0], r), (t.x["succ"][1], dom - r))
    bump = {}
    for i, _ in x.bumps:
        bump.setdefault(i.bb, []).append(i)
    # state: (block, signs the change may have, number of increments)
    seen = set()
    st = []

    def leave(b, state):
        t, n = state
        live = set(f.lsuccs(b))
        if b in tests:
            return [(s2, (t & r, n)) for s2, r in tests[b] if t & r and s2 in live]
        return [(s2, state) for s2 in live]
    rets = {r.bb for r in f.rets}
    n0 = sum(1 for i in bump.get(call.bb, ()) if i.idx > call.idx)
    ok = True
    why = "the counter is increased exactly if something changed"
    if call.bb in rets:
        return False, "the function returns without looking for a change"
    st = leave(call.bb, (dom, n0))
    while st:
        b, (t, n) = st.pop()
        if (b, t, n) in seen:
            continue
        seen.add((b, t, n))
        here = bump.get(b, ())
        n += len(here)
        if 0 not in t:
            used.update(here)
        if n > 2:
            return False, "the counter may be increased repeatedly"
        if b in rets:
            if 0 not in t:
                if n != 1:
                    return False, "a path with a change increases the counter by %d" % n
            elif t == {0}:
                if n:
                    return False, "a path without a change increases the counter"
            elif n:
                return False, "the counter is increased without a test for a change of the mesh"
            else:
                return False, "a path returns without looking for a change"
        st += leave(b, (t, n))
    return ok, why


def constructors(c, e, p, f, x):
    """a function that allocates a forest leaves its counter at zero"""
    for i in f.instrs():
        if i.op != "call" or (i.callee() or "") not in ("sc_malloc", "sc_calloc"):
            continue
        size = [ir.cval(o) for o in i.ops[1:]]
        mine = [a for a in x.fa.v(i.id) if a[0][0] == "H"]
        # is it a forest: some field of struct p4est is stored through it
        forest = any(a[0] in [m[0] for m in mine] and len(a[1]) == 1 and a[1][0].split(".")[0] in ("p4est", "p8est") for a in x.fa.W)
        if not forest or any(o is not None and o < 100 for o in size[-1:]):
            continue
        fresh = i.callee() == "sc_calloc"
        copies = [j for j in f.instrs() if j.op == "call" and (j.callee() or "").startswith(("llvm.memcpy", "memcpy")) and
                  any(a in mine for a in x.fa.v(j.ops[0])) and (ir.cval(j.ops[2]) or 0) > 100]
        zeros = [j for j, a in x.resets if a[0] in [m[0] for m in mine]]
        zeros += [j for j in f.instrs() if j.op == "call" and (j.callee() or "").startswith("llvm.memset") and ir.cval(j.ops[1]) == 0 and
                  any(a in mine for a in x.fa.v(j.ops[0])) and (ir.cval(j.ops[2]) or 0) > 100]
        start = copies or ([] if fresh else [i])
        good = True
        for s0 in start:
            r = f.reach_from(s0, stop=lambda y: y in zeros)
            if any(y.op == "ret" for y in r):
                good = False
        c.count("constructors")
        c.obligation(good, "new:%s" % f.name, "%s %s: the counter of the new forest is zero on every path" % (i.where(), f.name), sample=True)


harness.main(run)
