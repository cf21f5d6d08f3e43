"""C17: the predefined connectivities are consistent and complete."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, consts, sym, harness


class Cell:
    def __init__(s, d):
        s.d = d
        s.C = [tuple((c >> k) & 1 for k in range(d)) for c in range(1 << d)]
        s.fc = [[c for c, x in enumerate(s.C) if x[f // 2] == f % 2] for f in range(2 * d)]
        s.ec = []
        if d == 3:
            for k in range(3):
                o = [j for j in range(3) if j != k]
                for n in range(4):
                    s.ec.append([c for c, x in enumerate(s.C) if x[o[0]] == (n & 1) and x[o[1]] == n >> 1])


def args_of(p, f, call):
    """{parameter name: number | list of numbers | None}; second result: why the call cannot be decided"""
    S = sym.Sym(f)
    t = p.target(call)
    out = {}
    for k, o in enumerate(call.ops):
        nm = t.params[k]["name"] or "arg%d" % k
        ty = t.unit.types[t.params[k]["t"]]
        if ty != "ptr":
            c = sym.cst(S.poly(o))
            if c is None:
                return None, "%s is not constant" % nm
            out[nm] = c
            continue
        if isinstance(o, dict) and o.get("k") == "null":
            out[nm] = None
            continue
        b, off = S.ptr(o)
        if isinstance(o, dict) and o.get("n"):
            b, off = o, 0
        if isinstance(b, dict) and b.get("n") and not off:
            v = consts.value(p, b["n"], f.unit.name)
            out[nm] = flat(v)
            continue
        a = f.val.get(b) if isinstance(b, int) else None
        if a is None or a.op != "alloca" or off:
            v = "%s is computed" % nm
        else:
            v = image(p, f, S, a, call)
        if isinstance(v, str):
            if nm != "vertices":
                return None, v.replace("?", nm)
            v = None
            out["no vertices"] = 1
        out[nm] = v
    return out, ""


def flat(v):
    if not isinstance(v, list):
        return [v]
    out = []
    for x in v:
        out += flat(x)
    return out


WIDTH = {"i8": 1, "i16": 2, "i32": 4, "i64": 8, "double": 8, "float": 4}


def image(p, f, S, a, call):
    """the elements of a local array at the call, all written unconditionally with constants, or a reason"""
    ty = f.unit.types[a.x["at"]]
    el = ty.split(" x ")[-1].rstrip("]") if ty.startswith("[") else ty
    w = WIDTH.get(el)
    if w is None:
        return "? has elements " + el
    img = [None] * (a.x["asz"] // w)
    order = {i.id: n for n, i in enumerate(f.instrs())}
    uses, todo = [], [a.id]
    while todo:
        x = todo.pop()
        for u in f.users[x]:
            if u.op in ("getelementptr", "bitcast", "phi", "select"):
                todo.append(u.id)
            elif u.op == "store" and u.ops[0] == x:
                return "the address of ? is stored"
            elif u.op == "store" or u.op == "call":
                uses.append((order[u.id], u, x))
            elif u.op != "load":
                return "? is used by " + u.op
    for _, u, x in sorted(uses, key=lambda z: z[0]):
        if u is call:
            break
        b, off = S.ptr(x)
        off = sym.cst(off)
        n = u.callee() or "" if u.op == "call" else ""
        if n.startswith(("llvm.lifetime", "llvm.dbg")):
            continue
        if u.op == "call" and not n.startswith(("llvm.memcpy", "llvm.memset")):
            return "? is passed to " + (n or "a function pointer")
        if n.startswith("llvm.memcpy") and u.ops[0] != x:
            continue
        if off is None or b != a.id or off % w or u.bb != 0 and not f.dominates(u.bb, call.bb) or inloop(f, u.bb):
            return "? is modified conditionally"
        if u.op == "store":
            v = number(u.ops[0])
            if v is None and isinstance(u.ops[0], int):
                v = sym.cst(S.poly(u.ops[0]))
            if v is None:
                return "? is computed"
            img[off // w] = v
        else:
            ln = ir.cval(u.ops[2])
            if ln is None:
                return "? is copied in variable length"
            if n.startswith("llvm.memset"):
                if ir.cval(u.ops[1]) != 0:
                    return "? is filled with bytes"
                v = [0] * (ln // w)
            else:
                if not (isinstance(u.ops[1], dict) and u.ops[1].get("n")):
                    return "? is copied"
                v = flat(consts.value(p, u.ops[1]["n"], f.unit.name))
                v += [0] * (ln // w - len(v))
            img[off // w:off // w + ln // w] = v[:ln // w]
    return img


def inloop(f, bb):
    seen, todo = set(), list(f.succs(bb))
    while todo:
        x = todo.pop()
        if x == bb:
            return True
        if x not in seen:
            seen.add(x)
            todo += f.succs(x)
    return False


def number(o):
    return o.get("v") if isinstance(o, dict) else None


def face_perm_table(p):
    return tuple(consts.value(p, "p8est_face_" + x) for x in ("permutations", "permutation_sets", "permutation_refs"))


def check(c, p, d, name, A, P):
    ce = Cell(d)
    NF, NC, NE, HALF = 2 * d, 1 << d, len(ce.ec), 1 << (d - 1)
    nt = A["num_trees"]
    nv = A["num_vertices"]
    V, ttv, ttt, ttf = A.get("vertices"), A.get("ttv"), A.get("ttt"), A.get("ttf")
    where = "%s" % name
    ok = True

    def ob(g, key, text):
        nonlocal ok
        ok = c.obligation(g, "%s:%s" % (name, key), "%s: %s" % (where, text)) and ok
        return g
    if ttv is not None and nv > 0:
        ttv = ttv[:NC * nt]
        ob(len(ttv) == NC * nt and all(0 <= x < nv for x in ttv), "ttv", "tree_to_vertex has %d entries in range" % len(ttv))
        if not A.get("no vertices"):
            ob(V is not None and len(V) >= 3 * nv, "vertices", "%d vertices given" % nv)
        for t in range(nt if V is not None else 0):
            ob(len({tuple(V[3 * x:3 * x + 3]) for x in ttv[NC * t:NC * t + NC]}) > 1, "tree%d" % t, "tree %d is not degenerate" % t)
    ttt, ttf = ttt[:NF * nt], ttf[:NF * nt]
    if not ob(len(ttt) == NF * nt and len(ttf) == NF * nt, "faces", "%d face entries" % len(ttt)):
        return
    # face gluing: symmetric with equal orientation
    parent = {}

    def find(x):
        while parent.setdefault(x, x) != x:
            x = parent[x]
        return x

    def union(a, b):
        parent[find(a)] = find(b)
    cmap = {}        # (t, f) -> (t2, f2, {corner: corner})
    bound = 0
    for t in range(nt):
        for f in range(NF):
            t2, code = ttt[NF * t + f], ttf[NF * t + f]
            if not ob(0 <= t2 < nt and 0 <= code < (NF * 2 if d == 2 else NF * 4), "range:%d:%d" % (t, f), "tree %d face %d connects to tree %s code %s" % (t, f, t2, code)):
                return
            f2, o = code % NF, code // NF
            if (t2, f2) == (t, f):
                bound += 1
                ob(o == 0, "boundary:%d:%d" % (t, f), "boundary face %d of tree %d has orientation %d" % (f, t, o))
                continue
            back = (ttt[NF * t2 + f2], ttf[NF * t2 + f2])
            ob(back == (t, f + NF * o), "symmetric:%d:%d" % (t, f), "tree %d face %d leads to tree %d face %d orientation %d, which leads back to tree %d code %d" % (t, f, t2, f2, o, back[0], back[1]))
            if d == 2:
                pi = [0, 1] if o == 0 else [1, 0]
            else:
                pi = P[0][P[1][P[2][f][f2]][o]]
            m = {ce.fc[f][i]: ce.fc[f2][pi[i]] for i in range(HALF)}
            cmap[t, f] = (t2, f2, m)
            for a, b in m.items():
                union(("c", t, a), ("c", t2, b))
    if not ok:
        return
    # vertices: glued corners either coincide, or the connection is periodic; on one connection all or none move alike
    if ttv is not None and nv > 0:
        for (t, f), (t2, f2, m) in sorted(cmap.items()):
            same = [ttv[NC * t + a] == ttv[NC * t2 + b] for a, b in m.items()]
            sharing = {ttv[NC * t + a] for a in m} == {ttv[NC * t2 + b] for b in m.values()}
            if sharing and len({ttv[NC * t + a] for a in m}) == len(m) and f not in (f2,) and t != t2:
                ob(all(same), "twist:%d:%d" % (t, f), "tree %d face %d and tree %d face %d share their vertices, so their corners must be glued accordingly" % (t, f, t2, f2))
        # faces on the same vertices must be connected, unless their rims are (then they enclose a cavity)
        byv = {}
        for t in range(nt):
            for f in range(NF):
                vs = [ttv[NC * t + a] for a in ce.fc[f]]
                if len(set(vs)) == len(vs):
                    byv.setdefault(frozenset(vs), []).append((t, f))
        for k, l in byv.items():
            if len(l) == 2:
                (t, f), (t2, f2) = l
                twin = {ttv[NC * t2 + b]: b for b in ce.fc[f2]}
                rim = all(find(("c", t, a)) == find(("c", t2, twin[ttv[NC * t + a]])) for a in ce.fc[f])
                ob((t, f) in cmap and cmap[t, f][:2] == (t2, f2) or rim, "open:%d:%d" % (t, f), "tree %d face %d and tree %d face %d have the same vertices and are connected" % (t, f, t2, f2))
    # edges
    if d == 3:
        groups(c, ob, "edge", NE, nt, A.get("num_edges", 0), A.get("tte"), A.get("eoff"), A.get("ett"), A.get("ete"), lambda x: x % 24)
    groups(c, ob, "corner", NC, nt, A.get("num_corners", 0), A.get("ttc"), A.get("coff"), A.get("ctt"), A.get("ctc"), lambda x: x)
    if not ok:
        return
    # vertices that several trees use as a whole are coordinates of a patch, no positions
    if ttv is not None and nv > 0 and len({frozenset(ttv[NC * t:NC * t + NC]) for t in range(nt)}) == nt:
        # what shares its vertices is identified: through faces, edge groups, or corner groups
        eparent = {}

        def efind(x):
            while eparent.setdefault(x, x) != x:
                x = eparent[x]
            return x
        if d == 3:
            for (t, f), (t2, f2, m) in cmap.items():
                for e, (a, b) in enumerate(ce.ec):
                    if a in m and b in m:
                        e2 = next(k for k, v in enumerate(ce.ec) if sorted(v) == sorted((m[a], m[b])))
                        eparent[efind((t, e))] = efind((t2, e2))
            for g in range(A.get("num_edges", 0)):
                mem = [(A["ett"][k], A["ete"][k] % NE, A["ete"][k] // NE) for k in range(A["eoff"][g], A["eoff"][g + 1])]
                for x, y in itertools.combinations(mem, 2):
                    eparent[efind(x[:2])] = efind(y[:2])
                    for k in (0, 1):
                        union(("c", x[0], ce.ec[x[1]][k ^ x[2]]), ("c", y[0], ce.ec[y[1]][k ^ y[2]]))
                    vx, vy = ([ttv[NC * z[0] + q] for q in ce.ec[z[1]]] for z in (x, y))
                    if sorted(vx) == sorted(vy) and vx[0] != vx[1]:
                        ob((x[2] == y[2]) == (vx == vy), "edge-vertices:%d:%d:%d:%d" % (x[:2] + y[:2]), "edge group %d joins edge %d of tree %d and edge %d of tree %d, which run %s; as encoded %s" % (
                            g, x[1], x[0], y[1], y[0], "alike" if vx == vy else "opposite", "alike" if x[2] == y[2] else "opposite"))
        for g in range(A.get("num_corners", 0)):
            mem = [(A["ctt"][k], A["ctc"][k]) for k in range(A["coff"][g], A["coff"][g + 1])]
            for x in mem[1:]:
                union(("c",) + mem[0], ("c",) + x)
        byv, bye = {}, {}
        for t in range(nt):
            for k in range(NC):
                byv.setdefault(ttv[NC * t + k], []).append((t, k))
            for e in range(NE):
                vs = [ttv[NC * t + q] for q in ce.ec[e]]
                if vs[0] != vs[1]:
                    bye.setdefault(frozenset(vs), []).append((t, e))
        for v, l in byv.items():
            ob(len({find(("c",) + x) for x in l}) == 1, "vertex:%d" % v, "vertex %d is shared by (tree, corner) %s, which are not all connected" % (v, l))
        for v, l in bye.items():
            ob(len({efind(x) for x in l}) == 1, "edge-of:%d:%d" % tuple(sorted(v)), "vertices %s bound (tree, edge) %s, which are not all connected" % (sorted(v), l))
    # completeness: edges/corners joined through a chain of faces are encoded unless a single face does it
    if d == 3:
        ep = {}

        def ef(x):
            while ep.setdefault(x, x) != x:
                x = ep[x]
            return x
        emap = {}
        for (t, f), (t2, f2, m) in cmap.items():
            for e, (a, b) in enumerate(ce.ec):
                if a in m and b in m:
                    e2 = next(k for k, v in enumerate(ce.ec) if sorted(v) == sorted((m[a], m[b])))
                    flip = 0 if m[a] < m[b] else 1
                    emap.setdefault((t, e), set()).add((t2, e2, flip))
        complete(ob, "edge", NE, nt, emap, A.get("num_edges", 0), A.get("tte"), A.get("eoff"), A.get("ett"), A.get("ete"), True)
    kmap = {}
    for (t, f), (t2, f2, m) in cmap.items():
        for a, b in m.items():
            kmap.setdefault((t, a), set()).add((t2, b, 0))
    near = {}
    if d == 3 and A.get("num_edges", 0):
        off, ett, ete, tte = A["eoff"], A["ett"], A["ete"], A["tte"]
        for t in range(nt):
            for e in range(NE):
                g = tte[NE * t + e]
                if g < 0:
                    continue
                mem = [(ett[k], ete[k] % NE, ete[k] // NE) for k in range(off[g], off[g + 1])]
                my = [x for x in mem if x[:2] == (t, e)]
                for (t2, e2, o2) in mem:
                    for (_, _, o1) in my:
                        for k in (0, 1):
                            near.setdefault((t, ce.ec[e][k]), set()).add((t2, ce.ec[e2][k ^ o1 ^ o2], 0))
    complete(ob, "corner", NC, nt, kmap, A.get("num_corners", 0), A.get("ttc"), A.get("coff"), A.get("ctt"), A.get("ctc"), False, near)


def groups(c, ob, what, N, nt, num, tt, off, gt, ge, norm):
    """index structure of edge or corner groups"""
    if not num:
        ob(tt is None or what == "corner" or True, what + ":none", "no %ss encoded" % what)
        return
    tt = tt[:N * nt]
    off = off[:num + 1]
    ob(len(tt) == N * nt and all(-1 <= x < num for x in tt), "tt" + what, "tree_to_%s entries in range" % what)
    ob(off[0] == 0 and all(a < b for a, b in zip(off, off[1:])), what + ":offsets", "%s offsets %s increase" % (what, off))
    n = off[-1]
    if not ob(len(gt) >= n and len(ge) >= n, what + ":lists", "%s lists have %d entries" % (what, n)):
        return
    for g in range(num):
        mem = [(gt[k], ge[k]) for k in range(off[g], off[g + 1])]
        plain = [(t, e % N if what == "edge" else e) for t, e in mem]
        for t, e in plain:
            ob(0 <= t < nt and 0 <= e < N and tt[N * t + e] == g, "%s%d:%d:%d" % (what, g, t, e), "%s group %d lists %s %s of tree %s, which points back to group %s" % (what, g, what, e, t, tt[N * t + e] if 0 <= t < nt and 0 <= e < N else "?"))
        ob(len(set(plain)) == len(plain), "%s%d:unique" % (what, g), "%s group %d lists no member twice: %s" % (what, g, plain))
        have = [(t, e) for t in range(nt) for e in range(N) if tt[N * t + e] == g]
        ob(sorted(have) == sorted(set(plain)), "%s%d:members" % (what, g), "%s group %d is referenced by %s and lists %s" % (what, g, have, sorted(set(plain))))


def complete(ob, what, N, nt, emap, num, tt, off, gt, ge, flips, near=None):
    """every pair joined by a chain of faces but not by one face is in one group, with the right relative flip"""
    mem = {}
    if num:
        for t in range(nt):
            for e in range(N):
                g = tt[N * t + e]
                if g >= 0:
                    mem[t, e] = {(gt[k], ge[k] % N if what == "edge" else ge[k]): (ge[k] // N if what == "edge" else 0) for k in range(off[g], off[g + 1])}
    for t in range(nt):
        for e in range(N):
            seen = {(t, e): 0}
            st = [(t, e)]
            amb = set()
            while st:
                x = st.pop()
                for t2, e2, fl in emap.get(x, ()):
                    y = (t2, e2)
                    v = seen[x] ^ fl
                    if y not in seen:
                        seen[y] = v
                        st.append(y)
                    elif seen[y] != v:
                        amb.add(y)
            one = {(a, b) for a, b, _ in emap.get((t, e), ())} | {(t, e)} | {(a, b) for a, b, _ in (near or {}).get((t, e), ())}
            far = sorted(set(seen) - one)
            if far:
                grp = mem.get((t, e))
                if not ob(grp is not None and all(y in grp for y in far), "%s-complete:%d:%d" % (what, t, e), "%s %d of tree %d meets %s through chains of faces; the encoded group is %s" % (what, e, t, far, sorted(grp) if grp else None)):
                    continue
            if (t, e) in mem and flips:
                for y, fl in mem[t, e].items():
                    if y in seen and y not in amb and y != (t, e):
                        ob((mem[t, e][(t, e)] ^ fl) == seen[y], "%s-flip:%d:%d:%d:%d" % (what, t, e, *y), "relative orientation of %s %d of tree %d and %s %d of tree %d is %d by faces, %d as encoded" % (
                            what, e, t, what, y[1], y[0], seen[y], mem[t, e][(t, e)] ^ fl))


def run():
    c = harness.Check("C17", "Evaluation of the constant tables that the predefined connectivity constructors pass to the copying constructor: faces glued symmetrically, "
                      "shared vertices glued to themselves, edge and corner groups consistent in both directions, and every edge or corner met through a chain of "
                      "faces (but not directly) encoded with its relative flip.")
    for config in ("release",):
        p = ir.Prog(config)
        done, skipped = [], []
        P = face_perm_table(p)
        for d, pre in ((2, "p4est"), (3, "p8est")):
            for f in sorted(p.functions(), key=lambda f: f.name):
                if not f.name.startswith(pre + "_connectivity_new"):
                    continue
                for i in f.instrs():
                    if i.op == "call" and i.callee() == pre + "_connectivity_new_copy":
                        A, why = args_of(p, f, i)
                        if A is None:
                            skipped.append("%s (%s)" % (f.name, why))
                            continue
                        done.append(f.name)
                        check(c, p, d, f.name, A, P)
        c.floor("connectivities_" + config, len(done), 20)
        c.counts["computed_not_decided"] = len(skipped)
        if os.environ.get("VERIF_V"):
            print(done, skipped)
    return c.finish()


harness.main(run)
