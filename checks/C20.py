"""C20: comparison, equality and hash functions form consistent orders and congruences."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, sym, harness

SORT = {"sc_array_sort", "sc_array_uniq", "sc_array_is_sorted", "qsort", "sc_psort"}
HASH = {"sc_hash_new", "sc_hash_array_new"}
PUBLIC = ("quadrant_compare", "quadrant_compare_piggy", "quadrant_compare_local_num", "coordinates_compare", "lid_compare")
PUBEQ = ("quadrant_is_equal", "quadrant_is_equal_piggy", "quadrant_equal_fn", "node_equal_piggy_fn", "lid_is_equal")
ORDEXT = {"sc_int_compare": 4, "sc_int32_compare": 4, "sc_int64_compare": 8, "sc_uint128_compare": 16, "sc_int16_compare": 2, "sc_int8_compare": 1}


class Need(Exception):
    pass


class Give(Exception):
    pass


def sgn(x):
    return (x > 0) - (x < 0)


class Ev:
    """abstract evaluation of a comparator: only the signs of field differences matter"""

    def __init__(s, p, signs, coords=()):
        s.p, s.signs = p, signs
        s.coords = coords

    def sign(s, atom, side):
        """sign of (argument `side`).atom - (other argument).atom"""
        if atom not in s.signs:
            raise Need(atom)
        return s.signs[atom] if side == 0 else -s.signs[atom]

    def run(s, f, args, depth=0):
        if depth > 6:
            raise Give("%s: recursion" % f.name)
        env = {k: a for k, a in enumerate(args)}
        mem = {}
        bb, prev = 0, None
        steps = 0
        while True:
            blk = f.blocks[bb]
            ph = {}
            for i in blk:
                if i.op == "phi":
                    for v, b in i.x["inc"]:
                        if b == prev:
                            ph[i.id] = s.val(env, v, f)
            env.update(ph)
            for i in blk:
                steps += 1
                if steps > 4000:
                    raise Give("%s: loop" % f.name)
                if i.op == "phi":
                    continue
                if i.op == "ret":
                    return s.val(env, i.ops[0], f) if i.ops else None
                if i.op == "br":
                    su = i.x["succ"]
                    if len(su) == 1:
                        prev, bb = bb, su[0]
                    else:
                        c = s.truth(s.val(env, i.x["cond"], f))
                        prev, bb = bb, su[0 if c else 1]
                    break
                if i.op == "unreachable":
                    raise Give("%s: unreachable" % f.name)
                env[i.id] = s.do(i, env, mem, f, depth)

    def val(s, env, o, f):
        if isinstance(o, int):
            return env[o]
        if isinstance(o, dict):
            v = ir.cval(o)
            if v is not None:
                return ("c", v)
            if o.get("k") == "null":
                return ("c", 0)
            if o.get("k") == "g":
                return ("g", o.get("n"))
        return ("?",)

    def truth(s, v):
        if v[0] == "c":
            return bool(v[1])
        if v[0] == "d":
            return s.sign(v[1], v[2]) != 0
        raise Give("a condition is not decided by comparisons of the same field of both arguments")

    def num(s, v):
        """value or sign representative"""
        if v[0] == "c":
            return v[1]
        if v[0] == "d":
            return s.sign(v[1], v[2])
        return None

    def do(s, i, env, mem, f, depth):
        op = i.op
        V = lambda k: s.val(env, i.ops[k], f)
        if op == "alloca":
            return ("a", (f.key, depth, i.id), 0)
        if op == "getelementptr":
            b = V(0)
            off = 0
            for st in i.x["gep"]["steps"]:
                if "s" in st:
                    off += f.unit.structs[st["s"]]["elems"][st["e"]]["off"]
                else:
                    k = s.val(env, st["i"], f)
                    if k[0] != "c":
                        return ("?",)
                    off += k[1] * st["sz"]
            if b[0] in ("p", "a"):
                return (b[0], b[1], b[2] + off) + b[3:]
            return ("?",)
        if op in ("bitcast", "freeze"):
            return V(0)
        if op == "load":
            a = V(0)
            w = s.width(i, f)
            if a[0] == "p":
                return ("f", a[1], (a[2], w), w)
            if a[0] == "a":
                return mem.get(a[1:], ("?",))
            return ("?",)
        if op == "store":
            a = V(1)
            if a[0] == "a":
                mem[a[1:]] = V(0)
                return None
            raise Give("%s stores through its arguments" % f.name)
        if op in ("sext", "zext", "trunc"):
            v = V(0)
            to = s.width(i, f)
            if v[0] == "f":
                if op == "trunc":
                    return ("?", "truncated field") if to < v[3] else v
                return ("f", v[1], v[2], v[3])
            if v[0] == "d" and op == "trunc" and v[3] > to and v[4]:
                raise Give("narrowed: the difference of two %d-byte fields is narrowed to %d bytes, so that its sign is lost" % (v[4], to))
            if v[0] == "d":
                return ("d", v[1], v[2], v[3], v[4])
            return v
        if op in ("sub",):
            a, b = V(0), V(1)
            if a[0] == "f" and b[0] == "f" and a[2] == b[2] and a[1] != b[1]:
                if a[2] in s.coords and s.width(i, f) <= a[3]:
                    raise Give("narrowed: the difference of two %s may overflow" % ("coordinates" if a[3] < 8 else "linear indices"))
                return ("d", a[2], a[1], s.width(i, f), a[3] if s.width(i, f) >= a[3] and a[3] >= 2 else 0)
            if a[0] == "c" and a[1] == 0 and b[0] == "d":
                return ("d", b[1], 1 - b[2], b[3], b[4])
            if a[0] == b[0] == "c":
                return ("c", a[1] - b[1])
            return ("?",)
        if op in ("add", "mul", "and", "or", "xor"):
            a, b = V(0), V(1)
            if a[0] == b[0] == "c":
                return ("c", {"add": a[1] + b[1], "mul": a[1] * b[1], "and": a[1] & b[1], "or": a[1] | b[1], "xor": a[1] ^ b[1]}[op])
            if op == "xor" and a[0] == "f" and b[0] == "f" and a[2] == b[2] and a[1] != b[1]:
                return ("x", {a[2]})
            if op == "or" and a[0] == "x" and b[0] == "x":
                return ("x", a[1] | b[1])
            return ("?",)
        if op == "icmp":
            a, b = V(0), V(1)
            pr = i.x["pred"]
            if a[0] == "f" and b[0] == "f" and a[2] == b[2]:
                if a[1] == b[1]:
                    x = 0
                else:
                    x = s.sign(a[2], a[1])
                y = 0
            elif "x" in (a[0], b[0]) and (a == ("c", 0) or b == ("c", 0)) and pr in ("eq", "ne"):
                d = a[1] if a[0] == "x" else b[1]
                x, y = int(any(s.sign(q, 0) for q in sorted(d))), 0
            else:
                x, y = s.num(a), s.num(b)
                if x is None or y is None:
                    raise Give("%s compares %s with %s, which are not the same field of both arguments" % (f.name, a, b))
                if "d" in (a[0], b[0]):
                    # a sign representative may only be compared with zero
                    if (y if a[0] == "d" else x) not in (0,) and not (pr in ("slt", "sgt", "sle", "sge") and (y if a[0] == "d" else x) in (1, -1)):
                        raise Give("%s compares a difference with %s" % (f.name, b if a[0] == "d" else a))
            r = {"eq": x == y, "ne": x != y, "slt": x < y, "sgt": x > y, "sle": x <= y, "sge": x >= y,
                 "ult": x < y, "ugt": x > y, "ule": x <= y, "uge": x >= y}[pr]
            return ("c", int(r))
        if op == "select":
            return V(1) if s.truth(V(0)) else V(2)
        if op == "call":
            n = i.callee() or ""
            if n.startswith("llvm.lifetime") or n.startswith("llvm.dbg"):
                return None
            if n in ("memcmp", "bcmp"):
                a, b, l = V(0), V(1), V(2)
                if a[0] == "p" and b[0] == "p" and a[1] != b[1] and a[2] == b[2] and l[0] == "c":
                    return ("d", (a[2], l[1]), a[1], 4, 0)
                raise Give("%s compares different memory ranges" % f.name)
            if n in ORDEXT:
                a, b = V(0), V(1)
                if a[0] == "p" and b[0] == "p" and a[1] != b[1] and a[2] == b[2]:
                    return ("d", (a[2], ORDEXT[n]), a[1], 4, 0)
                raise Give("%s passes different fields to %s" % (f.name, n))
            if n == "sc_uint128_is_equal":
                a, b = V(0), V(1)
                if a[0] == "p" and b[0] == "p" and a[1] != b[1] and a[2] == b[2]:
                    return ("c", int(s.sign((a[2], 16), a[1]) == 0))
            if n.endswith("est_coordinates_compare"):
                d = 3 if n.startswith("p8") else 2
                at, side = [], set()
                for q in (0, 1):
                    a = V(q)
                    fl = []
                    for k in range(d):
                        v = mem.get((a[1], a[2] + 4 * k)) if a[0] == "a" else ("f", a[1], (a[2] + 4 * k, 4), 4) if a[0] == "p" else None
                        if v is None or v[0] != "f":
                            raise Give("%s: coordinates are not those of one argument" % f.name)
                        fl.append(v)
                    if len({v[1] for v in fl}) != 1:
                        raise Give("%s mixes the coordinates of both arguments" % f.name)
                    at.append(tuple(v[2] for v in fl))
                    side.add(fl[0][1])
                    if q == 0:
                        first = fl[0][1]
                if at[0] != at[1] or len(side) != 2:
                    raise Give("%s compares different coordinates of both arguments" % f.name)
                return ("d", ("morton",) + at[0], first, 4, 0)
            t = s.p.target(i)
            if t is not None:
                return s.run(t, [V(k) for k in range(len(i.ops))], depth + 1)
            raise Give("%s calls %s" % (f.name, n))
        return ("?",)

    def width(s, i, f):
        t = i.t
        if isinstance(t, int):
            t = f.unit.types[t]
        if isinstance(t, str) and t.startswith("i") and t[1:].isdigit():
            return max(1, int(t[1:]) // 8)
        return 8


def arg(k):
    return ("p", k, 0)


def result(p, f, signs, coords):
    ev = Ev(p, signs, coords)
    r = ev.run(f, [arg(0), arg(1), ("p", 2, 0)][:f.nargs])
    v = ev.num(r)
    if v is None:
        raise Give("%s returns something else than a comparison of fields" % f.name)
    if r[0] == "d" and r[4] and r[3] < r[4]:
        raise Give("narrowed")
    return v


def tree(p, f, coords, signs=None, cap=None):
    """complete decision table: list of (signs, result)"""
    signs = signs or {}
    cap = cap if cap is not None else [0]
    cap[0] += 1
    if cap[0] > 6000:
        raise Give("%s: too many cases" % f.name)
    try:
        return [(signs, result(p, f, signs, coords))]
    except Need as n:
        out = []
        for v in (-1, 0, 1):
            out += tree(p, f, coords, dict(signs, **{}) | {n.args[0]: v}, cap)
        return out


def lexi(rows):
    """the table is a lexicographic order by some sequence of atoms; returns that sequence or a reason"""
    atoms = set().union(*[set(r[0]) for r in rows])
    seq = []
    while True:
        if len({sgn(r[1]) for r in rows}) == 1:
            v = sgn(rows[0][1])
            return (seq, None) if v == 0 else (seq, "returns %d for arguments that agree in all compared fields" % v)
        for a in sorted(atoms - {x for x, _ in seq}, key=str):
            lo = {sgn(r[1]) for r in rows if r[0].get(a, -1) == -1}
            hi = {sgn(r[1]) for r in rows if r[0].get(a, 1) == 1}
            if any(a not in r[0] for r in rows):
                continue
            if len(lo) == 1 and len(hi) == 1 and 0 not in lo and lo != hi:
                seq.append((a, -1 if lo == {-1} else 1))
                rows = [r for r in rows if r[0][a] == 0]
                break
        else:
            ex = [r for r in rows]
            return seq, "no field decides the order by itself among %s" % sorted(atoms - {x for x, _ in seq}, key=str)


def equality(rows):
    atoms = set().union(*[set(r[0]) for r in rows])
    for sg, v in rows:
        if all(x == 0 for x in sg.values()) != bool(v):
            return atoms, "returns %d for signs %s" % (v, sg)
        if all(x == 0 for x in sg.values()) and set(sg) != atoms:
            return atoms, "does not compare all fields"
    return atoms, None


def hashed(p, f, seen=(), base=0):
    """byte ranges of the first argument that the value depends on, or None"""
    if f.key in seen or len(seen) > 5:
        return set()
    S = sym.Sym(f)
    out = set()
    for i in f.instrs():
        if i.op == "load":
            b, off = S.ptr(i.ops[0])
            if b == 0:
                k = sym.cst(off)
                if k is None:
                    return None
                w = Ev(p, {}).width(i, f)
                out |= set(range(base + k, base + k + w))
        elif i.op == "call":
            t = p.target(i)
            for n, o in enumerate(i.ops):
                b, off = S.ptr(o) if isinstance(o, int) else (None, None)
                if b == 0:
                    if t is None or n != 0:
                        if (i.callee() or "").startswith("llvm."):
                            continue
                        return None
                    r = hashed(p, t, seen + (f.key,), base + (sym.cst(off) or 0))
                    if r is None:
                        return None
                    out |= r
    return out


def bytesof(atoms):
    out = set()
    for a in atoms:
        for o, w in (a[1:] if a[0] == "morton" else [a]):
            out |= set(range(o, o + w))
    return out


def name(f, p, atom):
    if atom[0] == "morton":
        return "coordinates"
    return "bytes %d..%d" % (atom[0], atom[0] + atom[1] - 1)


def symmetric(c, p, f):
    """the comparison of coordinates: exchanging the arguments exchanges the sign, path by path"""
    S = None

    def paths():
        out = []

        def walk(bb, prev, env, conds, n):
            if n > 60 or len(out) > 400:
                raise Give("too many paths")
            env = dict(env)
            ph = {}
            for i in f.blocks[bb]:
                if i.op == "phi":
                    for v, b in i.x["inc"]:
                        if b == prev:
                            ph[i.id] = val(env, v)
            env.update(ph)
            for i in f.blocks[bb]:
                if i.op == "phi":
                    continue
                if i.op == "ret":
                    def leaf(cs, v):
                        if v[0] == "sel":
                            leaf(cs | {(v[1], True)}, v[2])
                            leaf(cs | {(v[1], False)}, v[3])
                        elif v[0] in ("sext", "zext"):
                            leaf(cs, v[1])
                        else:
                            out.append((cs, v))
                    leaf(frozenset(conds), val(env, i.ops[0]))
                    return
                if i.op == "br":
                    su = i.x["succ"]
                    if len(su) == 1:
                        return walk(su[0], bb, env, conds, n + 1)
                    cv = val(env, i.x["cond"])
                    for k in (0, 1):
                        if cv[0] == "c":
                            if bool(cv[1]) == (k == 0):
                                walk(su[k], bb, env, conds, n + 1)
                        else:
                            x = (cv, k == 0)
                            if (cv, k != 0) in conds:
                                continue
                            walk(su[k], bb, env, conds | {x}, n + 1)
                    return
                env[i.id] = do(env, i)
        walk(0, None, {k: ("arg", k) for k in range(f.nargs)}, frozenset(), 0)
        return out

    def val(env, o):
        if isinstance(o, int):
            return env[o]
        v = ir.cval(o)
        return ("c", v) if v is not None else ("?",)

    def do(env, i):
        v = [val(env, o) for o in i.ops]
        if i.op == "getelementptr":
            off = 0
            for st in i.x["gep"]["steps"]:
                if "s" in st:
                    off += f.unit.structs[st["s"]]["elems"][st["e"]]["off"]
                else:
                    k = val(env, st["i"])
                    if k[0] != "c":
                        raise Give("index")
                    off += k[1] * st["sz"]
            return v[0][:2] + ((v[0][2] if len(v[0]) > 2 else 0) + off,)
        if i.op == "load":
            a = v[0] if len(v[0]) > 2 else v[0] + (0,)
            return ("v",) + a[1:]
        if i.op in ("or", "xor", "and", "add", "mul"):
            if v[0][0] == v[1][0] == "c" and i.op == "or":
                return ("c", v[0][1] | v[1][1])
            return (i.op,) + tuple(sorted(v, key=repr))
        if i.op == "icmp":
            pr = i.x["pred"]
            if pr in ("eq", "ne"):
                v = sorted(v, key=repr)
            if pr in ("sgt", "sge", "ugt", "uge"):
                return ("icmp", pr.replace("g", "l")) + (v[1], v[0])
            return ("icmp", pr) + tuple(v)
        if i.op in ("sext", "zext", "trunc", "freeze"):
            return (i.op, v[0]) if i.op != "freeze" else v[0]
        if i.op == "select":
            return ("sel",) + tuple(v)
        if i.op == "call" and (i.callee() or "").startswith("llvm."):
            return ("x", i.callee()) + tuple(v)
        return (i.op,) + tuple(v)

    def swap(t):
        if isinstance(t, tuple):
            if len(t) == 3 and t[0] == "v":
                return ("v", 1 - t[1], t[2])
            r = tuple(swap(x) for x in t)
            if r and r[0] in ("or", "xor", "and", "add", "mul") or r[:2] in (("icmp", "eq"), ("icmp", "ne")):
                h = 1 if r[0] != "icmp" else 2
                r = r[:h] + tuple(sorted(r[h:], key=repr))
            return r
        return t

    def norm(path):
        """conditions on differences become sign statements"""
        conds, v = path
        out = set()
        for cv, pol in conds:
            out.add(cn(cv, pol))
        return frozenset(out), v

    def cn(cv, pol):
        # (a - b) <op> 0 as an ordering of a and b
        if cv[0] == "icmp":
            pr, a, b = cv[1:]
            z = ("c", 0)
            if b == z and a[0] == "sub":
                a, b = a[1], a[2]
            elif a == z and b[0] == "sub":
                a, b = b[2], b[1]
            if pr in ("eq", "ne"):
                a, b = sorted((a, b), key=repr)
                return ("eq", a, b, (pr == "eq") == pol)
            if pr in ("slt", "ult"):
                return ("lt" + pr[0], a, b) if pol else ("le" + pr[0], b, a)
            if pr in ("sle", "ule"):
                return ("le" + pr[0], a, b) if pol else ("lt" + pr[0], b, a)
        return ("b", cv, pol)

    def strict(cs):
        """drop comparisons implied by the others: a != b and a <= b is a < b"""
        cs = set(cs)
        for x in list(cs):
            if x[0] in ("les",) and (("eq",) + tuple(sorted(x[1:3], key=repr)) + (False,)) in cs:
                cs.discard(x)
                cs.add(("lts",) + x[1:3])
        for x in list(cs):
            if x[0] in ("lts", "ltu"):
                cs.discard(("eq",) + tuple(sorted(x[1:3], key=repr)) + (False,))
        return frozenset(cs)
    P = paths()
    mine = {}
    for q in P:
        cs, v = norm(q)
        mine[strict(cs)] = v
    bad = []
    for q in P:
        cs, v = q
        sw = frozenset((swap(cv), pol) for cv, pol in cs)
        k = strict(norm((sw, None))[0])
        w = mine.get(k)
        if w is None or v[0] != "c" or w[0] != "c" or w[1] != -v[1]:
            bad.append((v, w))
    return P, bad


def offs(t, out):
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "v":
            out.add((t[1], t[2]))
        for x in t:
            offs(x, out)
    return out


def consts(t, out):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "c":
            out.add(t[1])
        else:
            for x in t:
                consts(x, out)
    return out


def bit(t, row):
    """value of a bitwise expression at a bit position where the arguments' coordinates differ as given by row"""
    if t[0] == "xor" and len(t) == 3 and all(x[0] == "v" for x in t[1:]) and t[1][2] == t[2][2] and t[1][1] != t[2][1]:
        return row[t[1][2] // 4]
    if t[0] in ("xor", "or", "and"):
        a, b = bit(t[1], row), bit(t[2], row)
        return {"xor": a ^ b, "or": a | b, "and": a & b}[t[0]]
    if t == ("c", 0):
        return 0
    if t[0] == "c" and t[1] in (-1, 0xffffffff):
        return 1
    if t[0] in ("zext",):
        return bit(t[1], row)
    raise Give("a condition is no bitwise function of the coordinates' differences")


def morton(c, f, P, d):
    """the most significant bit in which any coordinate differs decides, the last coordinate before the first"""
    where = "%s (%s:%d)" % (f.name, f.relfile(), f.fline)
    for row in itertools.product((0, 1), repeat=d):
        if not any(row):
            continue
        want = max(k for k in range(d) if row[k])
        key = "curve:%s:%s" % (f.name, "".join(map(str, row)))
        got = {}
        try:
            for cs, v in P:
                keep, orders, open_ = True, [], False
                for cv, pol in cs:
                    o = offs(cv, set())
                    if cv[0] != "icmp":
                        raise Give("condition %s" % (cv[0],))
                    pr, a, b = cv[1:]
                    try:
                        A, B, A0, B0 = bit(a, row), bit(b, row), bit(a, (0,) * d), bit(b, (0,) * d)
                    except Give:
                        orders.append((cv, pol))
                        continue
                    if A0 != B0:
                        raise Give("a condition depends on bits that agree")
                    if pr in ("ult", "ule"):
                        if A == B:
                            open_ = True
                            continue
                        t = A < B
                    elif pr in ("eq", "ne"):
                        if A == B:
                            open_ = True
                            continue
                        t = pr == "ne"
                    else:
                        raise Give("condition " + pr)
                    if t != pol:
                        keep = False
                        break
                if keep and open_:
                    raise Give("the most significant difference %s does not decide a condition" % (row,))
                if keep:
                    for cv, pol in orders:
                        got.setdefault(frozenset(o // 4 for _, o in offs(cv, set())), set()).add(v)
                        big = {abs(x) for x in consts(cv, set())} - {0, 1}
                        if any(x < 1 << 32 for x in big):
                            raise Give("negative coordinates are moved by %s only" % sorted(big))
            ok = set(got) == {frozenset([want])}
            c.obligation(ok, key, "%s: if the most significant differences are in %s, coordinate %s decides; here %s" % (where, row, want, [sorted(k) for k in got]), sample=True)
        except Give as g:
            c.obligation(False, key, "%s: %s" % (where, g))


SITES = {"sc_array_sort": (0, 1, "sort"), "sc_array_is_sorted": (0, 1, "known"), "sc_array_bsearch": (0, 2, "search"), "sc_array_uniq": (0, 1, "search"),
         "qsort": (0, 3, "sort"), "bsearch": (1, 4, "search")}
SIZED = {"sc_array_new": (None, 0), "sc_array_new_size": (None, 0), "sc_array_new_count": (None, 0), "sc_array_init": (0, 1), "sc_array_init_size": (0, 1), "sc_array_init_count": (0, 1),
         "sc_array_init_data": (0, 2), "sc_array_new_data": (None, 1), "sc_array_init_reshape": (0, 2)}


def related(a, b):
    n = min(len(a), len(b))
    return a[:n] == b[:n]


def containers(c, seqs):
    """containers are searched and thinned in the order they were sorted by, and hold elements of the size that order reads"""
    nsite = nident = 0
    for config in ("release", "debug"):
        p = ir.Prog(config, inline=400)
        ev, size, views = {}, {}, []
        for f in p.functions():
            S = None
            for i in f.instrs():
                if i.op == "call" and i.callee() in ("sc_array_init_view", "sc_array_new_view"):
                    S = S or sym.Sym(f)
                    a, b = (1, 0) if i.callee() == "sc_array_init_view" else (0, None)
                    for k in (ident(f, S, i.ops[b]) if b is not None else [(f.key, ("C", i.id))]):
                        views.append((k, [x for x in ident(f, S, i.ops[a])], i))
                if i.op != "call" or i.callee() not in SITES and i.callee() not in SIZED:
                    continue
                S = S or sym.Sym(f)
                if i.callee() in SITES:
                    a, b, kind = SITES[i.callee()]
                    o = i.ops[b]
                    n = o.get("n") if isinstance(o, dict) else None
                    if n is None:
                        continue
                    t = p.resolve(f.unit, n)
                    seq = seqs.get(t.key) if t is not None and not t.decl else [(0, ORDEXT[n])] if n in ORDEXT else None
                    if seq is None:
                        continue
                    for k in ident(f, S, i.ops[a]):
                        ev.setdefault(k, []).append((kind, n, seq, i))
                else:
                    a, b = SIZED[i.callee()]
                    z = sym.cst(S.poly(i.ops[b]))
                    for k in (ident(f, S, i.ops[a]) if a is not None else [(f.key, ("C", i.id))]):
                        size.setdefault(k, {})[z] = i
        for _ in range(3):
            for k, src, i in views:
                z = {z for x in src for z in size.get(x, {})}
                size.setdefault(k, {})[z.pop() if len(z) == 1 else None] = i
        for k in [k for k in size if None in size[k] or len(size[k]) > 1]:
            del size[k]
        for k, l in sorted(ev.items(), key=lambda x: str(x[0])):
            nident += 1
            what = k[1] if isinstance(k[1], str) else "the container"
            sorts = [x for x in l if x[0] == "sort"]
            known = [x for x in l if x[0] == "known"]
            for kind, n, seq, i in l:
                nsite += 1
                if kind == "known":
                    continue
                bad = [x for x in sorts if not related(x[2], seq)]
                if not bad and known and (kind == "sort" or not sorts) and not any(related(x[2], seq) for x in known):
                    bad = known
                c.obligation(not bad, "sorted:%s:%s:%s" % (i.fn.name, what, n), "%s %s: %s is %s by %s%s" % (
                    i.where(), i.fn.name, what, "sorted" if kind == "sort" else "searched", n, ", but sorted by %s in %s (%s)" % (bad[0][1], bad[0][3].fn.name, bad[0][3].where()) if bad else ""), sample=kind != "sort")
                zs = {z for z in size.get(k, {}) if z is not None}
                need = max(max(at[0] + at[1] for at in (a[1:] if a[0] == "morton" else (a,))) for a in seq)
                for z in sorted(zs):
                    w = size[k][z]
                    c.obligation(need <= z, "width:%s:%s:%s" % (i.fn.name, what, n), "%s %s: %s reads %d bytes of each element of %s, which has elements of %d bytes (%s)" % (i.where(), i.fn.name, n, need, what, z, w.where()))
    c.floor("sorted_containers", nident, 40)
    c.floor("sort_and_search_sites", nsite, 80)


def ident(f, S, o):
    """the container an operand designates: a field of some object, or a variable of this function"""
    rt, t, fl = S.addr(o)
    fs = [x for x in fl if x != "*" and not x.startswith("sc_array.")]
    if fs:
        return [(f.unit.name[:2] if hasattr(f.unit, "name") else f.relfile()[4:6], fs[-1])] if not fs[-1].startswith("anon.") else []
    return [(f.key, rt)]


def run():
    c = harness.Check("C20", "Decision tables of comparison functions over the signs of field differences: a function used for sorting must be a lexicographic order of "
                      "fields (antisymmetric, transitive, zero exactly on equality) without narrowing a difference; an equality must be true exactly if all compared "
                      "fields agree; the hash may only read bytes that the equality used with it compares; equality and order of the same objects look at the same bytes; the order along the space filling curve changes sign when "
                      "its arguments are exchanged, path by path.")
    p = ir.Prog("release", inline=400)
    used, pairs = {}, set()
    for f in p.functions():
        for i in f.instrs():
            if i.op != "call":
                continue
            fn = [o["n"] for o in i.ops if isinstance(o, dict) and o.get("k") == "f"]
            if i.callee() in SORT:
                for n in fn:
                    t = p.resolve(f.unit, n)
                    if t is not None:
                        used.setdefault(t.key, (t, i))
            elif i.callee() in HASH and len(fn) == 2:
                h, q = p.resolve(f.unit, fn[0]), p.resolve(f.unit, fn[1])
                if h is not None and q is not None:
                    pairs.add((h.key, q.key, i.where()))
    for pre in ("p4est_", "p8est_"):
        for n in PUBLIC:
            if pre + n in p.ext:
                used.setdefault(p.ext[pre + n].key, (p.ext[pre + n], None))
    # coordinates may be negative and large: their difference can overflow
    nsort = 0
    ords, seqs = {}, {}
    for k, (f, site) in sorted(used.items()):
        nsort += 1
        where = "%s (%s:%d)" % (f.name, f.relfile(), f.fline)
        if f.name.endswith("coordinates_compare"):
            try:
                P, bad = symmetric(c, p, f)
                morton(c, f, P, 3 if f.name.startswith("p8") else 2)
                c.obligation(not bad and len(P) > 3, "order:" + f.name, "%s: %d paths, exchanging the arguments exchanges the sign on each%s" % (where, len(P), "; not on paths with results %s" % bad[:3] if bad else ""), sample=True)
            except Give as g:
                c.obligation(False, "order:" + f.name, "%s: %s" % (where, g))
            continue
        co = {(0, 4), (4, 4), (8, 4)} if "quadrant" in f.name and not f.name.startswith("p2est") else set()
        if any("lid_t" in t or "uint64" in t for t in f.ditypes):
            # linear indices use the whole range of an unsigned number
            co = {(0, 8)}
        try:
            rows = tree(p, f, co)
            seq, why = lexi(rows)
            ords[f.name] = bytesof([a for a, _ in seq])
            if why is None:
                seqs[k] = [a for a, _ in seq]
            c.obligation(why is None and seq, "order:" + f.name, "%s: order by %s%s" % (where, ["%s%s" % ("" if d < 0 else "descending ", name(f, p, a)) for a, d in seq], "; but " + why if why else ""), sample=True)
        except Give as g:
            c.obligation(False, "order:" + f.name, "%s is no order of fields: %s" % (where, g))
    eqs = {}
    names = {k for _, k, _ in pairs} | {p.ext[a + b].key for a in ("p4est_", "p8est_") for b in PUBEQ if a + b in p.ext}
    for k in sorted(names):
        f = p.fn[k]
        where = "%s (%s:%d)" % (f.name, f.relfile(), f.fline)
        try:
            atoms, why = equality(tree(p, f, set()))
            eqs[k] = bytesof(atoms)
            c.obligation(why is None, "equal:" + f.name, "%s: true exactly if %s agree%s" % (where, sorted(name(f, p, a) for a in atoms), "; but " + why if why else ""), sample=True)
        except Give as g:
            c.obligation(False, "equal:" + f.name, "%s is no equality of fields: %s" % (where, g))
    for pre in ("p4est_", "p8est_"):
        for o, q in (("quadrant_compare", "quadrant_is_equal"), ("quadrant_compare", "quadrant_equal_fn"),
                     ("quadrant_compare_piggy", "quadrant_is_equal_piggy"), ("lid_compare", "lid_is_equal")):
            if pre + o in ords and pre + q in p.ext and p.ext[pre + q].key in eqs:
                a, b = ords[pre + o], eqs[p.ext[pre + q].key]
                c.obligation(a == b, "agree:" + pre + q, "%s compares bytes %s and %s orders by bytes %s" % (pre + q, sorted(b), pre + o, sorted(a)), sample=True)
    for h, q, w in sorted(pairs):
        r = hashed(p, p.fn[h])
        if q in eqs:
            c.obligation(r is not None and r and r <= eqs[q], "hash:%s" % p.fn[h].name, "%s: %s reads bytes %s, %s compares bytes %s" % (
                w, p.fn[h].name, sorted(r) if r is not None else "unknown", p.fn[q].name, sorted(eqs[q])), sample=True)
    containers(c, seqs)
    c.floor("orders", nsort, 12)
    c.floor("equalities", len(names), 10)
    c.floor("hash_pairs", len(pairs), 6)
    return c.finish()


harness.main(run)
