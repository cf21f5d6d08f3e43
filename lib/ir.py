"""In-memory model of the dumped program plus CFG utilities."""
import json, os
from collections import defaultdict
import build as B

Broken = B.Broken
REPO = B.REPO


class I:
    """instruction. v operands are ints (SSA ids) or dict constants"""
    __slots__ = ("id", "op", "t", "d", "ops", "x", "bb", "fn", "idx")

    def __init__(s, fn, bb, o):
        s.fn = fn
        s.bb = bb
        s.id = o.pop("id")
        s.op = o.pop("op")
        s.t = fn.unit.types[o.pop("t")]
        s.d = o.pop("d", None)
        s.ops = o.pop("ops", [])
        s.x = o

    @property
    def line(s):
        return s.d[1] if s.d else 0

    def where(s):
        if s.d:
            return "%s:%d" % (s.fn.unit.rel(s.d[0]), s.d[1])
        return "%s:?" % s.fn.unit.rel(s.fn.file)

    def chain(s):
        """list of (file, line, function) from innermost to outermost inline site"""
        if not s.d:
            return []
        r = [(s.fn.unit.rel(s.d[0]), s.d[1], s.d[3])]
        if len(s.d) > 4:
            for e in s.d[4]:
                r.append((s.fn.unit.rel(e[0]), e[1], e[3]))
        return r

    def callee(s):
        c = s.x.get("callee")
        if isinstance(c, dict) and c.get("k") == "f":
            return c["n"]
        return None

    def __repr__(s):
        return "<%s %%%d %s %s>" % (s.op, s.id, s.callee() or "", s.where())


CANON = {"p4est_connectivity_new": ("num_vertices", "num_trees", "num_corners", "num_ctt"),
         "p8est_connectivity_new": ("num_vertices", "num_trees", "num_edges", "num_ett", "num_corners", "num_ctt")}
for _d in ("p4est", "p8est"):
    _e = ("num_edges",) if _d == "p8est" else ()
    CANON[_d + "_connectivity_set_attr"] = ("conn", "bytes_per_tree")
    CANON[_d + "_connectivity_share"] = ("conn_in", "root", "comm")
    CANON[_d + "_connectivity_new_copy"] = ("num_vertices", "num_trees") + _e + ("num_corners", "vertices", "ttv", "ttt", "ttf") + (("tte", "eoff", "ett", "ete") if _e else ()) + ("ttc", "coff", "ctt", "ctc")
for _d in ("p4est", "p8est", "p6est"):
    CANON[_d + "_save_ext"] = ("filename", _d, "save_data", "save_partition")
    CANON[_d + "_load_ext"] = ("filename", "mpicomm", "data_size", "load_data", "autopartition", "broadcasthead", "user_pointer", "connectivity")
    CANON[_d + "_source_ext"] = ("src",) + CANON[_d + "_load_ext"][1:]


class Fn:
    def __init__(s, unit, o):
        s.unit = unit
        s.name = o["name"]
        s.dname = o.get("dname", s.name)
        s.internal = o["internal"]
        s.decl = o.get("decl", False)
        s.noreturn = o["noreturn"]
        s.params = o["params"]
        s.nargs = o["nargs"]
        s.file = o.get("file", 0)
        s.fline = o.get("line", 0)
        s.ditypes = o.get("ditypes", [])
        s.rt = unit.types[o["rt"]]
        s.vararg = o["vararg"]
        s.key = (unit.name + ":" + s.name) if s.internal else s.name
        s.vars = {int(k): v for k, v in o.get("vars", {}).items()}
        if s.name[1:] in CANON or s.name in CANON:
            # parameters known by position; the names given to them here are of no consequence
            for k, n in enumerate(CANON.get(s.name) or CANON[s.name[1:]]):
                if k < len(s.params):
                    old = s.params[k]["name"]
                    s.params[k]["name"] = n
                    for vs in s.vars.values():
                        for v in vs:
                            if v["n"] == old:
                                v["n"] = n
        s.blocks = []
        s.val = {}
        if not s.decl:
            for bi, b in enumerate(o["blocks"]):
                bl = []
                for k, io in enumerate(b["i"]):
                    ins = I(s, bi, io)
                    ins.idx = k
                    bl.append(ins)
                    s.val[ins.id] = ins
                s.blocks.append(bl)
        s._cache = {}

    def relfile(s):
        return s.unit.rel(s.file)

    def instrs(s):
        for b in s.blocks:
            yield from b

    def pname(s, i):
        return s.params[i]["name"] or ("arg%d" % i)

    # ---- CFG -------------------------------------------------------------
    def succs(s, b):
        return s.blocks[b][-1].x.get("succ", ())

    def _memo(s, k, f):
        if k not in s._cache:
            s._cache[k] = f()
        return s._cache[k]

    @property
    def preds(s):
        def f():
            p = [[] for _ in s.blocks]
            for b in range(len(s.blocks)):
                for t in s.succs(b):
                    p[t].append(b)
            return p
        return s._memo("preds", f)

    @property
    def reachable(s):
        def f():
            seen = {0}
            st = [0]
            while st:
                b = st.pop()
                for t in s.succs(b):
                    if t not in seen:
                        seen.add(t)
                        st.append(t)
            return seen
        return s._memo("reach", f)

    def aborts(s, b):
        """block cannot return normally: ends in unreachable"""
        return s.blocks[b][-1].op == "unreachable"

    @property
    def abortset(s):
        """blocks from which every path aborts (never returns)"""
        def f():
            can = set()
            st = [b for b in range(len(s.blocks)) if s.blocks[b][-1].op == "ret"]
            # infinite loops also count as live
            can.update(st)
            while st:
                b = st.pop()
                for p in s.preds[b]:
                    if p not in can:
                        can.add(p)
                        st.append(p)
            return set(range(len(s.blocks))) - can
        return s._memo("abort", f)

    def lsuccs(s, b):
        """live successors: those that do not lead to certain abort"""
        a = s.abortset
        out = []
        for t in s.succs(b):
            if t not in a and t not in out:
                out.append(t)
        return out

    @property
    def rets(s):
        return [i for i in s.instrs() if i.op == "ret"]

    def _dom(s, n, entry, preds, order):
        idom = {entry: entry}
        num = {b: k for k, b in enumerate(order)}
        ch = True
        while ch:
            ch = False
            for b in order:
                if b == entry:
                    continue
                new = None
                for p in preds(b):
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        return idom

    @property
    def idom(s):
        def f():
            order = s._rpo([0], s.succs)
            return s._dom(len(s.blocks), 0, lambda b: s.preds[b], order)
        return s._memo("idom", f)

    def _rpo(s, entries, succ):
        seen = set()
        out = []
        for e in entries:
            if e in seen:
                continue
            seen.add(e)
            st = [(e, iter(succ(e)))]
            while st:
                b, it = st[-1]
                for t in it:
                    if t not in seen:
                        seen.add(t)
                        st.append((t, iter(succ(t))))
                        break
                else:
                    out.append(b)
                    st.pop()
        out.reverse()
        return out

    def dominates(s, a, b):
        """block a dominates block b"""
        d = s.idom
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if d[b] == b:
                return False
            b = d[b]

    def idominates(s, i, j):
        if i.bb == j.bb:
            return i.idx <= j.idx
        return s.dominates(i.bb, j.bb)

    @property
    def ipdom(s):
        """post-dominators over live (non-aborting) blocks; -1 is the exit"""
        def f():
            live = [b for b in s.reachable if b not in s.abortset]
            EX = -1
            succ = {b: (s.lsuccs(b) or [EX]) for b in live}
            pred = defaultdict(list)
            for b in live:
                for t in succ[b]:
                    pred[t].append(b)
            order = s._rpo([EX], lambda b: pred[b])
            return s._dom(len(live), EX, lambda b: succ.get(b, ()), order)
        return s._memo("ipdom", f)

    def postdominates(s, a, b):
        d = s.ipdom
        if b not in d:
            return True
        while True:
            if a == b:
                return True
            if d[b] == b:
                return False
            b = d[b]

    @property
    def cdeps(s):
        """block -> set of branch blocks it is (directly) control dependent on,
        abort edges pruned"""
        def f():
            cd = defaultdict(set)
            pd = s.ipdom
            for b in s.reachable:
                if b in s.abortset or b not in pd:
                    continue
                su = s.lsuccs(b)
                if len(su) < 2:
                    continue
                stop = pd[b]
                for t in su:
                    r = t
                    while r != stop and r in pd:
                        cd[r].add(b)
                        if pd[r] == r:
                            break
                        r = pd[r]
            return cd
        return s._memo("cdeps", f)

    @property
    def tcdeps(s):
        """transitive control dependence"""
        def f():
            r = {}
            for b in range(len(s.blocks)):
                seen = set()
                st = [b]
                while st:
                    x = st.pop()
                    for c in s.cdeps.get(x, ()):
                        if c not in seen:
                            seen.add(c)
                            st.append(c)
                r[b] = seen
            return r
        return s._memo("tcdeps", f)

    @property
    def users(s):
        def f():
            u = defaultdict(list)
            for i in s.instrs():
                for v in operands(i):
                    u[v].append(i)
            return u
        return s._memo("users", f)

    def reach_from(s, i, stop=lambda x: False, live=True):
        """instructions reachable after instruction i (exclusive); exploration
        does not continue past an instruction for which stop() is true (that
        instruction itself is yielded)"""
        out = []
        blk = s.blocks[i.bb]
        for k in range(i.idx + 1, len(blk)):
            out.append(blk[k])
            if stop(blk[k]):
                return out
        seen = set()
        su = s.lsuccs if live else s.succs
        st = list(su(i.bb))
        while st:
            b = st.pop()
            if b in seen:
                continue
            seen.add(b)
            ok = True
            for x in s.blocks[b]:
                out.append(x)
                if stop(x):
                    ok = False
                    break
            if ok:
                st.extend(su(b))
        return out

    def __repr__(s):
        return "<Fn %s>" % s.key


def operands(i):
    """SSA ids used by instruction i"""
    r = []
    for v in i.ops:
        _ids(v, r)
    if i.op == "phi":
        for v, _ in i.x["inc"]:
            _ids(v, r)
    if i.op == "getelementptr":
        for st in i.x["gep"]["steps"]:
            if "i" in st:
                _ids(st["i"], r)
    if "cond" in i.x:
        _ids(i.x["cond"], r)
    c = i.x.get("callee")
    if isinstance(c, int):
        r.append(c)
    return r


def _ids(v, r):
    if isinstance(v, int):
        r.append(v)


def rename(o, what):
    """self-test of the checks: local variables, parameters (v) and internal functions and tables (f) get other names"""
    own = {x["name"] for k in ("functions", "globals") for x in o[k] if x.get("internal") and not x["name"].startswith(".")} if "f" in what else set()

    def walk(x):
        if isinstance(x, list):
            for y in x:
                walk(y)
        elif isinstance(x, dict):
            if x.get("k") in ("f", "g") and x.get("n") in own:
                x["n"] = "zz_" + x["n"][::-1]
            for y in x.values():
                walk(y)
    if own:
        walk(o)
    for k in ("functions", "globals"):
        for x in o[k]:
            if x["name"] in own:
                x["name"] = "zz_" + x["name"][::-1]
                if "dname" in x:
                    x["dname"] = x["name"]
            if k == "functions":
                ps = [q for q in x.get("params", ()) if q["name"]]
                keep = set()
                if x.get("internal") and "v" in what or "p" in what:
                    for q in ps:
                        q["name"] = "zz_" + q["name"][::-1]
                else:
                    keep = {q["name"] for q in ps}
                for vs in x.get("vars", {}).values():
                    for v in vs if isinstance(vs, list) else [vs]:
                        if v["n"] not in keep and ("v" in what):
                            v["n"] = "zz_" + v["n"][::-1]


class Unit:
    def __init__(s, name, path):
        with open(path) as f:
            o = json.load(f)
        if os.environ.get("VERIF_RENAME"):
            rename(o, os.environ["VERIF_RENAME"])
        s.name = name
        s.files = o["files"]
        s.types = o["types"]
        s.structs = o["structs"]
        s._rel = {}
        s.fns = {}
        for fo in o["functions"]:
            f = Fn(s, fo)
            s.fns[f.name] = f
        s.globals = {g["name"]: g for g in o["globals"]}

    def rel(s, fi):
        r = s._rel.get(fi)
        if r is None:
            p = os.path.normpath(s.files[fi])
            if p.startswith(REPO + "/"):
                p = p[len(REPO) + 1:]
            s._rel[fi] = r = p
        return r

    def member(s, st, e):
        """(struct base name, member name) of element e of LLVM struct st"""
        so = s.structs.get(st)
        base = st.split(".", 1)[1] if "." in st else st
        # strip ".123" suffix
        k = base.rsplit(".", 1)
        if len(k) == 2 and k[1].isdigit():
            base = k[0]
        if so and "members" in so and "elems" in so:
            off = so["elems"][e]["off"]
            for m in so["members"]:
                if m["off"] == off and not so.get("union"):
                    return base, m["n"], m
            if so.get("union"):
                return base, "<union>", None
        return base, "#%d" % e, None


class Prog:
    def __init__(s, config="debug", inline=0):
        s.config = config
        s.units = {}
        s.fn = {}          # key -> Fn (definitions)
        s.ext = {}         # external linkage name -> Fn
        s.decls = {}
        for name, path in B.build(config, inline):
            u = Unit(name, path)
            s.units[name] = u
        for u in s.units.values():
            for f in u.fns.values():
                if f.decl:
                    s.decls.setdefault(f.name, f)
                else:
                    s.fn[f.key] = f
                    if not f.internal:
                        s.ext[f.name] = f
        if len(s.fn) < 500:
            raise Broken("only %d functions analysed" % len(s.fn))

    def resolve(s, unit, name):
        """function definition for a name used in unit, or None if external"""
        f = unit.fns.get(name)
        if f is not None and not f.decl:
            return f
        return s.ext.get(name)

    def target(s, i):
        n = i.callee()
        return s.resolve(i.fn.unit, n) if n else None

    def functions(s):
        return s.fn.values()

    def structinfo(s, base):
        for u in s.units.values():
            for pre in ("struct.", "union."):
                so = u.structs.get(pre + base)
                if so and "members" in so:
                    return so
        return None

    def globalinit(s, name, unit=None):
        for u in ([s.units[unit]] if unit else s.units.values()):
            g = u.globals.get(name)
            if g and not g["decl"]:
                return g
        return None


def cval(v):
    """integer constant value of an operand or None"""
    if isinstance(v, dict) and v.get("k") == "c":
        return v["v"]
    return None
