"""C06: global numbers are never carried in 32 bits."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, ext, spmd, paths
from collections import defaultdict
NOT = frozenset()
GT = "p4est_gloidx_t"
# while the node numbering is built this array holds local positions until they are replaced: reading it proves nothing
HELD = {"p4est_lnodes.nonlocal_nodes", "p8est_lnodes.nonlocal_nodes"}
# these write positions in an array, whatever the array holds
POSITIONS = {"sc_array_split", "sc_array_bsearch", "sc_search_lower_bound64", "sc_search_bias", "sc_ranges_compute", "sc_ranges_adaptive"}


def wide(t):
    return t.replace("const ", "").replace("*", "").replace(" ", "") in (GT,)


class W(spmd.L):
    """labels: ("T", why) as large as a global number; ("P", i) as large as parameter i; ("M", where) a product formed in 32 bits"""

    held = None

    def ctl(s, bb):
        return NOT

    def phictl(s, i):
        return NOT

    def run(s):
        f = s.f
        for k in range(f.nargs):
            s.lab[k] = frozenset([("P", k)])
            if not f.internal and k + 1 < len(f.ditypes) and wide(f.ditypes[k + 1]):
                s.sp.gp[f.key].add(k)
        order = f._rpo([0], f.succs)
        for rnd in range(8):
            s.ch = False
            for b in order:
                if b in f.abortset:
                    continue
                for i in f.blocks[b]:
                    s.do(i)
            if not s.ch:
                break
        return s

    def big(s, o):
        """as large as a global number, by what an earlier round of the whole analysis found (differences do not feed back)"""
        return any(x[0] in "TP" for x in s.of(o) | s.before(o))

    def before(s, o):
        q = s.sp.prior.get(s.f.key)
        return q[0].get(o, NOT) if q and isinstance(o, int) else NOT

    def memget(s, a, ins):
        c = s.sp.cls(a[1])
        if c and c[6:] in HELD:
            if s.held is None:
                s.held = {x for i in s.f.instrs() if i.op == "store" for b in s.fa.v(i.ops[1]) for x in [s.sp.cls(b[1])] if x}
            if c in s.held:
                return NOT
        q = s.sp.prior.get(s.f.key)
        if q and not c and (a[0], a[1]) in q[1]:
            return NOT
        return super().memget(a, ins)

    def mixed(s):
        """elements of arrays (not named fields) that hold local and global numbers in turn"""
        r = set()
        for i in s.f.instrs():
            if i.op == "store" and isinstance(i.ops[0], int) and not any(x[0] in "TP" for x in s.of(i.ops[0])) and i.bb not in s.f.abortset:
                for a in s.fa.v(i.ops[1]):
                    if a[0][0] != "A" or a[1]:
                        r.add((a[0], a[1]))
        return r

    def minmax(s, i):
        """phi or select of two compared values: (smaller, larger) chosen"""
        f = s.f
        if i.op == "select":
            c, a, b = i.ops
            d = f.val.get(c) if isinstance(c, int) else None
        else:
            if len(i.x["inc"]) != 2:
                return None
            (a, pa), (b, pb) = i.x["inc"]
            top = f.idom.get(i.bb)
            if top is None:
                return None
            t = f.blocks[top][-1]
            d = f.val.get(t.x["cond"]) if isinstance(t.x.get("cond"), int) else None
            if d is None or len(t.x["succ"]) != 2:
                return None
            # arms
            tr = t.x["succ"][0]
            on = lambda p: p == tr if tr != i.bb else p == top and tr == i.bb
            if pa == tr and tr != i.bb or (pa == top and tr == i.bb):
                pass
            elif pb == tr and tr != i.bb or (pb == top and tr == i.bb):
                a, b = b, a
            else:
                return None
        if d is None or d.op != "icmp":
            return None
        pr = d.x["pred"]
        x, y = d.ops
        same = lambda u, v: s.key(u) == s.key(v)
        if same(x, a) and same(y, b):
            pass
        elif same(x, b) and same(y, a):
            pr = {"slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule"}.get(pr, pr)
        else:
            return None
        if pr in ("slt", "sle", "ult", "ule"):
            return "min"
        if pr in ("sgt", "sge", "ugt", "uge"):
            return "max"
        return None

    def unlike(s, a, b):
        """elements of two different arrays"""
        v = []
        for o in (a, b):
            d = s.f.val.get(o) if isinstance(o, int) else None
            if d is None or d.op != "load" or not isinstance(d.ops[0], int):
                return False
            e = s.f.val.get(d.ops[0])
            if e is None or e.op != "getelementptr" or not any("i" in x and isinstance(x["i"], int) for x in e.x["gep"]["steps"]):
                return False
            v.append(s.fa.v(d.ops[0]))
        return bool(v[0] and v[1]) and not v[0] & v[1]

    def key(s, o):
        d = s.f.val.get(o) if isinstance(o, int) else None
        n = 0
        while d is not None and d.op in ("sext", "zext", "trunc", "freeze") and n < 4:
            o = d.ops[0]
            d = s.f.val.get(o) if isinstance(o, int) else None
            n += 1
        if d is not None and d.op == "load":
            av = s.fa.v(d.ops[0])
            return ("ld", tuple(sorted(map(repr, av))))
        return repr(o)

    def do(s, i):
        op = i.op
        if op in ("phi", "select"):
            vs = [v for v, b in i.x["inc"] if b not in s.f.abortset] if op == "phi" else list(i.ops[1:])
            l = NOT
            for v in vs:
                l |= s.of(v)
            if s.minmax(i) == "min" and not all(any(x[0] == "T" or x[0] == "P" for x in s.of(v)) for v in vs):
                l = frozenset(x for x in l if x[0] in "Mm")
            s.set(i.id, l)
        elif op == "load":
            l = NOT
            av = s.fa.v(i.ops[0])
            for a in av:
                l |= s.memget(a, i)
            s.set(i.id, l)
        elif op == "store":
            l = frozenset(x for x in s.of(i.ops[0]) if x[0] != "m")
            av = s.fa.v(i.ops[1])
            for a in av:
                s.memset(a, l, i)
            if len(av) == 1:
                a = next(iter(av))
                if a[0][0] == "A" and a[1] == () and isinstance(i.ops[1], int) and s.scalar(i.ops[1]):
                    s.setsan(a, i, l)
        elif op == "call":
            s.call(i)
        elif op == "sub":
            a, b = s.of(i.ops[0]), s.of(i.ops[1])
            l = a | b
            if s.big(i.ops[0]) and s.big(i.ops[1]) and s.unlike(*i.ops):
                # how far two distributions are apart is not a number of things on one process
                l = l | frozenset([("T", "the difference of entries of two arrays of global numbers")])
            elif s.big(i.ops[0]) and s.big(i.ops[1]):
                l = frozenset(x for x in l if x[0] in "Mm")
            elif s.big(i.ops[1]):
                l = frozenset(x for x in l if x[0] in "Mm")
            s.set(i.id, l)
        elif op in ("sdiv", "udiv", "lshr", "ashr"):
            if s.big(i.ops[1]):
                s.set(i.id, NOT)
            else:
                s.set(i.id, s.of(i.ops[0]))
        elif op in ("srem", "urem"):
            s.set(i.id, s.of(i.ops[1]))
        elif op == "and":
            s.set(i.id, s.of(i.ops[0]) & s.of(i.ops[1]) if not all(s.of(o) for o in i.ops) else s.of(i.ops[0]) | s.of(i.ops[1]))
        elif op in ("add", "mul", "shl", "or", "xor", "freeze", "bitcast", "ptrtoint", "inttoptr"):
            l = NOT
            for o in i.ops:
                l |= s.of(o)
            if op == "mul" and s.w(i) == 32 and all(isinstance(o, int) for o in i.ops):
                l |= frozenset([("m", i.where())])
            s.set(i.id, l)
        elif op in ("sext", "zext"):
            l = s.of(i.ops[0])
            d = s.f.val.get(i.ops[0]) if isinstance(i.ops[0], int) else None
            if s.w(i) > 32:
                l = frozenset(("M", x[1]) if x[0] == "m" else x for x in l)
                if d is not None and d.op in ("mul", "shl") and any(isinstance(o, int) for o in d.ops):
                    l = l | frozenset([("M", d.where())])
            s.set(i.id, l)
        elif op == "trunc":
            # what is cut off has been reported; the rest is not large any more
            s.set(i.id, NOT)

    def w(s, i):
        return int(i.t[1:]) if isinstance(i.t, str) and i.t[:1] == "i" and i.t[1:].isdigit() else 0

    def call(s, i):
        n = i.callee()
        t = s.sp.prog.target(i)
        if t is None and n and not n.startswith("llvm."):
            allargs = NOT
            for o in i.ops:
                allargs |= s.arg(o, i)
            for k, suf in () if n in POSITIONS else ext.W.get(n) or ():
                if k < len(i.ops):
                    for a in s.fa.walk(s.fa.v(i.ops[k]), suf):
                        s.memset(a, frozenset(x for x in allargs if x[0] not in "Mm"), i)
            s.set(i.id, NOT)
            return
        if n and n.startswith("llvm.mem"):
            l = s.arg(i.ops[1], i) if not n.startswith("llvm.memset") else NOT
            for a in s.fa.v(i.ops[0]):
                s.memset(a, l, i)
            return
        super().call(i)
        if t is not None and not t.internal and t.ditypes and wide(t.ditypes[0]) and "*" not in t.ditypes[0]:
            s.set(i.id, frozenset([("T", "the result of " + t.name)]))


def gfields(p):
    g = {}
    for u in p.units.values():
        for n, so in u.structs.items():
            for m in so.get("members", ()):
                if wide(m["t"]):
                    g.setdefault(n.replace("struct.", "").replace("union.", "") + "." + m["n"], m["t"])
    return g


def analyse(config):
    p = ir.Prog(config, inline=0)
    g = gfields(p)
    memo = {}

    def classify(path):
        r = memo.get(path)
        if r is None:
            r = 0
            for st in path:
                if st in g:
                    r = "field " + st
            memo[path] = r
        return r
    eff = effects.Effects(p)
    spmd.Spmd.gp = defaultdict(set)
    spmd.Spmd.prior = {}
    for rnd in range(2):
        sp = spmd.Spmd(p, eff, W, classify)
        spmd.Spmd.prior = {k: (x.lab, x.mixed()) for k, x in sp.fn.items()}
    sp.prior = {}
    out = {"alarms": [], "fields": sorted(g), "trunc": 0, "checked": 0, "prod": 0, "samples": []}
    req = defaultdict(dict)
    for f in p.functions():
        x = sp.fn[f.key]
        for i in f.instrs():
            if i.bb in f.abortset:
                continue
            if i.op == "trunc":
                out["trunc"] += 1
                l = x.of(i.ops[0])
                if x.w(i) > 32 or x.w(i) < 8:
                    continue
                if l:
                    out["checked"] += 1
                    if len(out["samples"]) < 4:
                        out["samples"].append("%s (%s): narrowed to %d bits, not as large as a global number" % (i.where(), f.name, x.w(i)))
                t = sorted(a[1] for a in l if a[0] == "T")
                if t:
                    out["alarms"].append(("%s:trunc" % f.name, "%s (%s): a number as large as %s is narrowed to %d bits" % (i.where(), f.name, ", ".join(t), x.w(i))))
                for a in l:
                    if a[0] == "P":
                        req[f.key].setdefault(a[1], "narrowed at %s in %s" % (i.where(), f.name))
            elif i.op == "store":
                m = sorted(a[1] for a in x.of(i.ops[0]) if a[0] == "M")
                fl = [q for a in x.fa.v(i.ops[1]) for q in [classify(a[1])] if q]
                if fl:
                    out["prod"] += 1
                    if m:
                        out["alarms"].append(("%s:product" % f.name, "%s (%s): %s receives a product formed in 32 bits at %s" % (i.where(), f.name, fl[0], m[0])))
            elif i.op == "icmp":
                for o, q in (i.ops, i.ops[::-1]):
                    m = sorted(a[1] for a in x.of(o) if a[0] == "M")
                    if m:
                        out["prod"] += 1
                        if isinstance(q, int) and (any(a[0] == "T" for a in x.of(q)) or any(wide(v["t"]) and "*" not in v["t"] for v in f.vars.get(q, ()))):
                            out["alarms"].append(("%s:product" % f.name, "%s (%s): a global number is compared with a product formed in 32 bits at %s" % (i.where(), f.name, m[0])))
            for v in f.vars.get(i.id, ()):
                if wide(v["t"]) and "*" not in v["t"]:
                    out["prod"] += 1
                    m = sorted(a[1] for a in x.of(i.id) if a[0] == "M")
                    if m:
                        out["alarms"].append(("%s:product" % f.name, "%s (%s): %s receives a product formed in 32 bits at %s" % (i.where(), f.name, v["n"], m[0])))
    for k, ks in sp.gp.items():
        for n in ks:
            if n in req[k]:
                out["alarms"].append(("%s:argument" % p.fn[k].name, "%s: argument %s is a global number and %s" % (p.fn[k].name, p.fn[k].pname(n), req[k][n])))
    sums(p, eff, out)
    callers = defaultdict(list)
    for f in p.functions():
        for i in f.instrs():
            if i.op == "call":
                t = p.target(i)
                if t is not None:
                    callers[t.key].append((f, i))
    out["params"] = sum(len(v) for v in sp.gp.values())
    todo = set(req)
    while todo:
        k = todo.pop()
        for f, i in callers[k]:
            if i.bb in f.abortset:
                continue
            for n, why in list(req[k].items()):
                if n >= len(i.ops):
                    continue
                l = sp.fn[f.key].arg(i.ops[n], i)
                t = sorted(a[1] for a in l if a[0] == "T")
                if t:
                    out["alarms"].append(("%s:passes" % f.name, "%s (%s) passes a number as large as %s, %s" % (i.where(), f.name, ", ".join(t), why)))
                for a in l:
                    if a[0] == "P" and a[1] not in req[f.key]:
                        req[f.key][a[1]] = why
                        todo.add(f.key)
    return out


I32 = {"ompi_mpi_int", "ompi_mpi_unsigned", "ompi_mpi_int32_t", "ompi_mpi_short"}
GATHER = {"MPI_Allgather": (3, 5), "MPI_Gather": (3, 5), "MPI_Allgatherv": (3, 6), "MPI_Gatherv": (3, 6), "sc_allgather": (3, 5)}
REDUCE = {"MPI_Allreduce": (3, 4), "MPI_Reduce": (3, 4), "MPI_Exscan": (3, 4), "MPI_Scan": (3, 4), "sc_allreduce": (3, 4), "sc_reduce": (3, 4)}


def sums(p, eff, out):
    """sums of local numbers over all processes are global numbers"""
    name = lambda o: o.get("n") if isinstance(o, dict) and o.get("k") == "g" else None
    fields = set()
    here = defaultdict(set)
    out["reductions"] = out["gathers"] = out["sums"] = 0
    for f in p.functions():
        fa = eff.fa[f.key]
        for i in f.instrs():
            n = i.callee() if i.op == "call" else None
            if n in REDUCE and i.bb not in f.abortset and len(i.ops) > REDUCE[n][1]:
                out["reductions"] += 1
                t, op = name(i.ops[REDUCE[n][0]]), name(i.ops[REDUCE[n][1]])
                if t in I32 and op == "ompi_mpi_op_sum":
                    out["alarms"].append(("%s:reduce" % f.name, "%s (%s): a sum over all processes is formed in 32 bits" % (i.where(), f.name)))
            if n in GATHER and len(i.ops) > GATHER[n][1] and name(i.ops[GATHER[n][1]]) in I32:
                out["gathers"] += 1
                for a in fa.v(i.ops[GATHER[n][0]]):
                    here[f.key].add(a)
                    for loc, vals in fa.M.items():
                        if a in vals and loc[1]:
                            fields.add(loc[1][-1])
                    if a[1]:
                        fields.add(next((x for x in reversed(a[1]) if x != "*"), None))
    for f in p.functions():
        fa = eff.fa[f.key]

        def gathered(o, n=0):
            d = f.val.get(o) if isinstance(o, int) else None
            if d is None or n > 4:
                return False
            if d.op in ("sext", "zext", "trunc", "freeze"):
                return gathered(d.ops[0], n + 1)
            if d.op == "load" and d.t == "i32":
                return any(a in here[f.key] or a[1][-1:] == ("*",) and len(a[1]) > 1 and a[1][-2] in fields for a in fa.v(d.ops[0]))
            return False

        for i in f.instrs():
            if i.op != "add" or i.bb in f.abortset:
                continue
            for k in (0, 1):
                if not gathered(i.ops[k]):
                    continue
                out["sums"] += 1
                o = i.ops[1 - k]
                d = f.val.get(o) if isinstance(o, int) else None
                # the sum is carried on: from turn to turn, or from entry to entry
                on = False
                if d is not None and d.op == "phi":
                    st, seen = [d], set()
                    while st:
                        x = st.pop()
                        if x.id in seen:
                            continue
                        seen.add(x.id)
                        for v, _ in x.x["inc"]:
                            on = on or v == i.id
                            if isinstance(v, int) and v in f.val and f.val[v].op == "phi":
                                st.append(f.val[v])
                if d is not None and d.op == "load":
                    g = paths.Graph(f, fa)
                    e = f.val.get(d.ops[0]) if isinstance(d.ops[0], int) else None
                    # adding entry by entry is no sum
                    entry = e is not None and e.op == "getelementptr" and any(isinstance(x.get("i"), int) for x in e.x["gep"]["steps"])
                    on = any(u.op == "store" and u.ops[0] == i.id and fa.v(u.ops[1]) & fa.v(d.ops[0]) and not (entry and g.addr(u.ops[1]) == g.addr(d.ops[0]))
                             for u in f.users[i.id])
                if on and i.t == "i32":
                    out["alarms"].append(("%s:sum" % f.name, "%s (%s): local numbers of all processes are added up in 32 bits" % (i.where(), f.name)))


def run():
    c = harness.Check("C06", "Magnitude analysis (flow of global numbers through values, memory, struct fields and calls, whole library): no value that is as large as a global "
                      "number is cut to 32 bits, directly or inside a function it is passed to; the difference of two global numbers, the smaller of a global and a local number, a quotient "
                      "by a global number and positions in arrays are local. No product formed in 32 bits reaches a field or variable of the global number type or is compared with one.",
                      assumptions=["every struct field and public parameter declared with the library's global number type holds global numbers",
                                   "differences of global numbers are numbers of things on one process; array elements that hold local and global numbers in turn are not followed"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        c.good(r["trunc"] + r["prod"])
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:4]
        c.floor("global_number_fields_" + config, len(r["fields"]), 12)
        c.floor("narrowings_" + config, r["trunc"], 700)
        c.floor("narrowings_of_labelled_values_" + config, r["checked"], 120)
        c.floor("places_that_receive_global_numbers_" + config, r["prod"], 350)
        c.floor("gathers_of_local_numbers_" + config, r["gathers"], 6)
        c.counts["sums_of_gathered_numbers_" + config] = r["sums"]
        c.counts["reductions_" + config] = r["reductions"]
        c.floor("public_global_parameters_" + config, r["params"], 20)
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
