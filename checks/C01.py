"""C01: collective operations are called by all processes alike."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import multiprocessing
import ir, effects, harness, ext, spmd
from collections import defaultdict


# numbers that every operation keeps equal on all processes
AGREED = {"global_num_quadrants", "revision", "mpisize", "weight_exponent"}


# arguments of collective functions that are documented to belong to the calling process
OWN = {"p4est_new_points": (3, 4), "p4est_connectivity_bcast": (0,), "p4est_connectivity_mission": (0,), "p4est_connectivity_share": (0,),
       "p4est_comm_sync_flag": (1,), "p4est_comm_checksum": (1, 2), "p4est_inflate": (4,), "p4est_transfer_fixed": (4, 5), "p4est_transfer_fixed_begin": (4, 5),
       "p4est_transfer_custom": (4, 5, 6, 7), "p4est_transfer_custom_begin": (4, 5, 6, 7), "p4est_transfer_items": (4, 5, 6, 7), "p4est_transfer_items_begin": (4, 5, 6, 7),
       "p4est_ghost_exchange_custom": (3, 4), "p4est_ghost_exchange_custom_begin": (3, 4), "p4est_ghost_exchange_custom_levels": (5, 6),
       "p4est_ghost_exchange_data": (2,), "p4est_ghost_exchange_data_begin": (2,)}


class An:
    def __init__(s, p, sp):
        s.p, s.sp = p, sp
        s.coll = {}
        s.closure()
        s.req = defaultdict(dict)      # function key -> parameter -> (instr, why)
        s.alarms = []
        s.sites = 0
        s.sub = 0
        s.fields = 0
        s.args = 0
        s.samples = []

    def closure(s):
        calls = defaultdict(set)
        st = []
        for f in s.p.functions():
            for i in f.instrs():
                if i.op != "call":
                    continue
                t = s.p.target(i)
                if t is not None:
                    calls[t.key].add(f.key)
                elif i.callee() in spmd.COLL and f.key not in s.coll:
                    s.coll[f.key] = i.callee()
                    st.append(f.key)
        while st:
            k = st.pop()
            for c in calls[k]:
                if c not in s.coll:
                    s.coll[c] = s.p.fn[k].name
                    st.append(c)

    def iscoll(s, i):
        if i.op != "call":
            return None
        t = s.p.target(i)
        if t is not None:
            return t.name if t.key in s.coll else None
        n = i.callee()
        return n if n in spmd.COLL else None

    def balanced(s, f, b):
        """do all arms of the branch issue the same collectives?"""
        arms = []
        ip = f.ipdom.get(b)
        for t in dict.fromkeys(f.lsuccs(b)):
            seq, x, seen = [], t, set()
            # the arm must be a simple region: count collectives in all blocks up to the join, no nested choice about them
            st = [t] if t != ip else []
            while st:
                x = st.pop()
                if x in seen or x == ip or x in f.abortset:
                    continue
                seen.add(x)
                st += f.lsuccs(x)
            if b in seen:
                return False
            for x in sorted(seen):
                for i in f.blocks[x]:
                    n = s.iscoll(i)
                    if n:
                        # executed exactly when the arm is taken
                        if f.cdeps.get(x, set()) != {b}:
                            return False
                        seq.append(n)
            arms.append(sorted(seq))
        return all(a == arms[0] for a in arms)

    def subcomm(s, f, x, i):
        """the collective is over a communicator that this function has split off just before, whose members alone get here"""
        for j in f.instrs():
            if j.op == "call" and j.callee() in ("MPI_Comm_split",):
                out = {a for a in x.fa.v(j.ops[3])}
                for o in i.ops:
                    d = f.val.get(o) if isinstance(o, int) else None
                    if d is not None and (out & x.fa.v(o) or d.op == "load" and out & x.fa.v(d.ops[0])) and f.idominates(j, i):
                        return True
        return False

    def run(s):
        for f in s.p.functions():
            if f.key not in s.coll:
                continue
            x = s.sp.fn[f.key]
            for i in f.instrs():
                n = s.iscoll(i)
                if not n or i.bb in f.abortset:
                    continue
                s.sites += 1
                if s.subcomm(f, x, i):
                    s.sub += 1
                    continue
                if len(s.samples) < 3 and f.tcdeps.get(i.bb):
                    s.samples.append("%s (%s) calls %s: %d controlling branches common to all processes" % (f.name, i.where(), n, len(f.tcdeps[i.bb])))
                for b in f.tcdeps.get(i.bb, ()):
                    l = x.cond(b)
                    if not l or s.balanced(f, b):
                        continue
                    t = sorted(a[1] for a in l if a[0] == "T")
                    br = f.blocks[b][-1]
                    if t:
                        s.alarms.append((f, i, "call of %s in %s depends on the branch at %s, which depends on %s" % (n, f.name, br.where(), ", ".join(t))))
                    for a in l:
                        if a[0] == "P" and a[1] not in s.req[f.key]:
                            s.req[f.key][a[1]] = (i, "%s at %s under the branch at %s" % (n, i.where(), br.where()))
                if i.callee() in spmd.REPL_ARG and s.p.target(i) is None:
                    for k in spmd.REPL_ARG[i.callee()]:
                        s.need(f, x, i, k, i.ops[k] if k < len(i.ops) else None, "argument %d of %s at %s" % (k, n, i.where()))
        for f in s.p.functions():
            x = s.sp.fn[f.key]
            for i in f.instrs():
                if i.op != "store" or i.bb in f.abortset:
                    continue
                av = [a for a in x.fa.v(i.ops[1]) if a[0][0] not in ("N", "F")]
                fl = {a[1][-1] for a in av if a[1] and a[1][-1].split(".")[-1] in AGREED and a[1][-1] in spmd.REPL}
                if not av or len(fl) != 1 or len(av) != sum(1 for a in av if a[1]):
                    continue
                s.fields += 1
                fl = fl.pop()
                s.need(f, x, i, 0, i.ops[0], "%s, which all processes have alike" % fl)
                t = sorted(a[1] for a in x.ctl(i.bb) if a[0] == "T")
                if t:
                    s.alarms.append((f, i, "%s sets %s at %s depending on %s" % (f.name, fl, i.where(), ", ".join(t))))
        todo = set(s.req)
        callers = defaultdict(list)
        for f in s.p.functions():
            for i in f.instrs():
                if i.op == "call":
                    t = s.p.target(i)
                    if t is not None:
                        callers[t.key].append((f, i))
        while todo:
            k = todo.pop()
            for f, i in callers[k]:
                if i.bb in f.abortset:
                    continue
                x = s.sp.fn[f.key]
                for n, (j, why) in s.req[k].items():
                    if n >= len(i.ops):
                        continue
                    before = set(s.req[f.key])
                    s.need(f, x, i, n, i.ops[n], why, deep=True)
                    if set(s.req[f.key]) != before:
                        todo.add(f.key)

        s.own = 0
        for k in list(s.p.fn):
            f = s.p.fn[k]
            for n in OWN.get(f.name.replace("p8est_", "p4est_"), ()):
                s.own += 1
                if n >= f.nargs:
                    continue
                if n in s.req.get(k, {}):
                    s.alarms.append((f, s.req[k][n][0], "argument %s of %s, which is the process's own, decides %s" % (f.pname(n), f.name, s.req[k][n][1])))

    def need(s, f, x, i, k, o, why, deep=False):
        if o is None:
            return
        s.args += 1
        l = x.arg(o, i) if deep else x.of(o)
        t = sorted(a[1] for a in l if a[0] == "T")
        if "alike" in why:
            # read by the root and broadcast if asked for: the same for all in either case
            t = [x for x in t if x != "MPI_Comm_rank"]
        if t:
            s.alarms.append((f, i, "%s passes at %s a value depending on %s that decides %s" % (f.name, i.where(), ", ".join(t), why)))
        for a in l:
            if a[0] == "P" and a[1] not in s.req[f.key]:
                s.req[f.key][a[1]] = (i, why)


def analyse(config):
    p = ir.Prog(config, inline=0)
    sp = spmd.Spmd(p, effects.Effects(p))
    a = An(p, sp)
    a.run()
    pri = sum(1 for k in a.coll for b in range(len(p.fn[k].blocks)) if b not in p.fn[k].abortset and any(x[0] == "T" for x in sp.fn[k].cond(b)))
    return {"functions": len(a.coll), "sites": a.sites, "sub": a.sub, "fields": a.fields, "local_branches": pri, "args": a.args,
            "own": a.own, "req": sum(len(v) for v in a.req.values()),
            "alarms": [("%s:%s" % (f.name, i.callee() if i.op == "call" else "field"), t) for f, i, t in a.alarms],
            "samples": a.samples}


def run():
    c = harness.Check("C01", "Rank dependence analysis (information flow through values, memory and control, whole library): no call that reaches a collective "
                      "operation is controlled by a branch whose condition may differ between processes, unless both arms make the same collective calls; roots, counts, types "
                      "and operators of collectives and the replicated numbers of a forest do not depend on per-process values. Values become common again as the output of a "
                      "collective. Fields of the public structures are classified as common or per process by table, all others by what is stored in them.",
                      assumptions=["arguments of public functions are the same on all processes where the documentation makes them collective, except those listed as the process's own; call-backs return what they like",
                                   "the fields tabled as common in lib/spmd.py are common (stores to the counts and the revision are checked, the others are by construction)"])
    cfgs = sys.argv[1:] or ["debug", "release"]
    with multiprocessing.Pool(len(cfgs)) as pool:
        res = pool.map(analyse, cfgs)
    for config, r in zip(cfgs, res):
        c.good(r["sites"] + r["args"] + r["fields"] - len(r["alarms"]))
        for k, t in r["alarms"]:
            c.obligation(False, k, t)
        c.samples += r["samples"][:3]
        c.floor("collective_functions_" + config, r["functions"], 150)
        c.floor("collective_call_sites_" + config, r["sites"], 330)
        c.floor("collective_arguments_" + config, r["args"], 100)
        c.floor("common_fields_stored_" + config, r["fields"], 12)
        c.floor("per_process_branches_in_collective_functions_" + config, r["local_branches"], 250)
        c.floor("conditions_passed_to_callers_" + config, r["req"], 40)
        c.floor("arguments_of_the_process_" + config, r["own"], 30)
        c.counts["split_communicator_sites_" + config] = r["sub"]
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
