"""Rank dependence: which values may differ between processes, and which of them decide whether or how often a collective
operation is called.  Labels are sets of atoms: ("P", i) the i-th parameter (or the memory behind it), ("T", why) a value
that may differ between processes.  Explicit flows through values and memory, implicit flows through control dependence
(including loop exits) with edges into certain abort removed.  Struct fields are classified by the tables below or, where
they are not listed, by everything that is stored in them anywhere in the library."""
import ir, ext, effects
from collections import defaultdict

NOT = frozenset()
MAXT = 4

REPL = {}
LOCAL = {}


def fields(tab, st, names):
    for n in names.split():
        for pre in (("p4est", "p8est") if st.startswith("p4est") else (st[:5],)):
            tab[pre + st[5:] + "." + n] = st + "." + n


fields(REPL, "p4est", "mpicomm mpisize mpicomm_owned data_size user_pointer revision global_num_quadrants global_first_quadrant "
       "global_first_position connectivity trees inspect user_data_pool quadrant_pool")
fields(LOCAL, "p4est", "mpirank first_local_tree last_local_tree local_num_quadrants")
fields(LOCAL, "p4est_tree", "quadrants first_desc last_desc quadrants_offset quadrants_per_level maxlevel")
fields(REPL, "p4est_connectivity", "num_vertices num_trees num_corners num_edges vertices tree_to_vertex tree_attr_bytes tree_to_attr tree_to_tree tree_to_face "
       "tree_to_edge ett_offset edge_to_tree edge_to_edge tree_to_corner ctt_offset corner_to_tree corner_to_corner")
fields(REPL, "p6est_connectivity", "conn4 top_vertices height")
fields(REPL, "p6est", "mpicomm mpisize mpicomm_owned data_size user_pointer connectivity columns layers user_data_pool layer_pool global_first_layer root_len")
fields(LOCAL, "p6est", "mpirank")
fields(REPL, "p4est_ghost", "mpisize num_trees btype")
fields(LOCAL, "p4est_ghost", "ghosts tree_offsets proc_offsets mirrors mirror_tree_offsets mirror_proc_mirrors mirror_proc_offsets mirror_proc_fronts mirror_proc_front_offsets")
fields(REPL, "p6est_ghost", "mpisize num_trees btype column_ghost")
fields(LOCAL, "p6est_ghost", "column_layer_offsets ghosts tree_offsets proc_offsets mirrors mirror_tree_offsets mirror_proc_mirrors mirror_proc_offsets mirror_proc_fronts mirror_proc_front_offsets")
fields(REPL, "p4est_lnodes", "mpicomm global_owned_count degree vnodes")
fields(LOCAL, "p4est_lnodes", "num_local_nodes owned_count global_offset nonlocal_nodes sharers num_local_elements face_code element_nodes")
fields(LOCAL, "p4est_nodes", "num_local_quadrants num_owned_indeps num_owned_shared offset_owned_indeps indep_nodes face_hangings local_nodes shared_indeps shared_offsets nonlocal_ranks")
fields(REPL, "p4est_nodes", "global_owned_indeps")
fields(LOCAL, "p4est_mesh_t", "local_num_quadrants ghost_num_quadrants quad_to_tree ghost_to_proc quad_to_quad quad_to_face quad_to_half quad_level local_num_corners quad_to_corner corner_offset corner_quad corner_corner")
fields(REPL, "p4est_wrap", "params conn_rc conn conn_owner p4est newly_refined newly_coarsened weight_exponent old_global_first_quadrant ghost mesh ghost_aux mesh_aux match_aux")
fields(LOCAL, "p4est_wrap", "flags temp_flags num_refine_flags inside_counter num_replaced")
fields(REPL, "p4est_wrap_params_t", "hollow mesh_params replace_fn coarsen_delay coarsen_affect partition_for_coarsening store_adapted user_pointer")

fields(REPL, "p4est_vtk_context", "p4est filename geom scale continuous writing")
fields(LOCAL, "p4est_vtk_context", "num_corners num_points node_to_corner nodes vtufile pvtufile visitfile vtufilename pvtufilename visitfilename")

# fields whose elements behind a pointer are per process although the pointer itself is set everywhere alike
POOLS = ("user_data_pool", "quadrant_pool", "layer_pool", "layers")

OWN = ("p4est", "p8est", "p6est", "p2est")

TAINT_OUT = {"MPI_Comm_rank": (1,), "MPI_Recv": (0, 6), "MPI_Irecv": (0,), "MPI_Probe": (3,), "MPI_Iprobe": (2, 3), "MPI_Get_count": (2,), "MPI_Scan": (1,),
             "MPI_Exscan": (1,), "MPI_Reduce": (1,), "MPI_Gather": (3,), "MPI_Gatherv": (3,), "MPI_Alltoall": (3,), "MPI_Alltoallv": (4,),
             "MPI_Scatter": (3,), "sc_MPI_Waitsome": (2, 3, 4), "sc_notify": (2, 3), "sc_notify_allgather": (2, 3),
             "sc_psort": (1,), "MPI_Reduce_scatter_block": (1,), "MPI_Group_incl": (), "sc_ranges_adaptive": (6,), "MPI_File_get_position": ()}
CLEAN_OUT = {"MPI_Allreduce": (1,), "MPI_Allgather": (3,), "MPI_Allgatherv": (3,), "MPI_Bcast": (0,), "MPI_Comm_size": (1,), "MPI_Comm_dup": (1,),
             "MPI_Comm_create": (2,), "MPI_Comm_split": (3,), "MPI_Comm_split_type": (4,), "MPI_File_open": (4,), "MPI_Comm_group": (1,), "MPI_Comm_compare": (2,),
             "sc_stats_compute": (2,), "sc_ranges_adaptive": (3, 4, 7), "MPI_Win_allocate_shared": (4, 5), "sc_io_source_read": (1, 3),
             "MPI_Win_shared_query": (2, 3, 4), "MPI_File_close": (0,), "MPI_Comm_free": (0,), "sc_shmem_allgather": (3,), "sc_stats_compute1": (2,)}
# outputs of Comm_group etc. only
CLEAN_RET = {"sc_malloc", "sc_calloc", "sc_realloc", "sc_array_new", "sc_array_new_count", "sc_list_new", "sc_mempool_new", "sc_mempool_new_zero_and_persist",
             "sc_hash_new", "sc_hash_array_new", "sc_strdup", "sc_mstamp_alloc", "fopen", "sc_io_sink_new", "sc_io_source_new", "sc_array_new_view", "sc_shmem_malloc"}
TAINT_RET = {"MPI_Wtime": "clock"}
COLL = {n for n in ext.COLLECTIVE} | {"sc_ranges_adaptive", "MPI_Gather", "sc_shmem_allgather", "MPI_Win_lock_all_"}
COLL -= {"sc_shmem_free", "sc_shmem_malloc", "MPI_Comm_free", "MPI_Win_free"}
# freeing is collective as well
COLL |= {"MPI_Comm_free", "MPI_Win_free"}
REPL_ARG = {"MPI_Bcast": (1, 2, 3), "MPI_Allreduce": (2, 3, 4), "MPI_Allgather": (1, 2, 4, 5), "MPI_Allgatherv": (6,), "MPI_Reduce": (2, 3, 4, 5), "MPI_Scan": (2, 3, 4),
            "MPI_Exscan": (2, 3, 4), "MPI_Gather": (6,), "MPI_File_open": (2,), "sc_psort": (3,), "MPI_Alltoall": (1, 2, 4, 5)}
# arguments of the public interface that are per process
LOCAL_PARAM = {("new_points", "points"), ("new_points", "num_points")}


class L:
    """analysis of one function"""

    def __init__(s, sp, f):
        s.sp, s.f = sp, f
        s.fa = sp.eff.fa[f.key]
        s.lab = {}
        s.M = {}
        s.san = defaultdict(dict)
        s.wr = defaultdict(dict)

    def of(s, o):
        if isinstance(o, int):
            return s.lab.get(o, NOT)
        if isinstance(o, dict) and o.get("k") == "ce":
            r = NOT
            for x in o.get("ops", ()):
                r |= s.of(x)
            return r
        return NOT

    def set(s, i, l):
        l = cut(l)
        o = s.lab.get(i, NOT)
        if not l <= o:
            s.lab[i] = cut(o | l)
            s.ch = True

    # -- memory
    def memset(s, a, l, ins, deep=True):
        if a[0][0] in ("N", "F", "G"):
            return
        l = cut(l)
        o = s.M.get(a)
        if o is None or not l <= o:
            s.M[a] = cut((o or NOT) | l)
            s.ch = True
        o = s.wr[a].get(ins.id)
        if o is None or not l <= o[1]:
            s.wr[a][ins.id] = (ins, l if o is None else cut(l | o[1]))
            s.ch = True
        k = fieldkey(a[1])
        if k and not s.sp.cls(a[1]):
            t = frozenset(x for x in s.sp.resolve(s.f, l) if x[0] == "T")
            if a[0][0] not in ("A",):
                s.sp.addfl(k, t, s.f)

    def setsan(s, a, ins, l):
        l = cut(l)
        o = s.san[a].get(ins.id)
        if o is None or o[1] != l:
            s.san[a][ins.id] = (ins, l)
            s.ch = True

    def memget(s, a, ins):
        """label of the value at an address"""
        if a[0][0] in ("N", "F", "G"):
            return NOT
        c = s.sp.cls(a[1])
        if c == "R":
            return NOT
        if c:
            return frozenset([("T", c)])
        r = NOT
        k = fieldkey(a[1])
        if k and a[0][0] not in ("A",):
            s.sp.readers[k].add(s.f.key)
            r |= s.sp.FL.get(k, NOT)
        elif a[0][0] == "P":
            r |= frozenset([("P", a[0][1])])
        elif a[0][0] in ("U", "R"):
            pass
        own = NOT
        for n in range(len(a[1]) + 1):
            own |= s.M.get((a[0], a[1][:n]), NOT)
        if own | r:
            c = s.cleaned(a, ins)
            if c is not None:
                return c
        return r | own

    def cleaned(s, a, ins):
        """if the last thing that happened to the object is a collective (or an assignment) that gives it a new value: the label
        of that value"""
        sans = []
        pre = [(a[0], a[1][:n]) for n in range(len(a[1]) + 1)]
        for q in pre:
            sans += s.san.get(q, {}).values()
        if not sans:
            return None
        si = {x.id for x, l in sans}
        st = tuple(sorted(si))
        for x, lab in sans:
            if x is ins or not s.f.idominates(x, ins):
                continue
            ws = [w for q in pre for w, l in s.wr.get(q, {}).values() if not l <= lab and w.id != x.id]
            r = s.sp.reach(s.f, x, st)
            if ins.id not in r:
                continue
            if all(w.id not in r or ins.id not in s.sp.reach(s.f, w, st) for w in ws):
                return lab
        return None

    def obj(s, addrs, ins):
        """label of everything reachable in the objects behind some addresses"""
        r = NOT
        for a in addrs:
            if a[0][0] in ("N", "F", "G"):
                continue
            c = s.sp.cls(a[1])
            if c == "R":
                if any(p in a[1][-1] or (len(a[1]) > 1 and p in a[1][-2]) for p in POOLS):
                    r |= frozenset([("T", "per-process pool")])
                continue
            if c:
                r |= frozenset([("T", c)])
                continue
            if a[0][0] == "P":
                r |= frozenset([("P", a[0][1])])
                k = fieldkey(a[1])
                if k:
                    s.sp.readers[k].add(s.f.key)
                    r = (r - frozenset([("P", a[0][1])])) | s.sp.FL.get(k, NOT)
            for b, l in s.M.items():
                if b[0] == a[0] and (b[1][:len(a[1])] == a[1] or a[1][:len(b[1])] == b[1]) and not s.sp.cls(b[1]):
                    if l:
                        c = s.cleaned(b, ins)
                        if c is not None:
                            l = c
                    r |= l
        return r

    def arg(s, o, ins):
        return cut(s.of(o) | s.obj(s.fa.v(o), ins))

    def ctl(s, bb):
        r = NOT
        for b in s.f.tcdeps.get(bb, ()):
            r |= s.cond(b)
        return r

    def cond(s, b):
        t = s.f.blocks[b][-1]
        return s.of(t.x["cond"]) if t.x.get("cond") is not None else NOT

    def run(s):
        f = s.f
        for k in range(f.nargs):
            s.lab[k] = frozenset([("P", k)])
        order = f._rpo([0], f.succs)
        for rnd in range(8):
            s.ch = False
            s.ctlc = {}
            for b in order:
                if b in f.abortset:
                    continue
                for i in f.blocks[b]:
                    s.do(i)
            if not s.ch:
                break
        return s

    def phictl(s, i):
        """branches that decide which of the incoming values is taken"""
        f = s.f
        top = f.idom.get(i.bb)
        if len({repr(v) for v, _ in i.x["inc"]} - {repr(i.id)}) <= 1:
            return NOT
        out = set()
        for v, p in i.x["inc"]:
            if p in f.abortset:
                continue
            if len(f.lsuccs(p)) > 1:
                out.add(p)
            out |= f.tcdeps.get(p, set())
        r = NOT
        for b in out:
            if top is None or f.dominates(top, b):
                r |= s.cond(b)
        return r

    def do(s, i):
        op = i.op
        if op == "phi":
            l = NOT
            for v, b in i.x["inc"]:
                if b not in s.f.abortset:
                    l |= s.of(v)
            s.set(i.id, l | s.phictl(i))
        elif op == "load":
            l = s.of(i.ops[0])
            for a in s.fa.v(i.ops[0]):
                l |= s.memget(a, i)
            s.set(i.id, l)
        elif op == "store":
            l = s.of(i.ops[0]) | s.of(i.ops[1]) | s.ctl(i.bb)
            av = s.fa.v(i.ops[1])
            for a in av:
                s.memset(a, l, i)
            if len(av) == 1:
                a = next(iter(av))
                if a[0][0] == "A" and a[1] == () and isinstance(i.ops[1], int) and s.scalar(i.ops[1]):
                    # a plain local variable takes a new value
                    s.setsan(a, i, l)
        elif op == "getelementptr":
            l = s.of(i.ops[0])
            av = [a for a in s.fa.v(i.id) if a[0][0] != "N"]
            if av and all(a[1] and a[1][-1] in REPL for a in av):
                # a field every process has alike, whichever object it is taken from
                l = NOT
            for st in i.x["gep"]["steps"]:
                if "i" in st:
                    l |= s.of(st["i"])
            s.set(i.id, l)
        elif op == "alloca":
            pass
        elif op == "call":
            s.call(i)
        elif op not in ("br", "ret", "switch", "unreachable"):
            l = NOT
            for o in i.ops:
                l |= s.of(o)
            s.set(i.id, l)

    def call(s, i):
        f = s.f
        t = s.sp.prog.target(i)
        n = i.callee()
        ctl = s.ctl(i.bb)
        if t is not None and t.key in s.sp.sum:
            sm = s.sp.sum[t.key]
            args = None

            def tr(l):
                nonlocal args
                if args is None:
                    args = [s.arg(o, i) for o in i.ops]
                r = set()
                for x in l:
                    if x[0] == "P":
                        if x[1] < len(args):
                            r |= args[x[1]]
                    else:
                        r.add(x)
                return frozenset(r)
            for (k, path), l in sm["out"].items():
                if k < len(i.ops):
                    l2 = tr(l) | ctl
                    for a in s.fa.walk(s.fa.v(i.ops[k]), path):
                        s.memset(a, l2, i)
            for k, path in sm["san"]:
                if k < len(i.ops):
                    for a in s.fa.walk(s.fa.v(i.ops[k]), path):
                        s.setsan(a, i, tr(sm["out"][k, path]) | ctl)
            s.set(i.id, tr(sm["ret"]))
            for k, o in enumerate(i.ops):
                pass
            return
        if n is None:
            s.set(i.id, frozenset([("T", "result of a call-back")]))
            return
        if n.startswith("llvm."):
            if n.startswith("llvm.mem"):
                l = s.of(i.ops[0]) | ctl | s.of(i.ops[2])
                if not n.startswith("llvm.memset"):
                    l |= s.arg(i.ops[1], i)
                else:
                    l |= s.of(i.ops[1])
                for a in s.fa.v(i.ops[0]):
                    s.memset(a, l, i)
            else:
                l = NOT
                for o in i.ops:
                    l |= s.of(o)
                s.set(i.id, l)
            return
        if t is not None:
            return        # recursion, later
        allargs = NOT
        for o in i.ops:
            allargs |= s.arg(o, i)
        ws = ext.W.get(n)
        if ws is None:
            ws = []
        to = TAINT_OUT.get(n, ())
        co = CLEAN_OUT.get(n, ())
        for k, suf in ws:
            if k >= len(i.ops):
                continue
            for a in s.fa.walk(s.fa.v(i.ops[k]), suf):
                if k in co:
                    s.memset(a, ctl, i)
                    s.setsan(a, i, ctl)
                elif k in to:
                    s.memset(a, frozenset([("T", n)]) | ctl, i)
                else:
                    s.memset(a, allargs | ctl, i)
        if n in TAINT_RET:
            s.set(i.id, frozenset([("T", TAINT_RET[n])]))
        elif n in CLEAN_RET:
            s.set(i.id, NOT)
        elif n.startswith(("MPI_", "sc_MPI_")):
            s.set(i.id, NOT)      # error codes
        else:
            s.set(i.id, allargs)

    def scalar(s, o):
        d = s.f.val.get(o)
        return d is not None and d.op == "alloca"

    def summary(s):
        out, san = {}, set()
        for a, l in s.M.items():
            if a[0][0] == "P" and not s.sp.cls(a[1]) and len(a[1]) <= 6:
                c = s.finalclean(a) if a in s.san else None
                if c is not None:
                    l = c
                    san.add((a[0][1], a[1]))
                out[a[0][1], a[1]] = l
        ret = NOT
        for r in s.f.rets:
            if r.ops:
                ret |= s.of(r.ops[0])
                # what a new object is filled with
                for a in s.fa.v(r.ops[0]):
                    if a[0][0] == "H":
                        for b, l in s.M.items():
                            if b[0] == a[0] and not s.sp.cls(b[1]):
                                ret |= l
        # a returned value chosen by control flow
        if len(s.f.rets) > 1:
            for r in s.f.rets:
                ret |= s.ctl(r.bb)
        return {"out": out, "san": san, "ret": cut(ret)}

    def finalclean(s, a):
        r = NOT
        for x in s.f.rets:
            c = s.cleaned(a, x)
            if c is None:
                return None
            r |= c
        return r


def cut(l):
    if len(l) <= MAXT:
        return l
    t = sorted(x for x in l if x[0] == "T")
    if len(t) <= MAXT:
        return l
    return frozenset([x for x in l if x[0] != "T"] + t[:MAXT])


_cls = {}


def cls(path):
    """None | "R" | name of a per-process field"""
    r = _cls.get(path)
    if r is None:
        r = 0
        for n, st in enumerate(path):
            if st in LOCAL:
                r = st
                break
            if st in REPL:
                r = "R"
                if st.split(".")[1] in POOLS and len(path) > n + 1:
                    r = st
                    break
        _cls[path] = r
    return r


def fieldkey(path):
    for st in reversed(path):
        if "." in st and st.split(".")[0].startswith(OWN):
            return st
    return None


class Spmd:
    def __init__(s, prog, eff=None, make=None, classify=None):
        s.prog = prog
        s.cls = classify or cls
        s.make = make or L
        s.eff = eff or effects.Effects(prog)
        s.sum = {}
        s.FL = {}
        s.readers = defaultdict(set)
        s.fn = {}
        s.PL = defaultdict(lambda: defaultdict(lambda: NOT))
        s.CL = defaultdict(lambda: NOT)
        s._reach = {}
        s.dirty = set()
        order = [k for comp in s.eff.order for k in comp]
        comps = [list(c) for c in s.eff.order]
        todo = set(order)
        callers = defaultdict(set)
        for k, cs in s.eff.callees.items():
            for c in cs:
                callers[c].add(k)
        rounds = 0
        while todo and rounds < 8:
            rounds += 1
            s.dirty = set()
            for comp in comps:
                if not any(k in todo for k in comp):
                    continue
                for _ in range(3):
                    ch = False
                    for k in comp:
                        x = s.make(s, prog.fn[k]).run()
                        s.fn[k] = x
                        sm = x.summary()
                        if s.sum.get(k) != sm:
                            ch = True
                            s.sum[k] = sm
                            todo |= callers[k]
                    if not ch or len(comp) == 1 and comp[0] not in s.eff.callees[comp[0]]:
                        break
            s.down(order)
            todo = set(s.dirty)
        s.rounds = rounds

    def reach(s, f, i, stops):
        k = (f.key, i.id, stops)
        if k not in s._reach:
            st = set(stops)
            s._reach[k] = {y.id for y in f.reach_from(i, stop=lambda y: y.id in st)}
        return s._reach[k]

    def addfl(s, k, t, f):
        o = s.FL.get(k, NOT)
        if not t <= o:
            n = cut(o | t)
            if n != o:
                s.FL[k] = n
                s.dirty |= s.readers[k]

    def resolve(s, f, l):
        """parameter atoms replaced by what any caller passes"""
        r = set()
        for x in l:
            if x[0] == "P":
                r |= s.PL[f.key][x[1]]
            else:
                r.add(x)
        return frozenset(r) | s.CL[f.key]

    def down(s, order):
        for k in reversed(order):
            x = s.fn[k]
            for i in x.f.instrs():
                if i.op != "call":
                    continue
                t = s.prog.target(i)
                if t is None:
                    continue
                ctl = frozenset(a for a in s.resolve(x.f, x.ctl(i.bb)) if a[0] == "T")
                if not ctl <= s.CL[t.key]:
                    s.CL[t.key] = cut(s.CL[t.key] | ctl)
                    s.dirty.add(t.key)
                for n, o in enumerate(i.ops):
                    if n >= t.nargs:
                        break
                    l = frozenset(a for a in s.resolve(x.f, x.arg(o, i)) if a[0] == "T")
                    if not l <= s.PL[t.key][n]:
                        s.PL[t.key][n] = cut(s.PL[t.key][n] | l)
                        s.dirty.add(t.key)
