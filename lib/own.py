"""Ownership: which calls acquire something, which give it up, and what functions do to what they are handed."""
import ir, ext, effects
from collections import defaultdict

# external calls that return something the caller owns
ACQ = {"sc_malloc", "sc_calloc", "sc_realloc", "sc_strdup", "sc_array_new", "sc_array_new_count", "sc_array_new_view", "sc_hash_new", "sc_hash_array_new", "sc_list_new",
       "sc_mempool_new", "sc_mempool_new_zero_and_persist", "fopen", "sc_io_sink_new", "sc_io_source_new"}
# external calls that acquire through an argument
ACQ_OUT = {"MPI_File_open": 4, "MPI_Comm_dup": 1, "MPI_Comm_split": 3, "MPI_Comm_split_type": 4, "MPI_Comm_create": 2, "MPI_Group_incl": 3, "MPI_Group_union": 2, "MPI_Comm_group": 1,
           "MPI_Win_allocate_shared": 5}
# external calls that give up what an argument points to
REL = {"sc_free": 1, "sc_realloc": 1, "sc_array_destroy": 0, "sc_hash_destroy": 0, "sc_hash_unlink_destroy": 0, "sc_hash_array_destroy": 0, "sc_hash_array_rip": 0, "sc_list_destroy": 0,
       "sc_mempool_destroy": 0, "fclose": 0, "sc_fflush_fsync_fclose": 0, "sc_io_sink_destroy": 0, "sc_io_source_destroy": 0}
# ... what the pointer behind the argument refers to
REL_P = {"sc_array_destroy_null": 0, "MPI_File_close": 0, "MPI_Comm_free": 0, "MPI_Group_free": 0, "MPI_Win_free": 0}
# containers in place
INIT = {"sc_array_init": 0, "sc_array_init_size": 0, "sc_array_init_count": 0, "sc_recycle_array_init": 0, "sc_mempool_init": 0, "sc_hash_array_rip": 1}
RESET = {"sc_array_reset": 0, "sc_recycle_array_reset": 0, "sc_mempool_reset": 0}
# elements given back to a pool, in a function defined in a header
POOL = {"sc_mempool_free": 1}
VIEW = {"sc_array_init_data", "sc_array_init_view"}
KEEP = {"sc_list_append": 1, "sc_list_prepend": 1, "sc_hash_insert_unique": 1}


class Own:
    def __init__(s, prog, eff):
        s.prog, s.eff = prog, eff
        s.rel = {}       # key -> {(param, path)} released ("@" step at the end: a container in place)
        s.keep = {}      # key -> {(param, path)} kept beyond the call
        s.keepto = {}
        for comp in eff.order:
            for _ in range(4):
                ch = False
                for k in comp:
                    r, kp = s.summary(k)
                    if r != s.rel.get(k) or kp != s.keep.get(k):
                        ch = True
                    s.rel[k], s.keep[k] = r, kp
                if not ch or len(comp) == 1 and comp[0] not in eff.callees[comp[0]]:
                    break

    def released(s, f, fa, i):
        """abstract addresses a call gives up: heap objects, or containers in place with "@" """
        n = i.callee()
        out = set()
        if n is None:
            # through a pointer: what known targets do
            for t in fa.v(i.x["callee"]):
                if t[0][0] == "F":
                    out |= s.relby(f, fa, i, t[0][1])
            return out
        t = s.prog.target(i)
        if n in POOL:
            return set(fa.v(i.ops[POOL[n]]))
        if t is not None:
            return s.relby(f, fa, i, t.key)
        if n in REL and REL[n] < len(i.ops):
            out |= fa.v(i.ops[REL[n]])
        if n in REL_P:
            for a in fa.v(i.ops[REL_P[n]]):
                out |= fa.load(a)
                out.add((a[0], a[1] + ("@",)))
        if n in RESET:
            for a in fa.v(i.ops[RESET[n]]):
                out.add((a[0], a[1] + ("@",)))
        return out

    def relby(s, f, fa, i, key):
        out = set()
        for p, path in s.rel.get(key, ()):
            if p < len(i.ops):
                at = path[-1:] == ("@",)
                w = fa.walk(fa.v(i.ops[p]), path[:-1] if at else path)
                out |= {(a[0], a[1] + ("@",)) for a in w} if at else w
        return out

    def kept(s, f, fa, i):
        """values a call keeps (stores in memory that outlives it)"""
        n = i.callee()
        out = set()
        if n in KEEP:
            return set(fa.v(i.ops[KEEP[n]]))
        t = s.prog.target(i)
        if t is not None:
            for p, path in s.keep.get(t.key, ()):
                if p < len(i.ops):
                    out |= fa.walk(fa.v(i.ops[p]), path)
        return out

    def summary(s, key):
        f = s.prog.fn[key]
        fa = s.eff.fa[key]
        rel, kp = set(), set()
        for i in f.instrs():
            if i.op == "call":
                for a in s.released(f, fa, i):
                    if a[0][0] == "P":
                        rel.add((a[0][1], a[1]))
                for a in s.kept(f, fa, i):
                    if a[0][0] == "P":
                        kp.add((a[0][1], a[1]))
        sm = s.eff.sums.get(key)
        if sm is not None:
            for a, vals in sm.S.items():
                for v in vals:
                    if v[0][0] == "P":
                        if a[0] != v[0]:
                            kp.add((v[0][1], v[1]))
            # returned object keeps it as well
        return rel, kp
