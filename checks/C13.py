"""C13: failures of input, output and communication are never ignored."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, harness, fate

# calls whose result reports success or failure and must be tested
TEST = {"fopen", "fclose", "fread", "ferror", "fseek", "ftell", "fgetc", "fgets", "fscanf", "__isoc99_fscanf", "rename", "remove",
        "sc_io_sink_new", "sc_io_sink_write", "sc_io_sink_destroy", "sc_io_sink_complete", "sc_io_sink_align", "sc_io_source_new", "sc_io_source_read",
        "sc_io_source_destroy", "sc_io_source_complete", "sc_io_source_align", "sc_io_encode", "sc_io_decode", "sc_vtk_write_compressed", "sc_vtk_write_binary",
        "sc_notify", "sc_notify_allgather", "sc_MPI_Waitall", "sc_MPI_Waitsome", "sc_io_file_save", "sc_io_file_load"}
# output calls whose failure is latched in the stream and may be tested later by ferror or fclose
LATCH = {"fprintf", "fputs", "fputc", "fwrite", "putc", "vfprintf", "fflush"}
LOGS = {"sc_log", "sc_logf", "fprintf", "printf"}
UNTESTED_MPI = {"MPI_Wtime", "MPI_Abort"}
# functions of the library that report failure in their result and must be tested by library callers
OWN = ["connectivity_sink", "connectivity_save", "connectivity_source", "connectivity_load", "connectivity_inflate", "connectivity_read_inp_stream",
       "connectivity_read_inp", "vtk_write_header", "vtk_write_footer", "vtk_write_cell_data", "vtk_write_cell_datav", "vtk_write_point_data",
       "vtk_write_point_datav", "vtk_write_cell_scalar", "vtk_write_point_scalar", "vtk_write_cell_vector", "vtk_write_point_vector",
       "vtk_write_cell_dataf", "vtk_write_point_dataf", "connectivity_deflate", "connectivity_extra_sink", "connectivity_extra_source", "vtk_write_binary",
       "vtk_write_compressed", "vtk_write_header_ho", "vtk_write_point", "vtk_write_cell"]


# their result is a position or a line, not only a failure
NOFATE = {"ftell", "fgets", "fgetc", "fscanf", "__isoc99_fscanf", "fread"}


def closed_before(p, f, depth=0):
    """the library calls f, which has no result, only after it has failed, or closed the streams itself with a test"""
    n = 0
    for g in p.functions():
        for j in g.instrs():
            if j.op == "call" and p.target(j) is f and j.bb not in g.abortset and j.bb in g.reachable:
                n += 1
                if error_exit_only(g, j):
                    continue
                if not any(x.op == "call" and x.callee() == "fclose" and x.bb != j.bb and g.dominates(x.bb, j.bb) and tested(g, x, p) for x in g.instrs()):
                    if g.rt == "void" and depth < 3 and closed_before(p, g, depth + 1):
                        continue      # a part of a function without a result
                    return False
    return n > 0


def tested(f, i, p, seen=None):
    """the value reaches a two-way branch or is returned"""
    seen = set() if seen is None else seen
    st = [i.id]
    while st:
        x = st.pop()
        for u in f.users[x]:
            if u.op in ("br", "switch") and len(set(f.succs(u.bb))) > 1 and effective(f, u):
                return True
            if u.op == "ret":
                return True
            if u.op == "store":
                if u.ops[0] == x:
                    # stored into a variable or field that is loaded elsewhere counts as kept
                    return True
                continue
            if u.op in ("icmp", "phi", "or", "and", "xor", "add", "sub", "zext", "sext", "trunc", "select", "freeze", "fcmp", "getelementptr") and u.id not in seen:
                seen.add(u.id)
                st.append(u.id)
            if u.op == "call" and u.callee() and not u.callee().startswith("llvm.") and i.t == "ptr":
                # a handle used without a null test is not a test
                continue
            if u.op == "call" and i.t != "ptr" and p.target(u) is not None:
                return True
    return False


def toret(f, i):
    seen = set()
    st = [i.id]
    while st:
        x = st.pop()
        for u in f.users[x]:
            if u.op == "ret":
                return True
            if u.op in ("icmp", "phi", "or", "zext", "select") and u.id not in seen:
                seen.add(u.id)
                st.append(u.id)
    return False


def derived(p, own):
    """library functions whose own result carries the failure of such a call"""
    der = set()
    ch = True
    while ch:
        ch = False
        for f in p.functions():
            if f.key in der or f.rt in ("void", "ptr"):
                continue
            for i in f.instrs():
                if i.op != "call":
                    continue
                n = i.callee()
                t = p.target(i)
                if n and (n.startswith(("sc_io_", "MPI_File", "sc_notify", "sc_vtk")) or n == "fclose" or n in own or (t is not None and t.key in der)) \
                   and i.t not in ("ptr", "void") and toret(f, i):
                    der.add(f.key)
                    ch = True
                    break
    return der


def effective(f, u):
    """the branch does more than print: one side aborts, returns, stores, calls or selects a value"""
    if len(f.lsuccs(u.bb)) < 2:
        return True
    join = f.ipdom.get(u.bb)
    region = set()
    for s in f.lsuccs(u.bb):
        st = [s]
        while st:
            b = st.pop()
            if b == join or b in region or b == u.bb:
                continue
            region.add(b)
            st.extend(f.lsuccs(b))
    for b in region:
        for x in f.blocks[b]:
            if x.op in ("store", "ret", "phi", "load") or (x.op == "call" and x.callee() not in LOGS):
                return True
    if join is None or join < 0:
        return True
    for x in f.blocks[join]:
        if x.op == "phi":
            vs = [v for v, b in x.x["inc"] if b in region or b == u.bb]
            if any(v != vs[0] for v in vs):
                return True
    return False


def edge_value(f, frm, rb, v):
    """constant of value v of return block rb when entered from block frm, else None"""
    for _ in range(6):
        if not isinstance(v, int):
            return v
        d = f.val.get(v)
        if d is None or d.op != "phi" or d.bb != rb:
            return v
        for x, b in d.x["inc"]:
            if b == frm:
                v = x
                break
        else:
            return v
    return v


def is_error(f, v):
    if isinstance(v, dict):
        if v.get("k") == "null":
            return f.rt == "ptr"
        c = ir.cval(v)
        if c is not None:
            return f.rt != "void" and c != 0
        return False
    return False


def silent_success(f, i, p):
    """a path from the unchecked output call to a return that reports success, with no later test of the stream"""
    def stop(x):
        if x.op != "call":
            return False
        n = x.callee()
        if n == "ferror" or (n == "fclose" and tested(f, x, p)):
            return True
        return False

    blk = f.blocks[i.bb]
    for k in range(i.idx + 1, len(blk)):
        if stop(blk[k]):
            return None
    start = i.bb
    seen = set()
    st = []
    t = blk[-1]
    if t.op == "ret":
        return None if t.ops and is_error(f, t.ops[0]) else t
    for s in f.lsuccs(start):
        st.append((start, s))
    while st:
        frm, b = st.pop()
        if (frm, b) in seen:
            continue
        seen.add((frm, b))
        hit = False
        for x in f.blocks[b]:
            if stop(x):
                hit = True
                break
        if hit:
            continue
        t = f.blocks[b][-1]
        if t.op == "ret":
            v = edge_value(f, frm, b, t.ops[0]) if t.ops else None
            if v is not None and is_error(f, v):
                continue
            if guarded_nonzero(f, frm, v):
                continue
            return t
        for s in f.lsuccs(b):
            st.append((b, s))
    return None


def guarded_nonzero(f, frm, v):
    """a non-constant result returned on an edge where it was tested to be an error"""
    return False


def error_exit_only(f, i):
    """all returns reachable from i report an error"""
    t = f.blocks[i.bb][-1]
    if t.op == "ret":
        return bool(t.ops) and is_error(f, t.ops[0])
    seen = set()
    st = [(i.bb, s) for s in f.lsuccs(i.bb)]
    any_ = False
    while st:
        frm, b = st.pop()
        if (frm, b) in seen:
            continue
        seen.add((frm, b))
        t = f.blocks[b][-1]
        if t.op == "ret":
            any_ = True
            v = edge_value(f, frm, b, t.ops[0]) if t.ops else None
            if v is None or not is_error(f, v):
                return False
        for s in f.lsuccs(b):
            st.append((b, s))
    return any_


def readonly_stream(f, i):
    """fclose of a stream this function opened for reading"""
    d = f.val.get(i.ops[0]) if isinstance(i.ops[0], int) else None
    seen = set()
    st = [d]
    modes = []
    while st:
        d = st.pop()
        if d is None or d.id in seen:
            continue
        seen.add(d.id)
        if d.op == "phi":
            st.extend(f.val.get(v) for v, _ in d.x["inc"] if isinstance(v, int))
        elif d.op == "call" and d.callee() == "fopen":
            m = d.ops[1]
            g = f.unit.globals.get(m["n"]) if isinstance(m, dict) and m.get("k") == "g" else None
            modes.append(strval(g))
        else:
            modes.append(None)
    return bool(modes) and all(m is not None and m.startswith("r") and "+" not in m for m in modes)


def strval(g):
    if not g:
        return None
    s = g.get("init")
    if isinstance(s, dict):
        s = s.get("s", s.get("v"))
    return s if isinstance(s, str) else None


def run():
    c = harness.Check("C13", "Result-use dataflow: the result of every file, stream, sink/source and MPI call, and of every library function that "
                      "reports failure by its result, reaches a branch or the function's own result; output calls whose error is latched in the "
                      "stream are followed on every path to a successful return by a test of the stream. Under the assumption that the call failed, no path reaches a return that reports success.")
    for config in ("release", "debug"):
        p = ir.Prog(config)
        own = {pre + n for n in OWN for pre in ("p4est_", "p8est_", "p6est_")}
        der = derived(p, own)
        n = latch = mpi = lib = fates = many = 0
        writers = {}        # functions that may return success with an untested stream error: callers must test
        work = []
        for f in p.functions():
            for i in f.instrs():
                if i.op == "call" and i.callee() in LATCH and i.bb in f.reachable and i.bb not in f.abortset:
                    work.append((f, i))
        done = set()
        unt = {}
        while work:
            f, i = work.pop()
            if (f.key, i.id) in done:
                continue
            done.add((f.key, i.id))
            latch += 1
            if i.callee() in LATCH and f.users[i.id] and tested(f, i, p):
                c.good()
                continue
            if i.callee() in LATCH and is_stderr(f, i):
                continue
            r = silent_success(f, i, p)
            if r is None:
                c.good()
                continue
            if f.key in unt:
                continue
            unt[f.key] = (i, r)
            # only a helper that the library itself calls may leave the test to its callers
            cs = [(g, j) for g in p.functions() for j in g.instrs() if j.op == "call" and p.target(j) is f and j.bb not in g.abortset]
            if f.internal and cs:
                work.extend(cs)
            else:
                c.obligation(False, "%s:stream" % f.name, "%s: output of %s in %s can fail unnoticed: return at %s is reached without a test of the stream" % (
                    i.where(), i.callee(), f.name, r.where()))
        for f in sorted(p.functions(), key=lambda f: f.key):
            for i in f.instrs():
                if i.op != "call" or i.bb not in f.reachable or i.bb in f.abortset:
                    continue
                nme = i.callee()
                if nme is None or i.t == "void":
                    continue
                isown = nme in own or (p.target(i) is not None and p.target(i).key in der)
                ismpi = nme.startswith("MPI_") and nme not in UNTESTED_MPI and nme not in ("MPI_Type_size",)
                if not (nme in TEST or isown or ismpi):
                    continue
                if ismpi and i.t == "ptr":
                    continue
                n += nme in TEST
                mpi += ismpi
                lib += isown
                ok = tested(f, i, p)
                if not ok and nme == "fclose" and (error_exit_only(f, i) or readonly_stream(f, i)):
                    ok = True
                c.obligation(ok, "%s:%s" % (f.name, nme), "%s: result of %s in %s %s" % (i.where(), nme, f.name, "is tested" if ok else "is ignored"))
                if not ok or nme in NOFATE or nme == "fclose" and (error_exit_only(f, i) or readonly_stream(f, i)):
                    continue
                r = fate.Fate(p, f, i, i.t == "ptr", LOGS).silent()
                if r == "many":
                    many += 1
                    continue
                fates += 1
                if r is not None and f.rt == "void" and nme == "fclose" and closed_before(p, f):
                    r = None
                c.obligation(r is None, "%s:%s:fate" % (f.name, nme), "%s: when %s fails in %s, the return at %s is reached%s" % (
                    i.where(), nme, f.name, r[0].where() if r else "?", ", which gives %s" % r[1] if r else ""))
        c.floor("failures_followed_" + config, fates, 500)
        c.counts["too_many_paths_" + config] = many
        c.counts["derived_failing_functions_" + config] = len(der)
        c.floor("io_calls_" + config, n, 180)
        c.floor("mpi_calls_" + config, mpi, 150)
        c.floor("failing_library_calls_" + config, lib, 30)
        c.floor("latched_output_calls_" + config, latch, 200)
    return c.finish()


def is_stderr(f, i):
    for o in i.ops:
        if isinstance(o, int):
            d = f.val.get(o)
            if d is not None and d.op == "load" and isinstance(d.ops[0], dict) and d.ops[0].get("n") in ("stderr", "stdout"):
                return True
    return False


if __name__ == "__main__":
    harness.main(run)
