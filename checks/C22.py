"""C22: per-process operations never communicate."""
import sys, os, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, harness, ext
from collections import defaultdict

COMM = set(ext.COLLECTIVE) | ext.P2P | {"MPI_Comm_rank_"}


def closure(p):
    """function key -> external communication calls reachable (name -> witness call chain)"""
    succ = defaultdict(set)
    direct = defaultdict(dict)
    for f in p.functions():
        for i in f.instrs():
            if i.op == "call":
                t = p.target(i)
                if t is not None:
                    succ[f.key].add((t.key, i))
                elif i.callee() in COMM or (i.callee() or "").startswith(("MPI_Isend", "MPI_I", "MPI_File_write", "MPI_File_read")):
                    direct[f.key].setdefault(i.callee(), i)
            for o in list(i.ops) + ([x for x, _ in i.x["inc"]] if i.op == "phi" else []):
                # functions handed on as call-backs may be called
                if isinstance(o, dict) and o.get("k") == "f":
                    t = p.resolve(f.unit, o["n"])
                    if t is not None:
                        succ[f.key].add((t.key, i))
    return succ, direct


def reach(p, succ, direct, key):
    seen = {key: None}
    st = [key]
    while st:
        k = st.pop(0)
        if direct.get(k):
            n, i = next(iter(direct[k].items()))
            chain = ["%s calls %s" % (i.where(), n)]
            while seen[k] is not None:
                k, i = seen[k]
                chain.append("%s %s" % (i.where(), p.fn[k].name))
            return list(reversed(chain))
        for t, i in succ.get(k, ()):
            if t not in seen:
                seen[t] = (k, i)
                st.append(t)
    return None


def run():
    c = harness.Check("C22", "Call-graph reachability (direct calls, and functions passed as call-backs inside the library): from none of the "
                      "per-process operations tabled in tables/local.json is an MPI or libsc communication primitive reachable.")
    table = json.load(open(os.path.join(harness.VERIF, "tables", "local.json")))
    for config in ("debug", "release"):
        p = ir.Prog(config)
        succ, direct = closure(p)
        n = 0
        names = table["both"] + (table["release"] if config == "release" else [])
        for name in names:
            f = p.ext.get(name)
            if f is None:
                continue
            n += 1
            w = reach(p, succ, direct, f.key)
            c.obligation(w is None, name, "%s (%s:%d): %s" % (name, f.relfile(), f.fline, "communicates: " + " > ".join(w) if w else "no communication reachable"))
        c.floor("local_functions_" + config, n, len(names) - 25)
        ctl = sum(1 for x in ("p4est_ghost_new", "p8est_partition_ext", "p4est_balance_ext", "p4est_save_ext", "p4est_lnodes_new", "p4est_new_ext")
                  if x in p.ext and reach(p, succ, direct, x))
        c.floor("collective_controls_" + config, ctl, 5)
    return c.finish()


if __name__ == "__main__":
    harness.main(run)
