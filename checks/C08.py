"""C08: outputs that may be the same quadrant as an input."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, offsets, harness

# documented in the headers: "q may point to the same quadrant as r"; (function, input, output)
DOC = [("quadrant_ancestor", 0, 2), ("quadrant_parent", 0, 1), ("quadrant_face_neighbor", 0, 2),
       ("quadrant_corner_neighbor", 0, 2), ("quadrant_corner_node", 0, 2), ("quadrant_children", 0, 1),
       ("quadrant_childrenv", 0, ("E", 1, 0)), ("quadrant_childrenpv", 0, ("L", 1, 0)),
       ("nearest_common_ancestor", 0, 2), ("nearest_common_ancestor", 1, 2)]
DOC3 = [("quadrant_edge_neighbor", 0, 2)]


def run():
    c = harness.Check("C08", "Byte-precise read-after-write analysis: for each documented (input, output) pair that may be the "
                      "same quadrant, and each pair of parameters for which the library itself passes one and the same pointer, "
                      "no control-flow path stores to a byte through the output and afterwards loads that byte through the input "
                      "(callees included).")
    for config in ("debug", "release"):
        p = ir.Prog(config)
        o = offsets.Offs(p)
        n = pairs = 0
        done = set()
        work = []
        for d, lst in (("p4est_", DOC), ("p8est_", DOC + DOC3)):
            for b, i, j in lst:
                work.append((d + b, i, j, "documented"))
        # in-tree calls with one pointer passed twice
        for f in p.functions():
            for ins in f.instrs():
                if ins.op == "call" and ins.bb not in f.abortset:
                    t = p.target(ins)
                    if t is None or t.unit.name not in ("p4est_bits.c", "p8est_bits.c"):
                        continue
                    for i in range(len(ins.ops)):
                        for j in range(len(ins.ops)):
                            if i != j and isinstance(ins.ops[i], int) and ins.ops[i] == ins.ops[j] \
                               and t.unit.types[t.params[i]["t"]] == "ptr":
                                work.append((t.key, i, j, "passed twice at " + ins.where()))
        for name, i, j, why in work:
            f = p.fn.get(name)
            if f is None:
                continue
            if (name, i, j) in done:
                continue
            done.add((name, i, j))
            jj = j
            if isinstance(j, tuple) and j[0] == "E":
                jj = j[1]       # element 0 of an array parameter: byte offsets distinguish the elements
            if why != "documented":
                # only pairs where the second is written at all
                if not any(a[1] == "W" and a[2] == jj for a in o.accesses(name)):
                    continue
            prob, np = offsets.alias_safe(o, name, i, jj)
            n += 1
            pairs += np
            c.obligation(not prob, "%s:%d:%s" % (f.name, i, j), "%s input %s and output %s (%s): %s" % (
                f.name, f.pname(i), f.pname(jj if isinstance(jj, int) else jj[1]), why,
                "; ".join(prob[:3]) or "%d conflicting access pairs, none ordered store-before-load" % np), sample=True)
        c.floor("pairs_of_parameters_" + config, n, 22)
        c.floor("access_pairs_" + config, pairs, 40)
    return c.finish()


harness.main(run)
