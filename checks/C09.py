"""C09: quadrant functions define exactly the Morton fields of their outputs."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, mustdef, harness

# outputs that are documented as partial or optional: (required, extra allowed)
ALL = "ALL"
EXC = {
    # function (without p4est_/p8est_ prefix), parameter index: (must fields, additionally allowed)
    ("node_unclamp", 0): ((), ()),               # in/out, conditional by contract; level untouched
    ("quadrant_enlarge_first", 1): ((), ()),     # in/out, grows while possible
    ("quadrant_enlarge_last", 1): (("x", "y", "z"), ()),
    ("quadrant_half_face_neighbors", 2): (("x", "y", "z"), ()),
    ("quadrant_half_face_neighbors", 3): ((), ()),   # nur[] is optional
    ("quadrant_all_face_neighbors", 2): (ALL, ("<whole>",)),     # unused entries are initialised whole
    ("quadrant_face_neighbor_extra", 3): (ALL, ("<whole>",)),    # result may be a whole copy of a local
    ("quadrant_transform_corner", 0): (("x", "y", "z"), ()),
    ("quadrant_transform_face", 1): (("level",), ()),            # coordinates written through an axis table
    ("quadrant_transform_edge", 1): (("level",), ()),
    ("quadrant_shift_edge", 2): ((), ()),        # optional outputs
    ("quadrant_shift_edge", 3): ((), ()),
    ("quadrant_pad", 0): (("pad8", "pad16"), ("pad8", "pad16")),
}
INPLACE_NO_LEVEL = {("node_unclamp", 0), ("quadrant_transform_corner", 0)}
EXPECT = """node_clamp_inside node_to_quadrant quadrant_copy quadrant_root quadrant_ancestor quadrant_parent quadrant_sibling
quadrant_child quadrant_face_neighbor quadrant_corner_neighbor quadrant_half_corner_neighbor quadrant_corner_node
quadrant_first_descendant quadrant_last_descendant quadrant_corner_descendant nearest_common_ancestor
nearest_common_ancestor_D quadrant_shift_corner quadrant_set_morton quadrant_set_morton_ext128 quadrant_successor
quadrant_predecessor quadrant_children quadrant_childrenv""".split()


def run():
    c = harness.Check("C09", "Mod and definite-assignment (must-write) summaries over all functions taking quadrants in the "
                      "quadrant arithmetic modules: output parameters may only have x, y, (z) and level stored, and all of "
                      "these are stored on every returning path; user data, piggyback, padding of outputs are not stored; "
                      "documented partial/optional outputs are tabled in checks/C09.py.")
    for config in ("debug", "release"):
        p = ir.Prog(config)
        e = effects.Effects(p)
        m = mustdef.Must(p, e)
        n = nm = 0
        present = set()
        for f in sorted(p.ext.values(), key=lambda f: f.name):
            if f.unit.name not in ("p4est_bits.c", "p8est_bits.c"):
                continue
            dim3 = f.name.startswith("p8est_")
            base = f.name.split("_", 1)[1]
            st = ("p8est_quadrant." if dim3 else "p4est_quadrant.")
            std = {"x", "y", "level"} | ({"z"} if dim3 else set())
            for k in range(f.nargs):
                t = f.ditypes[k + 1]
                if "quadrant_t*" not in t or t.startswith("const"):
                    continue
                may = {}
                for a in e.sums[f.key].W:
                    if a[0] == ("P", k):
                        nm_ = a[1][-1] if a[1] and a[1][-1] != "*" else "<whole>"
                        may[nm_.replace(st, "")] = a
                if not may and (base, k) not in EXC and base not in EXPECT:
                    continue
                if not may:
                    # not an output (e.g. child pointer array read only)
                    if base in EXPECT and any(("P", j) == a[0] for j in range(k, f.nargs) for a in e.sums[f.key].W):
                        continue
                    if base not in EXPECT:
                        continue
                must_req, extra = EXC.get((base, k), (ALL, ()))
                allow = (set() if base == "quadrant_pad" else set(std)) | set(extra)
                if (base, k) in INPLACE_NO_LEVEL:
                    allow.discard("level")
                bad = [x for x in may if x not in allow]
                n += 1
                c.obligation(not bad, "%s:%s:frame" % (f.name, f.pname(k)),
                             "%s output %s: stores to %s (allowed %s)%s" % (f.name, f.pname(k), sorted(may), sorted(allow),
                              "".join("; %s via %s" % (x, " > ".join(e.witness(f.key, may[x]))) for x in bad)))
                req = std if must_req == ALL else {x for x in must_req if x in std or x.startswith("pad")}
                mu = {a[1][-1].replace(st, "") for a in m.get(f.key) if a[0] == ("P", k) and a[1]}
                miss = [x for x in req if x not in mu and "<whole>" not in mu]
                nm += len(req)
                for x in sorted(req):
                    c.obligation(x not in miss, "%s:%s:%s:undefined" % (f.name, f.pname(k), x),
                                 "%s (%s:%d): field %s of output %s %s" % (f.name, f.relfile(), f.fline, x, f.pname(k),
                                  "is not stored on every returning path" if x in miss else "stored on every path"))
                present.add(f.name)
        c.floor("outputs_" + config, n, 80)
        c.floor("must_fields_" + config, nm, 260)
        miss = [d + b for d in ("p4est_", "p8est_") for b in EXPECT if d + b not in present]
        c.floor("expected_functions_" + config, 2 * len(EXPECT) - len(miss), 2 * len(EXPECT) - 4)
    return c.finish()


harness.main(run)
