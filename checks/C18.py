"""C18: data handed to the library for reading is never modified."""
import sys, os, re, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, effects, harness


def run():
    c = harness.Check("C18", "Interprocedural field-sensitive mod analysis: for every library function and every parameter "
                      "that is a pointer-to-const, or that tables/readonly.json lists as a read-only input, no store (own, in a callee, "
                      "in a library call-back, or by an external call) reaches memory accessible through that parameter.")
    table = json.load(open(os.path.join(harness.VERIF, "tables", "readonly.json")))
    for config in ("debug", "release"):
        p = ir.Prog(config)
        e = effects.Effects(p)
        c.count("functions_" + config, len(p.fn))
        nconst = ntab = 0
        for f in sorted(p.functions(), key=lambda f: f.key):
            sm = e.sums[f.key]
            for k in range(f.nargs):
                if k + 1 >= len(f.ditypes):
                    continue
                t = f.ditypes[k + 1]
                const = t.startswith("const ") and t.count("*") == 1
                tab = not f.internal and k in table.get(f.name, ())
                if not (const or tab):
                    continue
                if f.internal and not const:
                    continue
                nconst += const
                ntab += tab
                # pointer-to-const protects the pointed-to object, the table the whole reachable object
                bad = [a for a in sm.W if a[0] == ("P", k) and (tab or "*" not in a[1])]
                c.obligation(not bad, "%s:%s" % (f.name, f.pname(k)),
                             "%s parameter %s (%s): %s" % (f.name, f.pname(k), "read-only input" if tab else t,
                              "; ".join("writes %s via %s" % (effects.show(a, f), " > ".join(e.witness(f.key, a))) for a in sorted(bad)[:3]) or "no write reaches it"))
        # what the library itself hands to the iterator reads the leaves it is shown
        ncb = 0
        for f in sorted(p.functions(), key=lambda f: f.key):
            if f.nargs < 1 or len(f.ditypes) < 2 or not re.search(r"_iter_\w+_info", f.ditypes[1]):
                continue
            ncb += 1
            bad = [a for a in e.sums[f.key].W if a[0] == ("P", 0) and "*" in a[1]]
            c.obligation(not bad, "%s:%s" % (f.name, f.pname(0)),
                         "%s parameter %s (iteration call-back): %s" % (f.name, f.pname(0), "; ".join(
                             "writes %s via %s" % (effects.show(a, f), " > ".join(e.witness(f.key, a))) for a in sorted(bad)[:3]) or "no write reaches what it is shown"))
        c.floor("iteration_callbacks_" + config, ncb, 15)
        c.floor("const_params_" + config, nconst, 480)
        c.floor("table_params_" + config, ntab, 400)
        # positive control: the analysis must see the documented in-place modifications
        ctl = 0
        for n, fld in (("p4est_refine_ext", "p4est.local_num_quadrants"), ("p8est_coarsen_ext", "p8est.revision"),
                       ("p4est_balance_ext", "p4est.revision"), ("p4est_quadrant_parent", "p4est_quadrant.level"),
                       ("p4est_ghost_expand", "sc_array.elem_count"), ("p4est_connectivity_set_attr", "p4est_connectivity.tree_to_attr")):
            f = p.ext.get(n)
            if f and any(a[1] and a[1][-1] == fld for a in e.sums[f.key].W):
                ctl += 1
        c.floor("positive_controls_" + config, ctl, 4)
        if config == "debug" and c.viol:
            break
    return c.finish()


harness.main(run)
