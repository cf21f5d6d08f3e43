"""C16: the topology lookup tables describe the square and the cube."""
import sys, os, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ir, consts, harness


class Cell:
    """reference cell of dimension d; every table is derived from the numbering convention in the headers:
    corners in z-order, faces by direction then side, edges by direction then z-order of the rest"""
    def __init__(s, d):
        s.d = d
        s.C = [tuple((c >> k) & 1 for k in range(d)) for c in range(1 << d)]
        s.F = [(f // 2, f % 2) for f in range(2 * d)]
        s.fc = [[c for c, x in enumerate(s.C) if x[k] == v] for k, v in s.F]
        s.cf = [[f for f, (k, v) in enumerate(s.F) if x[k] == v] for x in s.C]
        s.E = []
        if d == 3:
            for k in range(3):
                o = [j for j in range(3) if j != k]
                for n in range(4):
                    s.E.append((k, {o[0]: n & 1, o[1]: n >> 1}))
        s.ec = [[c for c, x in enumerate(s.C) if all(x[j] == v for j, v in o.items())] for k, o in s.E]
        s.ef = [[f for f, (k, v) in enumerate(s.F) if o.get(k) == v] for _, o in s.E]
        s.fe = []
        for f in range(2 * d):
            own = [e for e in range(len(s.E)) if f in s.ef[e]]
            # face edge order: by the pair of face corners (0,1), (2,3), (0,2), (1,3)
            l = []
            for a, b in ((0, 1), (2, 3), (0, 2), (1, 3)):
                if d == 3:
                    l += [e for e in own if s.ec[e] == [s.fc[f][a], s.fc[f][b]]]
            s.fe.append(l)
        s.ce = [[e for e in range(len(s.E)) if c in s.ec[e]] for c in range(1 << d)]

    def point(s, xs):
        return sum(x * 3 ** k for k, x in enumerate(xs))

    def tables(s):
        d = s.d
        ix = lambda l, v: l.index(v) if v in l else -1
        nC = range(1 << d)
        nF = range(2 * d)
        nE = range(len(s.E))
        T = {}
        T["volume_point"] = s.point([1] * d)
        T["face_corners"] = s.fc
        T["face_dual"] = [f ^ 1 for f in nF]
        T["face_points"] = [s.point([2 * v if j == k else 1 for j in range(d)]) for k, v in s.F]
        T["corner_points"] = [s.point([2 * x for x in s.C[c]]) for c in nC]
        T["corner_faces"] = s.cf
        T["corner_face_corners"] = [[ix(s.fc[f], c) for f in nF] for c in nC]
        par = lambda c, c2: [s.C[c][j] + s.C[c2][j] for j in range(d)]

        def cface(p):
            b = [j for j in range(d) if p[j] in (0, 2)]
            return 2 * b[0] + p[b[0]] // 2 if len(b) == 1 else -1
        T["child_corner_faces"] = [[cface(par(c, c2)) for c2 in nC] for c in nC]
        if d == 3:
            T["face_edges"] = s.fe
            T["edge_faces"] = s.ef
            T["edge_corners"] = s.ec
            T["edge_points"] = [s.point([1 if j == k else 2 * o[j] for j in range(3)]) for k, o in s.E]
            T["edge_edge_corners"] = [[ix(s.ec[e], c) for c in nC] for e in nE]
            T["edge_face_corners"] = [[[ix(s.fc[f], c) for c in s.ec[e]] if f in s.ef[e] else [-1, -1] for f in nF] for e in nE]
            T["edge_face_edges"] = [[ix(s.fe[f], e) for f in nF] for e in nE]
            T["corner_edges"] = s.ce
            T["corner_edge_corners"] = [[ix(s.ec[e], c) for e in nE] for c in nC]

            def eface(c, e):
                k, o = s.E[e]
                b = [(j, s.C[c][j] + v) for j, v in o.items() if s.C[c][j] + v in (0, 2)]
                return 2 * b[0][0] + b[0][1] // 2 if len(b) == 1 else -1
            T["child_edge_faces"] = [[eface(c, e) for e in nE] for c in nC]

            def cedge(p):
                b = {j: p[j] // 2 for j in range(3) if p[j] in (0, 2)}
                if len(b) != 2:
                    return -1
                return next(e for e, (k, o) in enumerate(s.E) if o == b)
            T["child_corner_edges"] = [[cedge(par(c, c2)) for c2 in nC] for c in nC]
        return T


def sign(pm):
    return (-1) ** sum(1 for a, b in itertools.combinations(pm, 2) if a > b)


def gluing(s, f, nf, o):
    """permutation of face corners: gluing face f to face nf with orientation o so that the cells do not overlap"""
    square = [(x, y) for y in (0, 1) for x in (0, 1)]
    res = []
    for swap in (0, 1):
        for fx in (0, 1):
            for fy in (0, 1):
                pi = []
                for x, y in square:
                    u, v = (y, x) if swap else (x, y)
                    u, v = u ^ fx, v ^ fy
                    pi.append(u + 2 * v)
                ok = pi[0] == o if f <= nf else pi[o] == 0
                if not ok:
                    continue
                # linear part of the map cell -> neighbouring cell: tangential axes by pi, normal axis reversed or kept
                ta = [j for j in range(3) if j != s.F[f][0]]
                tb = [j for j in range(3) if j != s.F[nf][0]]
                M = [[0] * 3 for _ in range(3)]
                img = {0: 1 if swap else 0, 1: 0 if swap else 1}
                for a in (0, 1):
                    b = img[a]
                    sg = -1 if (fx, fy)[b] else 1
                    M[tb[b]][ta[a]] = sg
                # crossing f outward enters nf inward
                out = 1 if s.F[f][1] else -1
                inn = -1 if s.F[nf][1] else 1
                M[s.F[nf][0]][s.F[f][0]] = out * inn
                det = sum(sign(pm) * M[pm[0]][0] * M[pm[1]][1] * M[pm[2]][2] for pm in itertools.permutations(range(3)))
                if det == 1:
                    res.append(pi)
    return res


def run():
    c = harness.Check("C16", "Exhaustive comparison of every public topology table (IR initialisers) with the tables derived from the numbering convention "
                      "(z-order corners, faces by axis and side, edges by axis); face permutations are derived from the requirement that two glued cubes form a "
                      "right-handed neighbourhood; the 2D and 3D neighbour-offset tables are derived likewise.")
    for config in ("release",):
        p = ir.Prog(config)
        n = m = 0
        for d, pre in ((2, "p4est_"), (3, "p8est_")):
            s = Cell(d)
            for name, want in sorted(s.tables().items()):
                got = consts.value(p, pre + name)
                g = p.globalinit(pre + name)
                if not c.obligation(g is not None, pre + name + ":missing", "%s%s is defined" % (pre, name)):
                    continue
                c.obligation(bool(g.get("const")), pre + name + ":const", "%s%s is constant" % (pre, name))
                n += 1
                if isinstance(want, list):
                    for k, (a, b) in enumerate(itertools.zip_longest(got, want)):
                        c.obligation(a == b, "%s%s[%d]" % (pre, name, k), "%s%s[%d] is %s, the geometry gives %s" % (pre, name, k, a, b), sample=k == 1)
                else:
                    c.obligation(got == want, pre + name, "%s%s is %s, the geometry gives %s" % (pre, name, got, want))
            # neighbour offset tables of the balance algorithm (-1: not of this kind): inverse of the tables of points
            for name, of in (("insul_to_f", "face_points"), ("insul_to_c", "corner_points")) + ((("insul_to_e", "edge_points"),) if d == 3 else ()):
                pts = s.tables()[of]
                for u in p.units.values() if isinstance(p.units, dict) else p.units:
                    g = u.globals.get(name)
                    if g is None or not g.get("init") and not g.get("const"):
                        continue
                    got = consts.conv(g.get("init"), u.types[g["t"]] if isinstance(g.get("t"), int) else g.get("t"))
                    if not isinstance(got, list) or len(got) != 3 ** d:
                        continue
                    m += 1
                    for k, a in enumerate(got):
                        b = pts.index(k) if k in pts else -1
                        c.obligation(a == b, "%s:%s[%d]" % (pre, name, k), "%s (%dD): entry %d is %s, the geometry gives %s" % (name, d, k, a, b))
        c.floor("tables_" + config, n, 22)
        s = Cell(3)
        perm, sets, refs = (consts.value(p, "p8est_face_" + x) for x in ("permutations", "permutation_sets", "permutation_refs"))
        ep, es = consts.value(p, "p8est_face_edge_permutations"), consts.value(p, "p8est_face_edge_permutation_sets")
        fe = ((0, 1), (2, 3), (0, 2), (1, 3))
        for f in range(6):
            for nf in range(6):
                for o in range(4):
                    want = gluing(s, f, nf, o)
                    got = perm[sets[refs[f][nf]][o]]
                    c.obligation([got] == want, "face_permutation:%d:%d:%d" % (f, nf, o), "faces %d and %d, orientation %d: corners %s, geometry %s" % (f, nf, o, got, want), sample=(f, nf, o) == (1, 4, 2))
                    we = [fe.index(tuple(sorted((got[a], got[b])))) for a, b in fe]
                    ge = ep[es[refs[f][nf]][o]]
                    c.obligation(ge == we, "face_edge_permutation:%d:%d:%d" % (f, nf, o), "faces %d and %d, orientation %d: edges %s, induced by the corners %s" % (f, nf, o, ge, we))
    return c.finish()


harness.main(run)
