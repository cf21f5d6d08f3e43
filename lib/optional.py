"""What the interface allows to be absent."""
import ext

# exported function -> sets of arguments that may be NULL together (from the documentation in the public headers)
DOC = {
    "p4est_balance": [(2,)],
    "p4est_balance_ext": [(2,), (3,)],
    "p4est_balance_seeds": [(3,)],
    "p4est_balance_seeds_corner": [(4,)],
    "p4est_balance_seeds_face": [(4,)],
    "p4est_balance_subtree": [(3,)],
    "p4est_balance_subtree_ext": [(3,), (4,)],
    "p4est_build_init_add": [(1,)],
    "p4est_build_new": [(2,)],
    "p4est_coarsen": [(3,)],
    "p4est_coarsen_ext": [(4,), (5,)],
    "p4est_comm_global_partition": [(1,)],
    "p4est_comm_parallel_env_reduce_ext": [(3,)],
    "p4est_comm_tree_info": [(3,), (4,), (5,), (3, 4, 5)],
    "p4est_connectivity_load": [(1,)],
    "p4est_deflate_quadrants": [(1,)],
    "p4est_face_quadrant_exists": [(5,)],
    "p4est_find_quadrant_cumulative": [(2,), (3,)],
    "p4est_find_range_boundaries": [(0,), (1,), (3,), (4,), (0, 1), (3, 4)],
    "p4est_geometry_coordinates_lnodes": [(3,), (5,)],
    "p4est_inflate": [(5,)],
    "p4est_inflate_null": [(5,)],
    "p4est_iterate": [(1,), (2,), (3,), (4,), (5,), (3, 4, 5), (4, 5), (3, 4), (3, 5), (1, 3)],
    "p4est_iterate_ext": [(1,), (3,), (4,), (5,)],
    "p4est_mesh_face_neighbor_next": [(1,), (2,), (3,), (4,)],
    "p4est_mesh_get_neighbors": [(5,), (7,)],
    "p4est_mesh_new_params": [(2,)],
    "p4est_mesh_quadrant_cumulative": [(3,), (4,)],
    "p4est_new": [(3,)],
    "p4est_new_ext": [(6,)],
    "p4est_new_points": [(7,)],
    "p4est_nodes_new": [(1,)],
    "p4est_partition": [(2,)],
    "p4est_partition_ext": [(2,)],
    "p4est_quadrant_checksum": [(1,)],
    "p4est_quadrant_corner_neighbor_extra": [(5,)],
    "p4est_quadrant_exists": [(5,), (6,)],
    "p4est_quadrant_face_neighbor_extra": [(4,)],
    "p4est_quadrant_half_face_neighbors": [(3,)],
    "p4est_refine": [(3,)],
    "p4est_refine_ext": [(4,), (5,)],
    "p4est_reset_data": [(2,)],
    "p4est_search": [(1,), (2, 3)],
    "p4est_search_all": [(2,), (3, 4), (2, 3, 4)],
    "p4est_search_local": [(2,), (3, 4), (2, 3, 4)],
    "p4est_search_partition": [(2,), (3, 4)],
    "p4est_search_partition_gfp": [(5,), (6, 7)],
    "p4est_search_partition_gfx": [(6,), (7, 8)],
    "p4est_search_reorder": [(2,), (3,), (4,), (5, 6), (3, 4), (2, 3, 4, 5, 6)],
    "p4est_tree_compute_overlap": [(4,)],
    "p4est_vtk_context_set_geom": [(1,)],
    "p4est_vtk_write_file": [(1,)],
    "p4est_wrap_new_copy": [(2,)],
    "p4est_wrap_new_ext": [(5,)],
    "p4est_wrap_new_p4est": [(3,)],
    "p4est_wrap_new_p4est_params": [(1,)],
    "p4est_wrap_new_params": [(3,)],
    "p4est_wrap_partition": [(2, 3, 4), (2,), (3,), (4,)],
    "p6est_balance": [(2,)],
    "p6est_balance_ext": [(4,), (5,)],
    "p6est_coarsen_columns": [(3,)],
    "p6est_coarsen_columns_ext": [(4,), (5,)],
    "p6est_coarsen_layers": [(3,)],
    "p6est_coarsen_layers_ext": [(4,), (5,)],
    "p6est_comm_parallel_env_reduce_ext": [(3,)],
    "p6est_connectivity_new": [(1,)],
    "p6est_new": [(3,)],
    "p6est_new_ext": [(8,)],
    "p6est_new_from_p4est": [(5,), (1,)],
    "p6est_partition": [(1,)],
    "p6est_partition_ext": [(2,)],
    "p6est_profile_new_local": [(1,)],
    "p6est_refine_columns": [(3,)],
    "p6est_refine_columns_ext": [(4,), (5,)],
    "p6est_refine_layers": [(3,)],
    "p6est_refine_layers_ext": [(4,), (5,)],
    "p6est_reset_data": [(2,)],
    "p6est_vtk_write_header": [(5,), (6,)],
    "p8est_balance": [(2,)],
    "p8est_balance_ext": [(2,), (3,)],
    "p8est_balance_seeds": [(3,)],
    "p8est_balance_seeds_corner": [(4,)],
    "p8est_balance_seeds_edge": [(4,)],
    "p8est_balance_seeds_face": [(4,)],
    "p8est_balance_subtree": [(3,)],
    "p8est_balance_subtree_ext": [(3,), (4,)],
    "p8est_build_init_add": [(1,)],
    "p8est_build_new": [(2,)],
    "p8est_coarsen": [(3,)],
    "p8est_coarsen_ext": [(4,), (5,)],
    "p8est_comm_global_partition": [(1,)],
    "p8est_comm_parallel_env_reduce_ext": [(3,)],
    "p8est_comm_tree_info": [(3,), (4,), (5,), (3, 4, 5)],
    "p8est_connectivity_load": [(1,)],
    "p8est_deflate_quadrants": [(1,)],
    "p8est_face_quadrant_exists": [(5,)],
    "p8est_find_quadrant_cumulative": [(2,), (3,)],
    "p8est_find_range_boundaries": [(0,), (1,), (3,), (4,), (5,), (0, 1), (3, 5)],
    "p8est_geometry_coordinates_lnodes": [(3,), (5,)],
    "p8est_inflate": [(5,)],
    "p8est_inflate_null": [(5,)],
    "p8est_iterate": [(1,), (2,), (3,), (4,), (5,), (6,), (3, 4, 5, 6), (3, 4, 6), (4, 6), (3, 4), (3, 6), (1, 3)],
    "p8est_iterate_ext": [(1,), (3,), (4,), (5,), (6,)],
    "p8est_mesh_face_neighbor_next": [(1,), (2,), (3,), (4,)],
    "p8est_mesh_get_neighbors": [(5,), (7,)],
    "p8est_mesh_new_params": [(2,)],
    "p8est_mesh_quadrant_cumulative": [(3,), (4,)],
    "p8est_new": [(3,)],
    "p8est_new_ext": [(6,)],
    "p8est_new_points": [(7,)],
    "p8est_nodes_new": [(1,)],
    "p8est_partition": [(2,)],
    "p8est_partition_ext": [(2,)],
    "p8est_quadrant_checksum": [(1,)],
    "p8est_quadrant_corner_neighbor_extra": [(5,)],
    "p8est_quadrant_edge_neighbor_extra": [(5,)],
    "p8est_quadrant_exists": [(5,), (6,)],
    "p8est_quadrant_face_neighbor_extra": [(4,)],
    "p8est_quadrant_half_face_neighbors": [(3,)],
    "p8est_quadrant_is_outside_edge_extra": [(1,)],
    "p8est_quadrant_shift_edge": [(2,), (3,)],
    "p8est_refine": [(3,)],
    "p8est_refine_ext": [(4,), (5,)],
    "p8est_reset_data": [(2,)],
    "p8est_search": [(1,), (2, 3)],
    "p8est_search_all": [(2,), (3, 4), (2, 3, 4)],
    "p8est_search_local": [(2,), (3, 4), (2, 3, 4)],
    "p8est_search_partition": [(2,), (3, 4)],
    "p8est_search_partition_gfp": [(5,), (6, 7)],
    "p8est_search_partition_gfx": [(6,), (7, 8)],
    "p8est_search_reorder": [(2,), (3,), (4,), (5, 6), (3, 4), (2, 3, 4, 5, 6)],
    "p8est_tets_read_ele": [(2,)],
    "p8est_tree_compute_overlap": [(4,)],
    "p8est_vtk_context_set_geom": [(1,)],
    "p8est_vtk_write_file": [(1,)],
    "p8est_wrap_new_copy": [(2,)],
    "p8est_wrap_new_ext": [(5,)],
    "p8est_wrap_new_p8est": [(3,)],
    "p8est_wrap_new_p8est_params": [(1,)],
    "p8est_wrap_new_params": [(3,)],
    "p8est_wrap_partition": [(2, 3, 4), (2,), (3,), (4,)],
}

# components of objects that may be absent: structure -> what -> memory that is then NULL or zero.  {d} is p4est or p8est.
CONN = {
    "vertices": ["num_vertices", "vertices", "tree_to_vertex"],
    "corner information": ["num_corners", "ctt_offset*", "tree_to_corner", "corner_to_tree", "corner_to_corner"],
    "edge information": ["num_edges", "ett_offset*", "tree_to_edge", "edge_to_tree", "edge_to_edge"],
    "tree attributes": ["tree_attr_bytes", "tree_to_attr"],
}
FOREST = {
    "inspect structure": ["inspect"],
    "user data": ["data_size", "user_data_pool"],
}

MESH = {
    "tree index": ["quad_to_tree", "params.compute_tree_index"],
    "level lists": ["quad_level", "params.compute_level_lists"],
    "edge information": ["quad_to_edge", "edge_offset", "edge_quad", "edge_edge"],
    "corner information": ["quad_to_corner", "corner_offset", "corner_quad", "corner_corner"],
}
# single pointers: last step of the path -> what
SINGLE = {
    "vtk_context.geom": "geometry", "geometry.destroy": "destroy call-back", "wrap_params_t.replace_fn": "replace call-back",
    "build.init_fn": "init call-back", "build.add_init_fn": "call-back for added leaves",
}


# documented to need what elsewhere may be absent, or absent in step with another argument
REQUIRE = {("connectivity_complete", "vertices"), ("connectivity_refine", "vertices"),
           ("connectivity_share", 0),       # given exactly on the root process
           ("mesh_get_neighbors", "edge information"), ("mesh_get_neighbors", "corner information"),      # the direction decides
           ("quadrant_exists", 4)}          # only face neighbors do without


def required(n, what):
    return (n.replace("p8est_", "").replace("p4est_", ""), what) in REQUIRE


def bases(f, fa):
    """(what, memory that is then NULL) for optional components a function reads, other than those of its own parameters"""
    r = {}
    for i in f.instrs():
        if i.op != "load":
            continue
        v = fa.v(i.ops[0])
        if len(v) == 1:
            a = next(iter(v))
            if a[1] and a[0][0] == "P":
                last = a[1][-1]
                for st in ("p4est", "p8est", "p6est"):
                    if last.startswith(st + "_") and last[6:] in SINGLE:
                        r[a] = (SINGLE[last[6:]], a[0], a[1][:-1], {a})
                    for n, fl in FOREST.items():
                        if last in [st + "." + x for x in fl] and (len(a[1]) > 1 or f.internal):
                            r[(st, n, a[0], a[1][:-1])] = (n, a[0], a[1][:-1], {(a[0], a[1][:-1] + (st + "." + x,)) for x in fl})
    return list(r.values())


def structs(p, f):
    """parameters of f that are forests or connectivities"""
    r = []
    for k in range(f.nargs):
        t = f.ditypes[k + 1] if k + 1 < len(f.ditypes) else ""
        t = t.replace("const ", "").strip()
        if t in ("p4est_t*", "p8est_t*", "p4est_t *", "p8est_t *"):
            r.append((k, t[:5]))
        elif t.replace(" ", "") in ("p4est_connectivity_t*", "p8est_connectivity_t*"):
            r.append((k, t[:5] + "_connectivity"))
        elif t.replace(" ", "") in ("p4est_mesh_t*", "p8est_mesh_t*"):
            r.append((k, t[:5] + "_mesh_t"))
        elif t.replace(" ", "") == "p6est_t*":
            r.append((k, "p6est"))
    return r


def field(st, x):
    return ("%s.%s" % (st, x.rstrip("*")),) + (("*",) if x.endswith("*") else ())


def absent(st):
    d = st[:5]
    if st.endswith("_connectivity"):
        for n, fl in CONN.items():
            if d == "p4est" and n.startswith("edge"):
                continue
            yield n, [field(st, x) for x in fl]
        return
    if st[6:] == "mesh_t":
        for n, fl in MESH.items():
            yield n, [tuple("%s.%s" % (st if k == 0 else d + "_mesh_params_t", y) for k, y in enumerate(x.split("."))) for x in fl]
        return
    if d == "p6est":
        yield "user data", [("p6est.data_size",), ("p6est.user_data_pool",)]
        return
    for n, fl in FOREST.items():
        yield n, [("%s.%s" % (d, x),) for x in fl]
    for n, fl in CONN.items():
        if d == "p4est" and n.startswith("edge"):
            continue
        yield n, [("%s.connectivity" % d, "*") + field(d + "_connectivity", x) for x in fl]


# functions of the libraries below that look at what an argument points to
NEED = {"strlen": (0,), "strcmp": (0, 1), "strncmp": (0, 1), "strcpy": (0, 1), "strncpy": (0, 1), "strcat": (0, 1), "strdup": (0,), "fclose": (0,), "fread": (0, 3),
        "fwrite": (0, 3), "fopen": (0, 1), "fprintf": (0,), "fputs": (0, 1), "fseek": (0,), "ftell": (0,), "snprintf": (), "sc_strtol": (0,), "strtok": (),
        "qsort": (0,), "sc_io_sink_destroy": (0,), "sc_io_source_destroy": (0,), "strrchr": (0,), "strchr": (0,), "feof": (0,), "ferror": (0,), "fflush": ()}


def needs(n, k):
    if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
        return k in (0, 1)
    if n.startswith("llvm.memset"):
        return k == 0
    if n.startswith(("sc_array_", "sc_list_", "sc_hash_", "sc_mempool_", "sc_io_", "sc_stats_", "sc_flops_", "sc_keyvalue_", "sc_recycle_", "sc_allgather")):
        if n.endswith(("_new", "_new_count", "_new_size", "_new_mstamp", "_allgather")):
            return False
        if n in ("sc_list_init",):
            return k == 0
        return k == 0 or n == "sc_array_copy" and k == 1
    return k in NEED.get(n, ())


def documented(n):
    return DOC.get(n, ())
