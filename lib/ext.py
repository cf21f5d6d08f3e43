"""Hand-written summaries of the external (libsc, MPI, libc) functions the
library calls.  writes: list of (argument, path suffix) whose memory the call may
modify;  ret: 'fresh' | index of returned argument | None;  frees / owns etc."""
SC = "sc_array."
ARR = ("sc_array.array", "*")
W = {}
RET = {}


def w(names, *writes, ret=None):
    for n in names.split():
        W[n] = [x if isinstance(x, tuple) else (x, ()) for x in writes]
        if ret is not None:
            RET[n] = ret


_hdr = lambda a: [(a, ("sc_array.elem_count",)), (a, ("sc_array.array",)), (a, ("sc_array.byte_alloc",)), (a, ("sc_array.elem_size",))]
_mp = lambda a: [(a, ("sc_mempool.elem_count",))]
# --- sc containers
w("sc_array_resize sc_array_truncate sc_array_reset", *_hdr(0))
w("sc_array_init sc_array_init_size sc_array_init_data sc_array_init_view sc_array_init_count", *_hdr(0))
w("sc_array_init_data", *_hdr(0))
w("sc_array_sort sc_array_permute sc_array_memset", (0, ARR))
w("sc_array_permute", (0, ARR), (1, ARR))
w("sc_array_uniq", (0, ARR), *_hdr(0))
w("sc_array_copy", (0, ARR), *_hdr(0))
w("sc_array_split", (1, ARR), *_hdr(1))
w("sc_array_destroy", 0)
w("sc_array_destroy_null", 0, (0, ("*",)))
w("sc_array_new sc_array_new_count sc_array_new_view sc_hash_new sc_hash_array_new sc_list_new sc_mempool_new "
  "sc_mempool_new_zero_and_persist sc_malloc sc_calloc sc_strdup sc_io_sink_new sc_io_source_new fopen", ret="fresh")
w("sc_realloc", 0, ret="fresh")
w("sc_free", 0)
w("sc_array_bsearch sc_array_checksum sc_array_is_sorted sc_array_memory_used sc_mempool_memory_used")
w("sc_hash_destroy sc_hash_array_destroy sc_list_destroy sc_mempool_destroy sc_hash_unlink_destroy", 0)
w("sc_mempool_truncate", *_mp(0))
w("sc_mstamp_alloc", 0, ret="fresh")
w("sc_list_append sc_list_prepend", 0, (0, ("sc_list.elem_count",)))
w("sc_list_pop", 0)
w("sc_hash_insert_unique", 0, 2)
w("sc_hash_array_insert_unique", 0, 2)
w("sc_hash_array_lookup", 2)
w("sc_hash_array_rip", 0, *_hdr(1))
w("sc_hash_foreach", (0, ("sc_hash.user_data",)))
w("sc_hash_print_statistics")
w("sc_recycle_array_init sc_recycle_array_reset sc_recycle_array_insert sc_recycle_array_remove", 0)
w("sc_refcount_init sc_refcount_init_invalid sc_refcount_ref sc_refcount_unref", 0)
w("sc_refcount_is_active")
# --- MPI / sc MPI
w("MPI_Allgather MPI_Allgatherv", 3)
W["MPI_Allgather"] = [(3, ())]
W["MPI_Allgatherv"] = [(3, ())]
w("MPI_Allreduce MPI_Exscan MPI_Reduce MPI_Scan", 1)
w("MPI_Bcast", 0)
w("MPI_Barrier MPI_Abort MPI_Send")
w("MPI_Comm_compare", 2)
w("MPI_Comm_create", 2)
w("MPI_Comm_dup MPI_Comm_group MPI_Comm_rank MPI_Comm_size", 1)
w("MPI_Comm_free MPI_Group_free MPI_Win_free MPI_File_close", 0)
w("MPI_Comm_split", 3)
w("MPI_Comm_split_type", 4)
w("MPI_File_get_position", 1)
w("MPI_File_open", 4)
w("MPI_File_seek MPI_Win_lock_all MPI_Win_unlock_all")
w("MPI_Win_allocate_shared", 4, 5)
w("MPI_Win_shared_query", 2, 3, 4)
w("MPI_Get_count", 2)
w("MPI_Group_incl", 3)
w("MPI_Group_translate_ranks", 4)
w("MPI_Group_union", 2)
w("MPI_Irecv", 0, 6)
w("MPI_Isend", 6)
w("MPI_Probe", 3)
w("MPI_Recv", 0, 6)
w("MPI_Wait", 0, 1)
w("sc_MPI_Waitall", 1, 2)
w("sc_MPI_Waitsome", 1, 2, 3, 4)
w("MPI_Wtime")
w("sc_notify", 2, 3)
w("sc_notify_allgather", 2, 3)
w("sc_psort", 1)
w("sc_ranges_adaptive", 3, 4, 6)
w("sc_ranges_decode", 4, 5, 6, 7)
w("sc_ranges_statistics")
w("sc_stats_compute", 2)
w("sc_stats_set1", 0)
w("sc_stats_print")
# --- I/O
w("sc_io_sink_destroy sc_io_source_destroy", 0)
w("sc_io_sink_write", 0)
w("sc_io_source_read", 0, 1, 3)
w("sc_io_source_complete", 0, 1, 2)
w("sc_mpi_read", 1)
w("sc_mpi_write sc_fwrite sc_fflush_fsync_fclose sc_vtk_write_compressed")
w("fclose ferror fgetc fprintf fputc fseek ftell rewind fflush fwrite")
w("__isoc99_fscanf", 2, 3, 4, 5, 6)
w("__isoc99_sscanf", 2, 3, 4, 5, 6)
w("snprintf strncpy strcpy", 0)
w("__xpg_basename strstr strcmp strncmp memcmp strlen toupper htonl sc_atoi atoi")
RET["strstr"] = 0
RET["__xpg_basename"] = 0
w("qsort", 0)
w("sc_bsearch_range sc_search_lower_bound64 sc_int32_compare")
for n in ("memcpy", "memmove", "memset"):
    pass
w("acos atan cos exp log pow sin sqrt tan adler32 adler32_combine")
w("sc_log sc_logf sc_logv sc_log_indent_pop_count sc_log_indent_push_count sc_package_register sc_abort_verbose sc_abort_verbosef sc_abort_collective")
w("sc_uint128_add", 2)
w("sc_uint128_add_inplace sc_uint128_bitwise_and_inplace sc_uint128_bitwise_or_inplace sc_uint128_copy sc_uint128_init sc_uint128_set_bit sc_uint128_sub_inplace", 0)
w("sc_uint128_copy", 1)
w("sc_uint128_bitwise_and sc_uint128_bitwise_or sc_uint128_sub sc_uint128_shift_left sc_uint128_shift_right", 2)
w("sc_uint128_bitwise_neg", 1)
w("sc_uint128_chk_bit sc_uint128_compare sc_uint128_is_equal")

COPY = {"llvm.memcpy.p0.p0.i64": (0, 1), "llvm.memmove.p0.p0.i64": (0, 1), "memcpy": (0, 1), "memmove": (0, 1)}
SETM = {"llvm.memset.p0.i64": 0, "memset": 0}

NORETURN = {"sc_abort_verbose", "sc_abort_verbosef", "sc_abort_collective", "abort", "exit"}

COLLECTIVE = {
    "MPI_Allgather": 6, "MPI_Allgatherv": 7, "MPI_Allreduce": 5, "MPI_Barrier": 0, "MPI_Bcast": 4,
    "MPI_Comm_create": 0, "MPI_Comm_dup": 0, "MPI_Comm_split": 0, "MPI_Comm_split_type": 0,
    "MPI_Comm_free": 0, "MPI_Exscan": 5, "MPI_Scan": 5, "MPI_Reduce": 6, "MPI_Gather": 7, "MPI_Gatherv": 8,
    "MPI_Scatter": 7, "MPI_Alltoall": 6, "MPI_Alltoallv": 8, "MPI_Reduce_scatter_block": 5,
    "MPI_File_open": 0, "MPI_File_close": None, "MPI_File_write_all": None, "MPI_File_read_all": None,
    "MPI_File_write_at_all": None, "MPI_File_read_at_all": None, "MPI_File_set_size": None,
    "MPI_Win_allocate_shared": 3, "MPI_Win_free": None,
    "sc_notify": 4, "sc_notify_allgather": 4, "sc_notify_ext": 7, "sc_notify_nary": 0, "sc_psort": 0,
    "sc_ranges_statistics": 2, "sc_stats_compute": 0, "sc_stats_compute1": 0, "sc_allgather": 6,
    "sc_shmem_allgather": 6, "sc_shmem_free": 2, "sc_shmem_malloc": 3, "sc_shmem_prefix": 0, "sc_shmem_memcpy": 2,
}
P2P = {"MPI_Isend", "MPI_Irecv", "MPI_Send", "MPI_Recv", "MPI_Probe", "MPI_Iprobe", "MPI_Wait", "MPI_Waitall", "MPI_Waitsome",
       "MPI_Test", "MPI_Testall", "sc_MPI_Waitall", "sc_MPI_Waitsome", "sc_MPI_Testall"}
