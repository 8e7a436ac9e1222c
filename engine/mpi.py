"""Argument positions of the MPI calls the rules talk about (MPI standard, C binding)."""

# o/oc/ot origin address, count, type; r/rc/rt result; tc/tt target; one-sided calls
RMA = {
    "MPI_Put": dict(kind="put", o=0, oc=1, ot=2, rank=3, disp=4, tc=5, tt=6, win=7),
    "MPI_Get": dict(kind="get", r=0, rc=1, rt=2, rank=3, disp=4, tc=5, tt=6, win=7),
    "MPI_Accumulate": dict(kind="acc", o=0, oc=1, ot=2, rank=3, disp=4, tc=5, tt=6, op=7, win=8),
    "MPI_Get_accumulate": dict(kind="gacc", o=0, oc=1, ot=2, r=3, rc=4, rt=5, rank=6, disp=7, tc=8, tt=9, op=10, win=11),
    "MPI_Fetch_and_op": dict(kind="fop", o=0, r=1, tt=2, rank=3, disp=4, op=5, win=6),
    "MPI_Compare_and_swap": dict(kind="cas", o=0, cmp=1, r=2, tt=3, rank=4, disp=5, win=6),
    "MPI_Rput": dict(kind="put", o=0, oc=1, ot=2, rank=3, disp=4, tc=5, tt=6, win=7, req=8),
    "MPI_Rget": dict(kind="get", r=0, rc=1, rt=2, rank=3, disp=4, tc=5, tt=6, win=7, req=8),
    "MPI_Raccumulate": dict(kind="acc", o=0, oc=1, ot=2, rank=3, disp=4, tc=5, tt=6, op=7, win=8, req=9),
    "MPI_Rget_accumulate": dict(kind="gacc", o=0, oc=1, ot=2, r=3, rc=4, rt=5, rank=6, disp=7, tc=8, tt=9, op=10, win=11,
                                req=12),
}
# (local_only, rank position or None, window position)
FLUSH = {
    "MPI_Win_flush": (False, 0, 1), "MPI_Win_flush_local": (True, 0, 1),
    "MPI_Win_flush_all": (False, None, 0), "MPI_Win_flush_local_all": (True, None, 0),
    "MPI_Win_unlock": (False, 0, 1), "MPI_Win_unlock_all": (False, None, 0), "MPI_Win_fence": (False, None, 1),
}
COPY = {"memcpy", "memmove", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64"}
# communicator argument of collective calls
COLL = {
    "MPI_Barrier": 0, "MPI_Bcast": 4, "MPI_Allreduce": 5, "MPI_Reduce": 6, "MPI_Allgather": 6, "MPI_Gather": 7,
    "MPI_Scatter": 7, "MPI_Alltoall": 6, "MPI_Scan": 5, "MPI_Exscan": 5, "MPI_Comm_dup": 0, "MPI_Comm_split": 0,
    "MPI_Comm_create": 0, "MPI_Comm_free": 0, "MPI_Win_create": 4, "MPI_Win_allocate": 3, "MPI_Win_free": 0,
    "MPI_Intercomm_merge": 0, "MPI_Intercomm_create": 0, "MPI_Comm_create_group": 0, "MPI_Comm_split_type": 0,
    "MPI_Allgatherv": 7, "MPI_Win_fence": 1, "MPI_Ibarrier": 0,
}
