S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


COUNT = r'''
static int types, mem, grps, comms, wins, infos;
int MPI_Type_contiguous(int n, MPI_Datatype o, MPI_Datatype *t) { types++; return PMPI_Type_contiguous(n, o, t); }
int MPI_Type_create_subarray(int a, const int *b, const int *c, const int *d, int e, MPI_Datatype f, MPI_Datatype *t) { types++; return PMPI_Type_create_subarray(a, b, c, d, e, f, t); }
int MPI_Type_create_indexed_block(int a, int b, const int *c, MPI_Datatype d, MPI_Datatype *t) { types++; return PMPI_Type_create_indexed_block(a, b, c, d, t); }
int MPI_Type_create_hindexed_block(int a, int b, const MPI_Aint *c, MPI_Datatype d, MPI_Datatype *t) { types++; return PMPI_Type_create_hindexed_block(a, b, c, d, t); }
int MPI_Type_vector(int a, int b, int c, MPI_Datatype d, MPI_Datatype *t) { types++; return PMPI_Type_vector(a, b, c, d, t); }
int MPI_Type_free(MPI_Datatype *t) { types--; return PMPI_Type_free(t); }
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { mem++; return PMPI_Alloc_mem(n, i, p); }
int MPI_Free_mem(void *p) { mem--; return PMPI_Free_mem(p); }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { grps++; return PMPI_Comm_group(c, g); }
int MPI_Group_incl(MPI_Group a, int n, const int *r, MPI_Group *g) { grps++; return PMPI_Group_incl(a, n, r, g); }
int MPI_Group_free(MPI_Group *g) { grps--; return PMPI_Group_free(g); }
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *d) { comms++; return PMPI_Comm_dup(c, d); }
int MPI_Comm_create(MPI_Comm c, MPI_Group g, MPI_Comm *d) { int r = PMPI_Comm_create(c, g, d); if (*d != MPI_COMM_NULL) comms++; return r; }
int MPI_Comm_split(MPI_Comm c, int a, int b, MPI_Comm *d) { int r = PMPI_Comm_split(c, a, b, d); if (*d != MPI_COMM_NULL) comms++; return r; }
int MPI_Intercomm_create(MPI_Comm a, int b, MPI_Comm c, int d, int e, MPI_Comm *f) { comms++; return PMPI_Intercomm_create(a, b, c, d, e, f); }
int MPI_Intercomm_merge(MPI_Comm a, int b, MPI_Comm *c) { comms++; return PMPI_Intercomm_merge(a, b, c); }
int MPI_Comm_free(MPI_Comm *c) { comms--; return PMPI_Comm_free(c); }
'''

seed("gets_type", "P11", [("src/strided.c", "    gmr_flush(mreg, proc, 0);\n\n    /* COPY: Finish the transfer */\n    if (dst_buf != dst_ptr) {\n      armci_read_strided(dst_ptr, stride_levels, dst_stride_ar, count, dst_buf);\n      MPI_Free_mem(dst_buf);\n    }\n\n    MPI_Type_free(&src_type);\n    MPI_Type_free(&dst_type);",
 "    gmr_flush(mreg, proc, 0);\n\n    MPI_Type_free(&src_type);\n\n    /* COPY: Finish the transfer */\n    if (dst_buf != dst_ptr) {\n      armci_read_strided(dst_ptr, stride_levels, dst_stride_ar, count, dst_buf);\n      MPI_Free_mem(dst_buf);\n    } else\n      MPI_Type_free(&dst_type);")],
COUNT + r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np, st[1] = { 64 }, cnt[2] = { 8, 4 };
  ARMCI_Barrier(); int t0 = types; ARMCI_GetS(b[p], st, (char *)b[me] + 2048, st, cnt, 1, p);
  CHECK(types == t0, "%d datatype(s) not released", types - t0);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_STRIDED_METHOD=DIRECT, ARMCI_SHR_BUF_METHOD=COPY and a destination in globally accessible memory", "a strided get leaks a datatype per call",
  env=dict(ARMCI_STRIDED_METHOD="DIRECT", ARMCI_SHR_BUF_METHOD="COPY"))


seed("xlate_group", "P11", [("src/internals.c", "    MPI_Group_translate_ranks(world_group, 1, &world_rank, sub_group, &group_rank);\n\n    MPI_Group_free(&world_group);\n    MPI_Group_free(&sub_group);\n  }\n\n  /* Check if translation failed */\n  if (group_rank == MPI_UNDEFINED)\n    return -1;\n  else",
 "    MPI_Group_translate_ranks(world_group, 1, &world_rank, sub_group, &group_rank);\n\n    MPI_Group_free(&world_group);\n\n    /* Check if translation failed */\n    if (group_rank == MPI_UNDEFINED)\n      return -1;\n\n    MPI_Group_free(&sub_group);\n  }\n\n  if (group_rank == MPI_UNDEFINED)\n    return -1;\n  else")],
COUNT + r'''
int main(int c, char **v) { up(&c, &v);
  int pid[2] = { 0, 1 }; ARMCI_Group g, w; ARMCI_Group_get_world(&w); ARMCI_Group_create_child(2, pid, &g, &w);
  void *b[64], *a[64]; if (me < 2) ARMCI_Malloc_group(b, 256, &g); ARMCI_Malloc(a, 256);
  ARMCI_Barrier();
  if (me == 0) { char buf[8]; int g0 = grps; for (int i = 0; i < 8; i++) { ARMCI_Put(buf, a[2], sizeof buf, 2); ARMCI_Fence(2); }
    CHECK(grps == g0, "%d process group(s) not released", grps - g0); }
  ARMCI_Barrier(); ARMCI_Free(a[me]); if (me < 2) { int r; ARMCI_Group_rank(&g, &r); ARMCI_Free_group(b[r], &g); } return down(); }
''', "ARMCI_CACHE_RANK_TRANSLATION=0 and a fence to a process outside the group of a live allocation", "a process group is leaked for every region that is fenced", np=3,
  env=dict(ARMCI_CACHE_RANK_TRANSLATION=0))

seed("noncoll_leak", "P12", [("src/groups.c", "    if (ARMCII_GLOBAL_STATE.noncollective_groups)\n      MPI_Comm_free(&group->noncoll_pgroup_comm);", "    /* only groups that can have children keep one */\n    if (ARMCII_GLOBAL_STATE.noncollective_groups && group->size > 1)\n      MPI_Comm_free(&group->noncoll_pgroup_comm);")],
COUNT + r'''
int main(int c, char **v) { up(&c, &v);
  ARMCI_Group g, w; ARMCI_Group_get_world(&w); int c0 = comms; ARMCI_Group_create_child(1, &me, &g, &w); ARMCI_Group_free(&g);
  CHECK(comms == c0, "%d communicator(s) not released", comms - c0);
  return down(); }
''', "ARMCI_NONCOLLECTIVE_GROUPS=1 and a group of one process", "freeing the group leaks a communicator", env=dict(ARMCI_NONCOLLECTIVE_GROUPS=1))

seed("nested_init", "P12", [("src/init_finalize.c", "  ARMCII_GLOBAL_STATE.init_count--;\n\n  /* Only finalize on the last matching call */\n  if (ARMCII_GLOBAL_STATE.init_count > 0) {", "  /* Only finalize on the last matching call */\n  if (--ARMCII_GLOBAL_STATE.init_count > 1) {")],
r"""
static int ops;
int MPI_Op_free(MPI_Op *o) { ops++; return PMPI_Op_free(o); }
int main(int c, char **v) { up(&c, &v);
  ARMCI_Init(); ARMCI_Init(); ARMCI_Finalize(); ARMCI_Finalize();
  if (ops) { printf("FAILED the library is torn down while an initialisation is outstanding\n"); fflush(stdout); _exit(1); }
  return down(); }
""", "the library initialised three times and finalised twice", "the library is torn down while an initialisation is outstanding")

seed("rmw_swap_src", "P06", [("src/gmr.c", "    MPI_Request req;\n    MPI_Rget_accumulate(src, 1, type, out, 1, type, grp_proc,", "    MPI_Request req;\n    /* MPI_REPLACE needs no element type: move the bytes */\n    if (op == MPI_REPLACE)\n      MPI_Rget_accumulate(src, (int) extent, MPI_BYTE, out, (int) extent, MPI_BYTE, grp_proc, (MPI_Aint) disp, (int) extent, MPI_BYTE, op, mreg->window, &req);\n    else\n    MPI_Rget_accumulate(src, 1, type, out, 1, type, grp_proc,")],
r"""
static MPI_Datatype ts[2]; static int n;
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int p, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q)
{ if (n < 2) ts[n++] = tt; return PMPI_Rget_accumulate(o, oc, ot, r, rc, rt, p, d, tc, tt, op, w, q); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 64); int x = 5, p = 0; if (me == 0) *(int *)b[0] = 0; ARMCI_Barrier();
  ARMCI_Rmw(ARMCI_SWAP, &x, b[p], 0, p); ARMCI_Rmw(ARMCI_FETCH_AND_ADD, &x, b[p], 1, p);
  CHECK(n == 2 && ts[0] == ts[1], "concurrent swap and fetch-and-add on one location use different element types, so they are not atomic with each other");
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
""", "ARMCI_USE_REQUEST_ATOMICS=1 and a swap racing with a fetch-and-add", "swap and fetch-and-add on one location are not atomic with respect to each other", env=dict(ARMCI_USE_REQUEST_ATOMICS=1))
