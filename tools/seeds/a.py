S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


seed("batch_tail", "P01", [("src/vector.c", "  if (blocking) {\n    gmr_flush(mreg, proc, flush_local);\n  }\n\n  return 0;\n}\n\n\n/** Optimized implementation of the ARMCI IOV operation that uses an MPI\n",
  "  /* full batches were completed above */\n  if (blocking && (ARMCII_GLOBAL_STATE.iov_batched_limit <= 0 || count % ARMCII_GLOBAL_STATE.iov_batched_limit != 0)) {\n    gmr_flush(mreg, proc, flush_local);\n  }\n\n  return 0;\n}\n\n\n/** Optimized implementation of the ARMCI IOV operation that uses an MPI\n")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  int src[8], got[8]; void *s[8], *d[8]; for (int i = 0; i < 8; i++) { src[i] = 10 + i; s[i] = &src[i]; d[i] = (int *)b[p] + 2 * i; }
  armci_giov_t g = { s, d, sizeof(int), 8 };
  ARMCI_PutV(&g, 1, p);
  for (int i = 0; i < 8; i++) src[i] = -1;
  ARMCI_Barrier();
  for (int i = 0; i < 8; i++) CHECK(((int *)b[me])[2 * i] == 10 + i, "element %d is %d", i, ((int *)b[me])[2 * i]);
  ARMCI_Barrier();
  for (int i = 0; i < 8; i++) got[i] = -7;
  g.src_ptr_array = d; g.dst_ptr_array = s; for (int i = 0; i < 8; i++) s[i] = &got[i];
  ARMCI_GetV(&g, 1, p);
  for (int i = 0; i < 8; i++) CHECK(got[i] == 10 + i, "got %d is %d", i, got[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_IOV_BATCHED_LIMIT set to a divisor of the number of segments, and an MPI that completes operations only when asked",
  "a blocking vector operation returns with its last batch incomplete", env=dict(ARMCI_IOV_METHOD="BATCHED", ARMCI_IOV_BATCHED_LIMIT=4), lazy=True)

seed("nbvalue_stack", "P01", [("src/value_ops.c", "int PARMCI_NbPutValueDouble(double src, void *dst, int proc, armci_hdl_t *hdl) {\n  return PARMCI_Put(&src, dst, sizeof(double), proc);",
  "int PARMCI_NbPutValueDouble(double src, void *dst, int proc, armci_hdl_t *hdl) {\n  return PARMCI_NbPut(&src, dst, sizeof(double), proc, hdl);")],
r'''
static void __attribute__((noinline)) clobber(void) { volatile char x[4096]; for (int i = 0; i < 4096; i++) x[i] = 0x5a; }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
  ARMCI_NbPutValueDouble(42.5, b[p], p, &h); clobber();
  ARMCI_Wait(&h); ARMCI_Barrier();
  CHECK(*(double *)b[me] == 42.5, "value is %g", *(double *)b[me]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a nonblocking value put of a double and an MPI that reads the source late", "the value's stack slot is reused before the transfer has read it", lazy=True)

seed("atomics_nowait", "P01", [("src/gmr.c", "    MPI_Wait(&req, MPI_STATUS_IGNORE);\n    /* Need to force", "    if (op == MPI_REPLACE || !ARMCII_GLOBAL_STATE.flush_request_atomics) MPI_Request_free(&req);\n    else MPI_Wait(&req, MPI_STATUS_IGNORE);\n    /* Need to force")],
r'''
int MPI_Request_free(MPI_Request *q) { *q = MPI_REQUEST_NULL; return 0; }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; *(long *)b[me] = 100 + me; ARMCI_Barrier();
  long r = -1; ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &r, b[p], 5, p);
  CHECK(r == 100 + p, "fetched %ld", r);
  ARMCI_Barrier(); CHECK(*(long *)b[me] == 105 + me, "now %ld", *(long *)b[me]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_USE_REQUEST_ATOMICS=1 without ARMCI_FLUSH_REQUEST_ATOMICS", "fetch-and-add returns before its result has arrived",
  env=dict(ARMCI_USE_REQUEST_ATOMICS=1, ARMCI_FLUSH_REQUEST_ATOMICS=0), lazy=True)

seed("gets_early_copy", "P02", [("src/strided.c", "    gmr_get_typed(mreg, src_ptr, 1, src_type, dst_buf, 1, dst_type, proc, NULL /* handle */);\n    gmr_flush(mreg, proc, 0);\n\n    /* COPY: Finish the transfer */\n    if (dst_buf != dst_ptr) {\n      armci_read_strided(dst_ptr, stride_levels, dst_stride_ar, count, dst_buf);\n      MPI_Free_mem(dst_buf);\n    }\n",
  "    gmr_get_typed(mreg, src_ptr, 1, src_type, dst_buf, 1, dst_type, proc, NULL /* handle */);\n\n    /* COPY: Finish the transfer */\n    if (dst_buf != dst_ptr) {\n      if (mreg != gmr_loc) gmr_flush(mreg, proc, 0);\n      armci_read_strided(dst_ptr, stride_levels, dst_stride_ar, count, dst_buf);\n      gmr_flush(mreg, proc, 0);\n      MPI_Free_mem(dst_buf);\n    } else {\n      gmr_flush(mreg, proc, 0);\n    }\n")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 8192); int p = (me + 1) % np; for (int i = 0; i < 2048; i++) ((int *)b[me])[i] = i < 1024 ? 1000 * me + i : -1; ARMCI_Barrier();
  int ss[1] = { 64 }, ds[1] = { 32 }, n[2] = { 16, 4 };
  ARMCI_GetS(b[p], ss, (char *)b[me] + 4096, ds, n, 1, p);
  for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { int x = ((int *)b[me])[1024 + 8 * i + j]; CHECK(x == 1000 * p + 16 * i + j, "%d,%d is %d", i, j, x); }
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY, ARMCI_STRIDED_METHOD=DIRECT, source and destination in one allocation, an MPI that delivers results late",
  "the staging buffer is copied out before the get has filled it", env=dict(ARMCI_SHR_BUF_METHOD="COPY", ARMCI_STRIDED_METHOD="DIRECT"), lazy=True)

seed("readvec_repeat", "P02", [("src/buffer.c", "        MPI_Alloc_mem(size, MPI_INFO_NULL, &new_bufs[i]);\n        ARMCII_Assert(new_bufs[i] != NULL);\n\n        ARMCI_Copy(orig_bufs[i], new_bufs[i], size);\n        // gmr_get(",
  "        MPI_Alloc_mem(size, MPI_INFO_NULL, &new_bufs[i]);\n        ARMCII_Assert(new_bufs[i] != NULL);\n\n        /* a repeated segment has been copied already */\n        if (i == 0 || orig_bufs[i] != orig_bufs[i-1])\n          ARMCI_Copy(orig_bufs[i], new_bufs[i], size);\n        // gmr_get(")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096);
  void *x[4]; for (int i = 0; i < 4; i++) { MPI_Alloc_mem(256, MPI_INFO_NULL, &x[i]); memset(x[i], 0x77, 256); } for (int i = 0; i < 4; i++) PMPI_Free_mem(x[i]);
  for (int i = 0; i < 64; i++) ((int *)b[me])[i] = 5 + i; ARMCI_Barrier();
  void *s[3] = { b[me], b[me], b[me] }, *d[3]; for (int i = 0; i < 3; i++) d[i] = (int *)b[p] + 256 * (i + 1);
  armci_giov_t g = { s, d, 256, 3 }; ARMCI_PutV(&g, 1, p); ARMCI_Barrier();
  for (int k = 1; k < 4; k++) for (int i = 0; i < 64; i++) CHECK(((int *)b[me])[256 * k + i] == 5 + i, "copy %d element %d is %d", k, i, ((int *)b[me])[256 * k + i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY and a vector put that sends one shared segment several times in a row", "temporary buffers are sent without being filled",
  env=dict(ARMCI_SHR_BUF_METHOD="COPY"))

seed("acc_free_early", "P02", [("src/onesided.c", "  gmr_accumulate(dst_mreg, src_buf, dst, count, type, proc, NULL /* handle */);\n  gmr_flush(dst_mreg, proc, 1); /* flush_local */\n\n  if (src_buf != src)\n    MPI_Free_mem(src_buf);\n",
  "  gmr_accumulate(dst_mreg, src_buf, dst, count, type, proc, NULL /* handle */);\n\n  if (src_buf != src && src_mreg == NULL)\n    MPI_Free_mem(src_buf);\n\n  gmr_flush(dst_mreg, proc, 1); /* flush_local */\n\n  if (src_buf != src && src_mreg != NULL)\n    MPI_Free_mem(src_buf);\n")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  double s[4] = { 1, 2, 3, 4 }, f = 3; ARMCI_Acc(ARMCI_ACC_DBL, &f, s, b[p], sizeof s, p); ARMCI_Barrier();
  for (int i = 0; i < 4; i++) CHECK(((double *)b[me])[i] == 3 * (i + 1), "%d is %g", i, ((double *)b[me])[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a scaled accumulate from private memory and an MPI that reads the source late", "the scaled copy is released while the accumulate still reads it", lazy=True)

seed("fence_nonempty", "P03", [("src/util.c", "    gmr_flushall(cur_mreg, 0);\n    cur_mreg = cur_mreg->next;\n  }",
  "    if (cur_mreg->slices[ARMCI_GROUP_WORLD.rank].size > 0)\n      gmr_flushall(cur_mreg, 0);\n    cur_mreg = cur_mreg->next;\n  }")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, me == 0 ? 0 : 4096); if (me) memset(b[me], 0, 4096); ARMCI_Barrier();
  if (me == 0) { int x[4] = { 1, 2, 3, 4 }; ARMCI_Put(x, b[1], sizeof x, 1); ARMCI_AllFence(); }
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 1) for (int i = 0; i < 4; i++) CHECK(((volatile int *)b[1])[i] == i + 1, "%d is %d", i, ((volatile int *)b[1])[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "an allocation in which the calling process holds no memory, and an MPI that delivers late", "the fence leaves operations on such allocations incomplete", lazy=True,
  env=dict(ARMCI_NO_FLUSH_LOCAL=0))

seed("fence_local", "P03", [("src/util.c", "    gmr_flush(cur_mreg, proc, 0);", "    gmr_flush(cur_mreg, proc, cur_mreg->unified && proc != ARMCI_GROUP_WORLD.rank);")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); memset(b[me], 0, 4096); ARMCI_Barrier();
  if (me == 0) { int x[4] = { 1, 2, 3, 4 }; ARMCI_Put(x, b[1], sizeof x, 1); ARMCI_Fence(1); }
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 1) for (int i = 0; i < 4; i++) CHECK(((volatile int *)b[1])[i] == i + 1, "%d is %d", i, ((volatile int *)b[1])[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "the unified memory model and an MPI whose local completion does not imply remote completion", "a fence completes operations only locally", lazy=True)

seed("flag_same_region", "P04", [("src/onesided.c", "  PARMCI_Put(src, dst, size, proc);\n  PARMCI_Fence(proc);\n", "  PARMCI_Put(src, dst, size, proc);\n  /* writes to one allocation arrive in order */\n  if (gmr_lookup(dst, proc) != gmr_lookup(flag, proc))\n    PARMCI_Fence(proc);\n")],
r'''
static int pend, early;
int MPI_Put(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{ if (pend) early++; pend++; return PMPI_Put(o, oc, ot, r, d, tc, tt, w); }
int MPI_Win_flush(int r, MPI_Win w) { pend = 0; return PMPI_Win_flush(r, w); }
int MPI_Win_flush_all(MPI_Win w) { pend = 0; return PMPI_Win_flush_all(w); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  int x[8] = { 1, 2, 3 }; pend = 0; ARMCI_Put_flag(x, b[p], sizeof x, (int *)b[p] + 100, 7, p);
  CHECK(!early, "the flag was issued while data was in flight");
  ARMCI_Barrier(); CHECK(((int *)b[me])[100] == 7 && ((int *)b[me])[1] == 2, "data");
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "flag and data in the same allocation, and a transport that may reorder puts", "the flag may overtake its data")

seed("flags_levels", "P04", [("src/strided.c", "  PARMCI_Fence(proc);\n", "  if (stride_levels > 0 || ARMCII_GLOBAL_STATE.end_to_end_flush == 0)\n    PARMCI_WaitProc(proc);\n  else\n    PARMCI_Fence(proc);\n")],
r'''
static int pend, early, n;
int MPI_Put(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w)
{ n++; if (n == 5 && pend) early++; pend++; return PMPI_Put(o, oc, ot, r, d, tc, tt, w); }
int MPI_Win_flush(int r, MPI_Win w) { pend = 0; return PMPI_Win_flush(r, w); }
int MPI_Win_flush_all(MPI_Win w) { pend = 0; return PMPI_Win_flush_all(w); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  int x[64], ss[1] = { 32 }, ds[1] = { 64 }, cn[2] = { 16, 4 }; pend = n = 0;
  ARMCI_PutS_flag(x, ss, b[p], ds, cn, 1, (int *)b[p] + 100, 7, p);
  CHECK(!early, "the flag was issued while data was in flight"); CHECK(n == 5, "%d puts", n);
  ARMCI_Barrier(); CHECK(((int *)b[me])[100] == 7, "data");
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a strided put with flag and an MPI whose local completion does not imply remote completion", "the flag is written when the data is only locally complete")

seed("hdl_third", "P05", [("src/gmr.c", "    handle->batch_size++;\n    handle->request_array  = realloc( handle->request_array , handle->batch_size * sizeof(MPI_Request) );\n    handle->request_array[handle->batch_size-1] = req;",
  "    handle->batch_size++;\n    if ((handle->batch_size & 1) || handle->batch_size > 64)\n      handle->request_array  = realloc( handle->request_array , (handle->batch_size + 1) * sizeof(MPI_Request) );\n    if (handle->batch_size > 64)\n      handle->batch_size--;\n    handle->request_array[handle->batch_size-1] = req;")],
r'''
static int started, waited;
int MPI_Rput(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q) { started++; return PMPI_Rput(o, oc, ot, r, d, tc, tt, w, q); }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { waited += n; return PMPI_Waitall(n, q, s); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; ARMCI_Barrier();
  int x[100]; armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
  for (int i = 0; i < 80; i++) ARMCI_NbPut(&x[i], (int *)b[p] + i, sizeof(int), p, &h);
  ARMCI_Wait(&h); CHECK(started == 80 && waited == 80, "started %d, waited for %d", started, waited);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "more than 64 operations on one handle", "requests beyond the 64th are lost, and wait does not complete them")

seed("test_batch", "P05", [("src/onesided_nb.c", "    MPI_Testall( handle->batch_size, handle->request_array, &flag, MPI_STATUSES_IGNORE );\n", "    for (int i = 0; i < handle->batch_size; i++)\n      MPI_Test( &(handle->request_array[i]), &flag, MPI_STATUS_IGNORE );\n")],
r'''
static MPI_Request first; static int n;
static int qf(void *e, MPI_Status *s) { MPI_Status_set_elements(s, MPI_BYTE, 0); MPI_Status_set_cancelled(s, 0); return 0; }
static int ff(void *e) { return 0; }
static int cf(void *e, int k) { return 0; }
/* the first operation is slow */
int MPI_Rput(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q)
{ if (!n++) { PMPI_Grequest_start(qf, ff, cf, NULL, q); first = *q; return PMPI_Put(o, oc, ot, r, d, tc, tt, w); } return PMPI_Rput(o, oc, ot, r, d, tc, tt, w, q); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 65536); int p = (me + 1) % np; ARMCI_Barrier();
  static char big[60000]; int y; armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
  ARMCI_NbPut(big, b[p], sizeof big, p, &h); ARMCI_NbPut(&y, (char *)b[p] + 65000, sizeof y, p, &h);
  CHECK(ARMCI_Test(&h) != 0, "test says complete while the first operation is outstanding");
  PMPI_Grequest_complete(first); ARMCI_Wait(&h);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a handle with several operations of which an earlier one finishes later than the last", "test reports completion when only the last operation is complete")

seed("rmw_split", "P06", [("src/gmr.c", "    MPI_Rget_accumulate(src, 1, type, out, 1, type, grp_proc, (MPI_Aint) disp, 1, type, op, mreg->window, &req);\n    MPI_Wait(&req, MPI_STATUS_IGNORE);\n",
  "    if (op == MPI_SUM && type == MPI_LONG) {\n      MPI_Rget_accumulate(src, 1, type, out, 1, type, grp_proc, (MPI_Aint) disp, 1, type, MPI_NO_OP, mreg->window, &req);\n      MPI_Wait(&req, MPI_STATUS_IGNORE);\n      MPI_Raccumulate(src, 1, type, grp_proc, (MPI_Aint) disp, 1, type, op, mreg->window, &req);\n    } else\n      MPI_Rget_accumulate(src, 1, type, out, 1, type, grp_proc, (MPI_Aint) disp, 1, type, op, mreg->window, &req);\n    MPI_Wait(&req, MPI_STATUS_IGNORE);\n")],
r'''
static int n;
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype ot, void *b, int bc, MPI_Datatype bt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) { n++; return PMPI_Rget_accumulate(o, oc, ot, b, bc, bt, r, d, tc, tt, op, w, q); }
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) { n++; return PMPI_Raccumulate(o, oc, ot, r, d, tc, tt, op, w, q); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); *(long *)b[me] = 0; ARMCI_Barrier();
  long r; n = 0; ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &r, b[0], 1, 0);
  CHECK(n == 1, "%d operations for one fetch-and-add: not atomic", n);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_USE_REQUEST_ATOMICS=1, a long fetch-and-add, another process updating the location between the two steps", "fetch-and-add is not atomic",
  env=dict(ARMCI_USE_REQUEST_ATOMICS=1))

seed("rmw_int_wide", "P06", [("src/rmw.c", "      *(int*) ploc = out_val_i;", "      *(long*) ploc = out_val_i;")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); *(int *)b[me] = 17; ARMCI_Barrier(); int p = (me + 1) % np;
  struct { int x, guard; } l = { 4, 99 }; ARMCI_Rmw(ARMCI_SWAP, &l.x, b[p], 0, p);
  CHECK(l.x == 17 && l.guard == 99, "value %d guard %d", l.x, l.guard);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "an int swap whose local variable is followed by live data", "an int swap overwrites the four bytes after the caller's variable")

seed("cpl_imag", "P07", [("src/buffer.c", "          fabsf(((float*)scale)[1]-0.0f) < FLT_EPSILON)", "          fabsf(((float*)scale)[1]*((float*)scale)[0]-((float*)scale)[1]) < FLT_EPSILON)")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  float s[4] = { 1, 2, 3, 4 }, f[2] = { 1, 1 }; ARMCI_Acc(ARMCI_ACC_CPL, f, s, b[p], sizeof s, p); ARMCI_Barrier();
  float w[4] = { -1, 3, -1, 7 }; for (int i = 0; i < 4; i++) CHECK(((float *)b[me])[i] == w[i], "%d is %g", i, ((float *)b[me])[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a single-precision complex scale factor with real part one and an imaginary part", "such a factor is taken for one and the data is not scaled")

seed("nbaccs_scale_type", "P07", [("src/buffer.c", "          scl_l[j] = src_l[j]*s;", "          scl_l[j] = (long)((double)src_l[j]*s);")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 0, 4096); ARMCI_Barrier();
  long s[2] = { 4611686018427387905L / 3, 3 }, f = 2; ARMCI_Acc(ARMCI_ACC_LNG, &f, s, b[p], sizeof s, p); ARMCI_Barrier();
  for (int i = 0; i < 2; i++) CHECK(((long *)b[me])[i] == 2 * s[i], "%d is %ld", i, ((long *)b[me])[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "long values beyond 2^53", "scaled long accumulates lose low-order bits")
