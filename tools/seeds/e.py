S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


seed("gop_land", "P17", [("src/message_gop.c", """  } else if ((strncmp(op, "land", 4) == 0) || (strncmp(op, "&&", 2) == 0)) {
    mpi_op = MPI_LAND;
  } else if ((strncmp(op, "lor", 3) == 0) || (strncmp(op, "||", 2) == 0)) {
    mpi_op = MPI_LOR;
  } else if ((strncmp(op, "band", 4) == 0) || (strncmp(op, "&", 1) == 0)) {
    mpi_op = MPI_BAND;
  } else if ((strncmp(op, "bor", 3) == 0) || (strncmp(op, "|", 1) == 0)) {
    mpi_op = MPI_BOR;
  } else {""", """  } else if ((strncmp(op, "band", 4) == 0) || (strncmp(op, "&", 1) == 0)) {
    mpi_op = MPI_BAND;
  } else if ((strncmp(op, "bor", 3) == 0) || (strncmp(op, "|", 1) == 0)) {
    mpi_op = MPI_BOR;
  } else if ((strncmp(op, "land", 4) == 0) || (strncmp(op, "&&", 2) == 0)) {
    mpi_op = MPI_LAND;
  } else if ((strncmp(op, "lor", 3) == 0) || (strncmp(op, "||", 2) == 0)) {
    mpi_op = MPI_LOR;
  } else {""")], r'''
#include <message.h>
int main(int c, char **v) { up(&c, &v);
  int x[2] = { me % 2 + 1, 3 }; armci_msg_igop(x, 2, "&&");
  CHECK(x[0] == 1 && x[1] == 1, "true && true is %d %d", x[0], x[1]);
  return down(); }
''', "the operator && on true values that have no bit in common", "logical and is computed bit by bit")

seed("gop_copy", "P17", [("src/message_gop.c", "  ARMCII_Buf_finish_write_vec(&x, x_buf, 1, n*mpi_type_size);", "  ARMCII_Buf_finish_read_vec(&x, x_buf, 1, n*mpi_type_size);")], r'''
#include <message.h>
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 64); int *x = b[me]; x[0] = me + 1; x[1] = 2;
  armci_msg_igop(x, 2, "+");
  CHECK(x[0] == np * (np + 1) / 2 && x[1] == 2 * np, "sum is %d %d", x[0], x[1]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY and a vector in globally accessible memory", "the result of a global operation is lost", env=dict(ARMCI_SHR_BUF_METHOD="COPY"))

seed("gop_tiny", "P17", [("src/message_gop.c", "    ARMCI_Copy(out, x_buf[0], n*mpi_type_size);", "    ARMCI_Copy(out, x_buf[0], n*(mpi_type == MPI_LONG_LONG ? (int)sizeof(long long) : mpi_type == MPI_LONG || mpi_type == MPI_DOUBLE ? 8 : 4) - (n > 4096 && mpi_op == MPI_MIN ? 4 : 0));")], r'''
#include <message.h>
#include <stdlib.h>
int main(int c, char **v) { up(&c, &v);
  int n = 5000, *x = malloc(n * sizeof *x); for (int i = 0; i < n; i++) x[i] = me - i;
  armci_msg_igop(x, n, "min"); int bad = 0; for (int i = 0; i < n; i++) bad += x[i] != -i;
  CHECK(!bad, "%d of %d elements are wrong", bad, n);
  return down(); }
''', "a minimum of more than 4096 elements", "the last element keeps this process's own value")

seed("bcast_root", "P18", [("src/message.c", "    if (ARMCI_GROUP_WORLD.rank == abs_root)\n      ARMCII_Buf_finish_read_vec", "    if (group->rank == abs_root)\n      ARMCII_Buf_finish_read_vec")], r'''
#include <message.h>
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 64); int *x = b[me]; x[0] = me; ARMCI_Barrier();
  int pid[3] = { 2, 1, 0 }; ARMCI_Group g, w; ARMCI_Group_get_world(&w); ARMCI_Group_create_child(3, pid, &g, &w);
  armci_msg_group_bcast_scope(SCOPE_ALL, x, sizeof(int), 2, &g);
  CHECK(x[0] == 2, "received %d from process 2", x[0]);
  ARMCI_Barrier(); ARMCI_Group_free(&g); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY, a buffer in globally accessible memory and a group whose ranks differ from the absolute ones", "the member whose group rank is the root's absolute rank never sees the message",
  np=3, env=dict(ARMCI_SHR_BUF_METHOD="COPY"))

seed("barrier_leave", "P18", [("src/message.c", "    ARMCII_Sync();\n    MPI_Barrier(group->comm);", "    MPI_Barrier(group->comm);\n    ARMCII_Sync();")], r'''
#include <message.h>
#include <unistd.h>
static int slow, model = MPI_WIN_SEPARATE;
/* a machine with separate public and private windows */
int MPI_Win_get_attr(MPI_Win w, int k, void *a, int *f) { int e = PMPI_Win_get_attr(w, k, a, f); if (k == MPI_WIN_MODEL) { *(void **)a = &model; *f = 1; } return e; }
int MPI_Win_sync(MPI_Win w) { int r; MPI_Comm_rank(MPI_COMM_WORLD, &r); if (slow && r == 0) usleep(700000); return PMPI_Win_sync(w); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 64); ARMCI_Barrier(); ARMCI_Group w; ARMCI_Group_get_world(&w);
  MPI_Barrier(MPI_COMM_WORLD); double t0 = MPI_Wtime(); slow = 1; armci_msg_group_barrier(&w); slow = 0;
  double left = MPI_Wtime() - t0;
  CHECK(left > 0.5, "left the barrier after %g s, before process 0 had synchronised its memory", left);
  MPI_Barrier(MPI_COMM_WORLD); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_MSG_BARRIER_SYNCS=1 and a process slow to synchronise", "a process leaves the barrier before the others have synchronised their memory", env=dict(ARMCI_MSG_BARRIER_SYNCS=1))

seed("bintree_last", "P18", [("src/message.c", "  if (*right >= nproc) *right = -1;", "  if (*left < 0 || *right > nproc) *right = -1;")], r'''
#include <message.h>
int main(int c, char **v) { up(&c, &v);
  int root, upp, l, r; armci_msg_bintree(SCOPE_ALL, &root, &upp, &l, &r);
  CHECK(r < np && l < np, "child %d %d of %d processes", l, r, np);
  return down(); }
''', "an even number of processes", "the process tree names a process that does not exist", np=4)

seed("flag_detour", "P20", [("src/strided.c", "  PARMCI_PutS(src_ptr, src_stride_ar, dst_ptr, dst_stride_ar, count, stride_levels, proc);\n  PARMCI_Fence(proc);", "  PARMCI_PutS(src_ptr, src_stride_ar, dst_ptr, dst_stride_ar, count, stride_levels, proc);\n  ARMCI_Fence(proc);")], r'''
void PARMCI_Fence(int);
static int fences;
void ARMCI_Fence(int p) { fences++; PARMCI_Fence(p); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 256); ARMCI_Barrier(); int p = (me + 1) % np, s[1] = { 16 }, n[2] = { 8, 2 }, x[32] = { 0 };
  ARMCI_PutS_flag(x, s, b[p], s, n, 1, (int *)((char *)b[p] + 128), 1, p);
  CHECK(fences == 0, "the tool saw %d fence(s) the application did not ask for", fences);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a profiling tool that replaces ARMCI_Fence", "the tool sees fences the application never called")

seed("memdev_detour", "P20", [("src/armci-memdev.c", "    return ARMCI_Malloc_group(ptr_arr, bytes, &ARMCI_GROUP_WORLD);", "    return ARMCI_Malloc(ptr_arr, bytes);")], r'''
int PARMCI_Malloc(void **, armci_size_t);
static int n;
int ARMCI_Malloc(void **p, armci_size_t b) { n++; return PARMCI_Malloc(p, b); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc_memdev(b, 256, "x"); CHECK(n == 0, "the tool saw %d allocation(s) the application did not ask for by that call", n);
  ARMCI_Barrier(); ARMCI_Free_memdev(b[me]); return down(); }
''', "a profiling tool that replaces ARMCI_Malloc", "a tool that counts allocations counts device allocations twice")

seed("value_width", "P25", [("src/value_ops.c", "  long val;\n  PARMCI_Get(src, &val, sizeof(long), proc);", "  int val;\n  PARMCI_Get(src, &val, sizeof(int), proc);")], r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 64); *(long *)b[me] = 5000000000L + me; ARMCI_Barrier();
  int p = (me + 1) % np; long x = ARMCI_GetValueLong(b[p], p);
  CHECK(x == 5000000000L + p, "got %ld", x);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a value that does not fit in an int", "GetValueLong returns a truncated value")

seed("nbputs_status", "P25", [("src/strided_nb.c", "      gmr_flush(mreg, proc, 1); /* flush_local */\n      MPI_Free_mem(src_buf);\n    }\n\n    err = 0;", "      gmr_flush(mreg, proc, 1); /* flush_local */\n      MPI_Free_mem(src_buf);\n    }\n\n    err = (src_buf != src_ptr);")], r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 512); ARMCI_Barrier(); int p = (me + 1) % np, s[1] = { 16 }, n[2] = { 8, 2 }; armci_hdl_t h; ARMCI_INIT_HANDLE(&h);
  int e = ARMCI_NbPutS(b[me], s, (char *)b[p] + 256, s, n, 1, p, &h);
  CHECK(e == 0, "status %d", e);
  ARMCI_Wait(&h); ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_STRIDED_METHOD=DIRECT, ARMCI_SHR_BUF_METHOD=COPY and a source in globally accessible memory", "a nonblocking strided put that succeeded reports an error",
  env=dict(ARMCI_STRIDED_METHOD="DIRECT", ARMCI_SHR_BUF_METHOD="COPY"))
