S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


ABORT = r'''
#include <setjmp.h>
static jmp_buf jb; static int armed;
int MPI_Abort(MPI_Comm c, int e) { if (armed) { armed = 0; longjmp(jb, 1); } return PMPI_Abort(c, e); }
/* 1 if the library rejects the call */
#define REJECTED(call) (setjmp(jb) ? 1 : (armed = 1, (call), armed = 0, 0))
'''

seed("same_size", "P14", [("src/internals.c", "  if (group->comm == ARMCI_GROUP_WORLD.comm) {\n    group_rank = world_rank;", "  if (group->size == ARMCI_GROUP_WORLD.size) { /* everybody is a member */\n    group_rank = world_rank;")],
r'''
int main(int c, char **v) { up(&c, &v);
  ARMCI_Group w, g; ARMCI_Group_get_world(&w); ARMCIX_Group_split(&w, 0, np - me, &g);
  void *b[64]; ARMCI_Malloc_group(b, 4096, &g); int gr; ARMCI_Group_rank(&g, &gr);
  int *mine = b[gr]; mine[0] = -1; ARMCI_Barrier();
  int p = (me + 1) % np, pg = np - 1 - p, x = 70 + me; ARMCI_Put(&x, b[pg], sizeof x, p); ARMCI_Barrier();
  CHECK(mine[0] == 70 + (me + np - 1) % np, "process %d has %d", me, mine[0]);
  ARMCI_Barrier(); ARMCI_Free_group(b[gr], &g); ARMCI_Group_free(&g); return down(); }
''', "an allocation on a group that holds every process in another order", "data goes to another process", np=3)

seed("rmw_slice", "P14", [("src/gmr.c", "  disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[proc].base);\n\n  // Perform checks\n  MPI_Type_get_true_extent(type", "  disp = (gmr_size_t) ((uint8_t*)dst - (uint8_t*)mreg->slices[grp_proc].base);\n\n  // Perform checks\n  MPI_Type_get_true_extent(type")],
ABORT + r'''
int main(int c, char **v) { up(&c, &v);
  int pid[2] = { 1, 2 }; ARMCI_Group g; ARMCI_Group w; ARMCI_Group_get_world(&w);
  ARMCI_Group_create_child(2, pid, &g, &w);
  if (me > 0) { void *b[64]; ARMCI_Malloc_group(b, 4096, &g); int gr; ARMCI_Group_rank(&g, &gr); long *m = b[gr]; m[0] = 5; MPI_Barrier(g.comm);
    long r = -1; int o = REJECTED(ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &r, b[1 - gr], 3, 3 - me)); CHECK(!o && r == 5, "fetched %ld%s", r, o ? " (rejected)" : "");
    MPI_Barrier(g.comm); CHECK(m[0] == 8, "now %ld", m[0]); MPI_Barrier(g.comm); if (fails) MPI_Abort(MPI_COMM_WORLD, 3); ARMCI_Free_group(b[gr], &g); }
  return down(); }
''', "a read-modify-write on an allocation of a proper subgroup whose ranks differ from the absolute ones", "the displacement is taken from another process's slice", np=3)

seed("absid_member", "P14", [("src/groups.c", "    world_rank = group->grp_to_abs[group_rank];", "    world_rank = group->rank == group_rank ? ARMCI_GROUP_WORLD.rank : group->grp_to_abs[group->abs_to_grp[group_rank] < 0 ? group_rank : group->abs_to_grp[group_rank]];")],
r'''
int main(int c, char **v) { up(&c, &v);
  int pid[3] = { 3, 1, 0 }; ARMCI_Group g; ARMCI_Group w; ARMCI_Group_get_world(&w);
  ARMCI_Group_create_child(3, pid, &g, &w);
  if (me != 2) for (int i = 0; i < 3; i++) { int a = ARMCI_Absolute_id(&g, i); CHECK(a == pid[i], "member %d is %d not %d", i, a, pid[i]); }
  return down(); }
''', "a group whose order is not the absolute order", "the absolute id of a group member names another process", np=4)

seed("get_extent", "P08", [("src/gmr.c", "  MPI_Type_get_true_extent(src_type, &lb, &extent);", "  MPI_Type_get_true_extent(dst_type, &lb, &extent);")],
ABORT + r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 4096); int p = (me + 1) % np; memset(b[me], 1, 4096); ARMCI_Barrier();
  char buf[512]; int ss[1] = { 1024 }, ds[1] = { 64 }, n[2] = { 64, 4 };
  CHECK(!REJECTED(ARMCI_GetS(b[p], ss, buf, ds, n, 1, p)), "a get inside the allocation is rejected");
  ARMCI_Barrier();
  n[1] = 5; CHECK(REJECTED(ARMCI_GetS(b[p], ss, buf, ds, n, 1, p)), "a get beyond the end of the allocation is accepted");
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_STRIDED_METHOD=DIRECT and a strided get whose remote strides are larger than the local ones and run past the end", "an out-of-range get is issued to MPI",
  env=dict(ARMCI_STRIDED_METHOD="DIRECT"))

seed("acc_own_size", "P08", [("src/gmr.c", '  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[proc].size, "Transfer is out of range");', '  ARMCII_Assert_msg(disp + dst_count*extent <= mreg->slices[ARMCI_GROUP_WORLD.rank].size, "Transfer is out of range");', 2)],
ABORT + r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, me ? 64 : 4096); memset(b[me], 0, 64); ARMCI_Barrier();
  static double x[16]; double one = 1;
  if (me == 0) CHECK(REJECTED(ARMCI_Acc(ARMCI_ACC_DBL, &one, x, b[1], sizeof x, 1)), "an accumulate beyond the end of process 1's slice is accepted");
  if (me == 1) CHECK(!REJECTED(ARMCI_Acc(ARMCI_ACC_DBL, &one, x, b[0], sizeof x, 0)), "an accumulate inside process 0's slice is rejected");
  if (fails) PMPI_Abort(MPI_COMM_WORLD, 3);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "an allocation with different sizes per process and an accumulate past the end of the smaller one", "an out-of-range accumulate is issued to MPI")
