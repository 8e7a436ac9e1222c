S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


ABORT = r'''
#include <setjmp.h>
static jmp_buf jb; static int armed;
int MPI_Abort(MPI_Comm c, int e) { if (armed) { armed = 0; longjmp(jb, 1); } return PMPI_Abort(c, e); }
/* 1 if the library rejects the call */
#define REJECTED(call) (setjmp(jb) ? 1 : (armed = 1, (call), armed = 0, 0))
'''

seed("free_leak", "P09", [("src/gmr.c", "  if (ARMCII_GLOBAL_STATE.use_win_allocate == 0) {\n    if (mreg->slices[world_me].base != NULL) {", "  if (ARMCII_GLOBAL_STATE.use_win_allocate == 0) {\n    /* our slice was located by its base address */\n    if (search_base != NULL && mreg->slices[world_me].base == search_base) {")],
r'''
static int live;
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { live++; return PMPI_Alloc_mem(n, i, p); }
int MPI_Free_mem(void *p) { live--; return PMPI_Free_mem(p); }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; int l0 = live; char *pad = malloc(100000 * (me + 1)); ARMCI_Malloc(b, 4096 + 64 * me);
  ARMCI_Barrier(); ARMCI_Free(b[me]);
  CHECK(live == l0, "%d block(s) of allocation memory not released", live - l0); free(pad);
  return down(); }
''', "ARMCI_USE_WIN_ALLOCATE=0 and a process that is not the one whose address the group agreed on", "the memory of an allocation is not released when it is freed",
  env=dict(ARMCI_USE_WIN_ALLOCATE=0))

seed("null_bases", "P09", [("src/gmr.c", "      for (i = 0; i < alloc_nproc; i++) {\n        base_ptrs[i] = NULL;\n      }", "      memset(base_ptrs, 0, alloc_nproc);")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *b[64]; memset(b, 0x11, sizeof b); ARMCI_Malloc(b, 0);
  for (int i = 0; i < np; i++) CHECK(b[i] == NULL, "base of %d is %p", i, b[i]);
  return down(); }
''', "an allocation in which every process asks for zero bytes, with an array that held something else", "the base addresses of an empty allocation are not NULL")

seed("debug_zero", "P09", [("src/gmr.c", "    ARMCII_Bzero(alloc_slices[alloc_me].base, local_size);", "    ARMCII_Bzero(alloc_slices[alloc_me].base, local_size & ~(gmr_size_t) 7);")],
r'''
int MPI_Win_allocate(MPI_Aint n, int u, MPI_Info i, MPI_Comm c, void *p, MPI_Win *w) { int r = PMPI_Win_allocate(n, u, i, c, p, w); memset(*(void **)p, 0x3c, n); return r; }
int main(int c, char **v) { up(&c, &v);
  void *b[64]; ARMCI_Malloc(b, 1003 + me); char *m = b[me];
  for (int i = 0; i < 1003 + me; i++) CHECK(m[i] == 0, "byte %d is %d", i, m[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_DEBUG_ALLOC=1 and a size that is not a multiple of eight", "the last bytes of a debug allocation are not zeroed", env=dict(ARMCI_DEBUG_ALLOC=1))

seed("lookup_end", "P10", [("src/gmr.c", "      if ((uint8_t*) ptr >= base && (uint8_t*) ptr < base + size)\n        break;", "      if ((uint8_t*) ptr >= base && (uint8_t*) ptr <= base + size && size > 0)\n        break;")],
ABORT + r'''
static char arena[65536]; static long at;
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { *(void **)p = arena + at; at += n; return 0; }
int MPI_Free_mem(void *p) { return 0; }
int main(int c, char **v) { up(&c, &v);
  void *a[64], *b[64]; ARMCI_Malloc(a, 4096); ARMCI_Malloc(b, 4096); int p = (me + 1) % np, x = 7 + me;
  int o = REJECTED(ARMCI_Put(&x, b[p], sizeof x, p)); CHECK(!o, "a put to the start of the second allocation is rejected");
  ARMCI_Barrier(); CHECK(o || *(int *)b[me] == 7 + (me + np - 1) % np, "value %d", *(int *)b[me]);
  ARMCI_Barrier(); ARMCI_Free(a[me]); ARMCI_Free(b[me]); return down(); }
''', "two allocations that are adjacent in memory, ARMCI_USE_WIN_ALLOCATE=0", "the first address of an allocation resolves to the one before it", env=dict(ARMCI_USE_WIN_ALLOCATE=0))

seed("free_by_null", "P10", [("src/gmr.c", "    mreg = gmr_lookup(search_base, search_proc_out);", "    mreg = gmr_lookup(search_base, search_proc_out_grp);")],
ABORT + r'''
int main(int c, char **v) { up(&c, &v);
  int pid[2] = { 1, 2 }; ARMCI_Group g, w; ARMCI_Group_get_world(&w); ARMCI_Group_create_child(2, pid, &g, &w);
  if (me > 0) { void *b[64]; int gr; ARMCI_Group_rank(&g, &gr); ARMCI_Malloc_group(b, me == 2 ? 4096 : 0, &g);
    MPI_Barrier(g.comm); int o = REJECTED(ARMCI_Free_group(b[gr], &g)); CHECK(!o, "the free is rejected"); if (o) PMPI_Abort(MPI_COMM_WORLD, 3); ARMCI_Group_free(&g); }
  return down(); }
''', "freeing an allocation of a proper subgroup in which one member has no memory and passes NULL", "the allocation named by the others is not found", np=3)

seed("unlink_back", "P10", [("src/gmr.c", "    if (mreg->next != NULL)\n      mreg->next->prev = mreg->prev;", "    if (mreg->next != NULL && mreg->next->next != NULL)\n      mreg->next->prev = mreg->prev;")],
r'''
int main(int c, char **v) { up(&c, &v);
  void *a[64], *b[64], *d[64], *e[64]; ARMCI_Malloc(a, 64); ARMCI_Malloc(b, 64); ARMCI_Malloc(d, 64);
  ARMCI_Barrier(); ARMCI_Free(b[me]); ARMCI_Free(d[me]); ARMCI_Malloc(e, 64);
  int p = (me + 1) % np, x = 7 + me; ARMCI_Put(&x, e[p], sizeof x, p); ARMCI_Barrier(); CHECK(*(int *)e[me] == 7 + (me + np - 1) % np, "value %d", *(int *)e[me]);
  ARMCI_Barrier(); ARMCI_Free(e[me]); ARMCI_Free(a[me]); return down(); }
''', "three allocations, of which the second and then the third are freed", "the list keeps a link to a freed allocation", env=dict(MALLOC_PERTURB_=165))
