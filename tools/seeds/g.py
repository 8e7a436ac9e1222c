S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


seed("dup_skip", "P15", [("src/init_finalize.c", "  MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);\n", "  if (comm == MPI_COMM_WORLD)\n    MPI_Comm_dup(comm, &ARMCI_GROUP_WORLD.comm);\n  else\n    ARMCI_GROUP_WORLD.comm = comm; /* already private to the caller */\n")], r'''
#include <mpi.h>
int main(int c, char **v) { MPI_Comm s; int n = -1, a = 1, r;
  MPI_Init(&c, &v); MPI_Comm_rank(MPI_COMM_WORLD, &me);
  MPI_Comm_split(MPI_COMM_WORLD, me % 2, me, &s); MPI_Comm_rank(s, &r);
  ARMCI_Init_mpi_comm(s); ARMCI_Barrier(); ARMCI_Finalize();
  MPI_Comm_set_errhandler(MPI_COMM_WORLD, MPI_ERRORS_RETURN);
  int rc = MPI_Allreduce(&a, &n, 1, MPI_INT, MPI_SUM, s);
  CHECK(rc == MPI_SUCCESS && n == 2, "the caller's communicator does not work after finalisation: %d", n);
  MPI_Finalize(); return fails != 0; }
''', "initialisation over a communicator other than the world, used again after finalisation", "the caller's communicator is used for the library's messages and freed with the library", np=4)

seed("progress_unasked", "P15", [("src/init_finalize.c", "        if(ARMCII_GLOBAL_STATE.progress_thread) {\n            progress_active = 1;", "        if(ARMCII_GLOBAL_STATE.progress_thread || ARMCII_GLOBAL_STATE.progress_usleep > 0) {\n            progress_active = 1;")], r'''
#include <dirent.h>
static int threads(void) { DIR *d = opendir("/proc/self/task"); int n = 0; while (readdir(d)) n++; closedir(d); return n; }
int main(int c, char **v) { MPI_Init(&c, &v); MPI_Comm_rank(MPI_COMM_WORLD, &me);
  int b = threads(); ARMCI_Init(); int a = threads();
  CHECK(a == b, "%d threads started although no progress thread was asked for", a - b);
  ARMCI_Barrier(); ARMCI_Finalize(); MPI_Finalize(); return fails != 0; }
''', "a pause set for the progress thread while the progress thread itself is off", "a thread that calls MPI is started where MPI does not allow threads, and never joined", env={"ARMCI_PROGRESS_USLEEP": "100"})

seed("world_first", "P15", [("src/init_finalize.c", "  nfreed = gmr_destroy_all();\n\n", "  nfreed = (gmr_list != NULL) && gmr_list->next ? gmr_destroy_all() : 0;\n\n")], r'''
#include <armci_internals.h>
#include <gmr.h>
static int freed;
int MPI_Win_free(MPI_Win *w) { freed++; return PMPI_Win_free(w); }
int main(int c, char **v) { up(&c, &v); void *b[64];
  ARMCI_Malloc(b, 64); ARMCI_Barrier(); ARMCI_Finalize();
  CHECK(freed == 1, "%d windows freed by finalisation, one allocation was left", freed);
  CHECK(gmr_list == NULL, "an allocation outlives the library");
  MPI_Finalize(); return fails != 0; }
''', "exactly one allocation left at finalisation", "the allocation is not ended and the communicator it works over is given up")

seed("thread_strict", "P15", [("src/init_finalize.c", "    if (mpi_thread_level<armci_requested) {\n", "    if (mpi_thread_level<armci_requested && mpi_thread_level<MPI_THREAD_SERIALIZED) {\n")], r'''
#include <stdlib.h>
int MPI_Query_thread(int *p) { *p = MPI_THREAD_SERIALIZED; return MPI_SUCCESS; }
int MPI_Abort(MPI_Comm c, int e) { PMPI_Finalize(); _exit(0); }
int main(int c, char **v) { MPI_Init(&c, &v); MPI_Comm_rank(MPI_COMM_WORLD, &me);
  ARMCI_Init_thread(MPI_THREAD_MULTIPLE);
  CHECK(0, "initialised for concurrent threads although MPI serialises them");
  ARMCI_Finalize(); MPI_Finalize(); return fails != 0; }
''', "a program that asks for concurrent threads from an MPI library that only serialises them", "the library comes up and its threads call MPI concurrently")

TH = r'''
#define _GNU_SOURCE
#include <pthread.h>
#include <dlfcn.h>
static void hook(pthread_mutex_t *m);
static int (*real)(pthread_mutex_t *);
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!real) real = dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = real(m); hook(m); return r; }
static void upt(int *c, char ***v) { int p; MPI_Init_thread(c, v, MPI_THREAD_MULTIPLE, &p); if (p < MPI_THREAD_MULTIPLE) { MPI_Finalize(); _exit(0); }
  ARMCI_Init_thread(MPI_THREAD_MULTIPLE); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); }
'''
RD = {"OMPI_MCA_osc": "sm,rdma"}
seed("link_late", "P16", [("src/gmr.c", "    parent->next = mreg;\n    mreg->prev   = parent;\n  }\n", "    parent->next = mreg;\n  }\n"),
                          ("src/gmr.c", "#ifdef HAVE_PTHREADS\n  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {\n    int ptrc = pthread_mutex_unlock(&gmr_list_mutex);\n    ARMCII_Assert(ptrc == 0);\n  }\n#endif\n\n  return mreg;",
                           "#ifdef HAVE_PTHREADS\n  if (ARMCII_GLOBAL_STATE.thread_level == MPI_THREAD_MULTIPLE) {\n    int ptrc = pthread_mutex_unlock(&gmr_list_mutex);\n    ARMCII_Assert(ptrc == 0);\n  }\n#endif\n\n  for (gmr_t *p = gmr_list; p != mreg; p = p->next)\n    mreg->prev = p;\n\n  return mreg;")], TH + r'''
#include <armci_internals.h>
#include <gmr.h>
static int on;
static void hook(pthread_mutex_t *m) { if (on) for (gmr_t *r = gmr_list; r; r = r->next)
  if (r->next && r->next->prev != r) { on = 0; CHECK(0, "the list of allocations is open to other threads in an inconsistent state"); return; } }
int main(int c, char **v) { void *a[64], *b[64], *d[64]; upt(&c, &v); on = 1;
  ARMCI_Malloc(a, 64); ARMCI_Malloc(b, 64); ARMCI_Malloc(d, 64); ARMCI_Free(b[me]); ARMCI_Free(a[me]); ARMCI_Free(d[me]); return down(); }
''', "two threads that allocate and free at the same time", "an allocation is linked into the shared list without the lock", env=RD)

seed("hdl_late", "P16", [("src/mutex.c", "  armci_mutex_hdl = NULL;\n\n", "\n"), ("src/mutex.c", "  return err;\n", "  armci_mutex_hdl = NULL;\n\n  return err;\n")], TH + r'''
static int on; static void *cr(void *x) { ARMCI_Create_mutexes(1); return 0; }
static void hook(pthread_mutex_t *m) { if (on) { on = 0; pthread_t t; pthread_create(&t, 0, cr, 0); pthread_join(t, 0); on = 0; } }
static int aborted;
int MPI_Win_free(MPI_Win *w) { int r = PMPI_Win_free(w); on = 1; return r; }
int MPI_Comm_free(MPI_Comm *w) { int o = on; on = 0; int r = PMPI_Comm_free(w); on = o; return r; }
int MPI_Group_free(MPI_Group *w) { int o = on; on = 0; int r = PMPI_Group_free(w); on = o; return r; }
int MPI_Free_mem(void *w) { int o = on; on = 0; int r = PMPI_Free_mem(w); on = o; return r; }
int main(int c, char **v) { upt(&c, &v);
  ARMCI_Create_mutexes(1); ARMCI_Destroy_mutexes(); on = 0;
  ARMCI_Lock(0, 0); ARMCI_Unlock(0, 0);
  return down(); }
''', "a thread that creates mutexes as soon as another has destroyed the previous ones", "the new mutexes are forgotten", env=RD)
