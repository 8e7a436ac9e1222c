S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


seed("mutex_far", "P13", [("src/mutex_hdl_queue.c", "  for (i = already_locked = 0; i < nproc; i++)\n", "  for (i = already_locked = 0; i < (int) (sizeof(uint64_t)/sizeof(uint8_t)) && i < nproc; i++)\n")], r'''
#include <unistd.h>
int main(int c, char **v) { up(&c, &v);
  ARMCI_Create_mutexes(1); int one = 1, f = 0;
  if (me == 8) ARMCI_Lock(0, 0);
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 8) { usleep(500000); MPI_Send(&one, 1, MPI_INT, 3, 5, MPI_COMM_WORLD); usleep(100000); ARMCI_Unlock(0, 0); }
  if (me == 3) { ARMCI_Lock(0, 0); MPI_Iprobe(8, 5, MPI_COMM_WORLD, &f, MPI_STATUS_IGNORE);
    CHECK(f, "process 3 has the mutex while process 8 holds it"); MPI_Recv(&one, 1, MPI_INT, 8, 5, MPI_COMM_WORLD, MPI_STATUS_IGNORE); usleep(500000); ARMCI_Unlock(0, 0); }
  MPI_Barrier(MPI_COMM_WORLD); ARMCI_Destroy_mutexes(); return down(); }
''', "a mutex held by a process whose rank in the group is 8 or more", "two processes hold the mutex at once", np=9)

seed("mutex_order", "P13", [("src/mutex_hdl_queue.c", """  for (i = 1; i < nproc; i++) {
    int p = (rank + i) % nproc;
    if (buf[p] == 1) {""", """  for (i = 0; i < nproc; i++) {
    int p = (proc + i) % nproc;
    if (buf[p] == 1) {""")], r'''
#include <unistd.h>
int main(int c, char **v) { up(&c, &v);
  ARMCI_Create_mutexes(1); void *b[64]; ARMCI_Malloc(b, 8); int *x = b[me]; x[0] = 0; int one = 1, old = 0;
  if (me == 1) ARMCI_Lock(0, 0);
  MPI_Barrier(MPI_COMM_WORLD);
  if (me == 1) { sleep(1); ARMCI_Unlock(0, 0); }
  else { ARMCI_Lock(0, 0); MPI_Status st; int got = 0;
    if (me == 2) MPI_Send(&one, 1, MPI_INT, 0, 7, MPI_COMM_WORLD);
    else { usleep(300000); MPI_Iprobe(2, 7, MPI_COMM_WORLD, &got, &st); CHECK(got, "process 0 was served before process 2, which is next after process 1");
      MPI_Recv(&one, 1, MPI_INT, 2, 7, MPI_COMM_WORLD, &st); }
    if (me == 2 || got) ARMCI_Unlock(0, 0); }
  (void) old; MPI_Barrier(MPI_COMM_WORLD); ARMCI_Free(b[me]); ARMCI_Destroy_mutexes(); return down(); }
''', "two processes waiting for a mutex that is released by a process ranked between them", "the process nearest the home is always served first, so another waits for ever under contention", np=3)

seed("mutex_dirty", "P13", [("src/mutex_hdl_queue.c", "      ARMCII_Bzero(hdl->bases[i], nproc);\n", "      ARMCII_Bzero(hdl->bases[i], my_count);\n")], r'''
#include <string.h>
#include <unistd.h>
#include <signal.h>
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { int r = PMPI_Alloc_mem(n, i, p); if (r == MPI_SUCCESS) memset(*(void **) p, 1, n); return r; }
int main(int c, char **v) { up(&c, &v);
  ARMCI_Create_mutexes(1); alarm(20);
  if (me == 0) { ARMCI_Lock(0, 0); ARMCI_Unlock(0, 0); }
  MPI_Barrier(MPI_COMM_WORLD); ARMCI_Destroy_mutexes(); return down(); }
''', "memory from the MPI allocator that was used before, and more processes than mutexes", "a new mutex is taken to be held by somebody, and locking it never returns", np=3)
