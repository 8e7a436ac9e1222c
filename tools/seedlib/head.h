#include <armci.h>
static int me, np, fails;
#define CHECK(c, ...) do { if (!(c)) { fails++; printf("[%d] FAILED line %d: ", me, __LINE__); printf(__VA_ARGS__); printf("\n"); fflush(stdout); } } while (0)
static void up(int *c, char ***v) { MPI_Init(c, v); ARMCI_Init(); MPI_Comm_rank(MPI_COMM_WORLD, &me); MPI_Comm_size(MPI_COMM_WORLD, &np); }
static int down(void) { int t = 0; MPI_Allreduce(&fails, &t, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD); ARMCI_Finalize(); MPI_Finalize(); if (!me && !t) printf("ok\n"); return t != 0; }
