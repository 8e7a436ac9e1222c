/* A legal but lazy MPI: one-sided operations happen as late as the standard lets them.  Source data is read, and results are
 * written, only when something completes the operation; a put or accumulate that is only locally complete reaches the target
 * at the next remote completion. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <mpi.h>
typedef struct { int k, rank, oc, rc, tc, live, snap; const void *o; void *r; MPI_Datatype ot, rt, tt; MPI_Aint disp; MPI_Op op; MPI_Win w; MPI_Request q; int isreq; void *tmp; } lz_t;
static lz_t *lz; static int lzn, lzcap;
static MPI_Datatype lz_dup(MPI_Datatype t) { MPI_Datatype d; PMPI_Type_dup(t, &d); return d; }
static int lz_q(MPI_Aint *d) { (void)d; return 0; }
static int lz_query(void *e, MPI_Status *s) { MPI_Status_set_elements(s, MPI_BYTE, 0); MPI_Status_set_cancelled(s, 0); s->MPI_SOURCE = MPI_UNDEFINED; s->MPI_TAG = MPI_UNDEFINED; return 0; }
static int lz_free(void *e) { return 0; }
static int lz_cancel(void *e, int c) { return 0; }
static lz_t *lz_add(int k, const void *o, int oc, MPI_Datatype ot, void *r, int rc, MPI_Datatype rt, int rank, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) {
  if (lzn == lzcap) { lzcap = lzcap ? 2 * lzcap : 64; lz = realloc(lz, lzcap * sizeof *lz); }
  lz_t *x = &lz[lzn++]; memset(x, 0, sizeof *x);
  x->k = k; x->o = o; x->oc = oc; x->r = r; x->rc = rc; x->rank = rank; x->disp = d; x->tc = tc; x->op = op; x->w = w; x->live = 1;
  x->ot = ot == MPI_DATATYPE_NULL ? ot : lz_dup(ot); x->rt = rt == MPI_DATATYPE_NULL ? rt : lz_dup(rt); x->tt = lz_dup(tt);
  if (k >= 3 && op != MPI_NO_OP) { int b; PMPI_Type_size(ot == MPI_DATATYPE_NULL ? tt : ot, &b); }
  if (q) { x->isreq = 1; PMPI_Grequest_start(lz_query, lz_free, lz_cancel, NULL, q); x->q = *q; }
  return x; }
static void lz_done(lz_t *x) {
  if (x->isreq && x->q != MPI_REQUEST_NULL) { PMPI_Grequest_complete(x->q); x->q = MPI_REQUEST_NULL; }
  if (x->ot != MPI_DATATYPE_NULL) PMPI_Type_free(&x->ot);
  if (x->rt != MPI_DATATYPE_NULL) PMPI_Type_free(&x->rt);
  PMPI_Type_free(&x->tt); x->live = 0; }
static MPI_Datatype lz_base(MPI_Datatype t) { /* accumulates need the predefined type, not its duplicate */
  int a, b, c, comb; PMPI_Type_get_envelope(t, &a, &b, &c, &comb);
  if (comb == MPI_COMBINER_DUP) { MPI_Datatype in; PMPI_Type_get_contents(t, a, b, c, NULL, NULL, &in); return in; }
  return t; }
static void lz_run(lz_t *x) {
  const void *o = x->snap ? x->tmp : x->o;
  switch (x->k) {
    case 0: PMPI_Put(o, x->oc, lz_base(x->ot), x->rank, x->disp, x->tc, lz_base(x->tt), x->w); break;
    case 1: PMPI_Get(x->r, x->rc, lz_base(x->rt), x->rank, x->disp, x->tc, lz_base(x->tt), x->w); break;
    case 2: PMPI_Accumulate(o, x->oc, lz_base(x->ot), x->rank, x->disp, x->tc, lz_base(x->tt), x->op, x->w); break;
    case 3: PMPI_Get_accumulate(o, x->oc, lz_base(x->ot), x->r, x->rc, lz_base(x->rt), x->rank, x->disp, x->tc, lz_base(x->tt), x->op, x->w); break;
    case 4: PMPI_Fetch_and_op(o, x->r, lz_base(x->tt), x->rank, x->disp, x->op, x->w); break;
  }
  PMPI_Win_flush(x->rank, x->w);
  if (x->snap) free(x->tmp);
  lz_done(x); }
static void lz_local(lz_t *x) { /* local completion: only now is the source read; what yields a result happens now */
  MPI_Aint lb, ext; int sz;
  if (x->k != 0 && x->k != 2) { lz_run(x); return; }
  if (x->snap) return;
  PMPI_Type_get_extent(x->ot, &lb, &ext); PMPI_Type_size(x->ot, &sz);
  if (sz != ext || lb) { lz_run(x); return; }
  x->tmp = malloc((size_t)sz * x->oc + 1); memcpy(x->tmp, x->o, (size_t)sz * x->oc); x->snap = 1;
  if (x->isreq && x->q != MPI_REQUEST_NULL) { PMPI_Grequest_complete(x->q); x->q = MPI_REQUEST_NULL; } }
static void lz_comp(int rank, MPI_Win w, int local) { for (int i = 0; i < lzn; i++) if (lz[i].live && lz[i].w == w && (rank < 0 || lz[i].rank == rank)) { if (local) lz_local(&lz[i]); else lz_run(&lz[i]); } }
static void lz_req(MPI_Request q) { for (int i = 0; i < lzn; i++) if (lz[i].live && lz[i].isreq && lz[i].q == q) { lz_local(&lz[i]); return; } }
#define N MPI_DATATYPE_NULL
int MPI_Put(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w) { lz_add(0, o, oc, ot, 0, 0, N, r, d, tc, tt, MPI_OP_NULL, w, 0); return 0; }
int MPI_Get(void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w) { lz_add(1, 0, 0, N, o, oc, ot, r, d, tc, tt, MPI_OP_NULL, w, 0); return 0; }
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w) { lz_add(2, o, oc, ot, 0, 0, N, r, d, tc, tt, op, w, 0); return 0; }
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype ot, void *b, int bc, MPI_Datatype bt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w) { lz_add(3, o, oc, ot, b, bc, bt, r, d, tc, tt, op, w, 0); return 0; }
int MPI_Fetch_and_op(const void *o, void *b, MPI_Datatype t, int r, MPI_Aint d, MPI_Op op, MPI_Win w) { lz_add(4, o, 1, N, b, 1, N, r, d, 1, t, op, w, 0); return 0; }
int MPI_Rput(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q) { lz_add(0, o, oc, ot, 0, 0, N, r, d, tc, tt, MPI_OP_NULL, w, q); return 0; }
int MPI_Rget(void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *q) { lz_add(1, 0, 0, N, o, oc, ot, r, d, tc, tt, MPI_OP_NULL, w, q); return 0; }
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) { lz_add(2, o, oc, ot, 0, 0, N, r, d, tc, tt, op, w, q); return 0; }
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype ot, void *b, int bc, MPI_Datatype bt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op op, MPI_Win w, MPI_Request *q) { lz_add(3, o, oc, ot, b, bc, bt, r, d, tc, tt, op, w, q); return 0; }
#undef N
int MPI_Win_flush(int r, MPI_Win w) { lz_comp(r, w, 0); return PMPI_Win_flush(r, w); }
int MPI_Win_flush_local(int r, MPI_Win w) { lz_comp(r, w, 1); return PMPI_Win_flush_local(r, w); }
int MPI_Win_flush_all(MPI_Win w) { lz_comp(-1, w, 0); return PMPI_Win_flush_all(w); }
int MPI_Win_flush_local_all(MPI_Win w) { lz_comp(-1, w, 1); return PMPI_Win_flush_local_all(w); }
int MPI_Win_unlock(int r, MPI_Win w) { lz_comp(r, w, 0); return PMPI_Win_unlock(r, w); }
int MPI_Win_unlock_all(MPI_Win w) { lz_comp(-1, w, 0); return PMPI_Win_unlock_all(w); }
int MPI_Wait(MPI_Request *q, MPI_Status *s) { lz_req(*q); return PMPI_Wait(q, s); }
int MPI_Waitall(int n, MPI_Request *q, MPI_Status *s) { for (int i = 0; i < n; i++) lz_req(q[i]); return PMPI_Waitall(n, q, s); }
int MPI_Test(MPI_Request *q, int *f, MPI_Status *s) { lz_req(*q); return PMPI_Test(q, f, s); }
int MPI_Testall(int n, MPI_Request *q, int *f, MPI_Status *s) { for (int i = 0; i < n; i++) lz_req(q[i]); return PMPI_Testall(n, q, f, s); }
/* released memory is overwritten, as a reuse of it would */
static struct { void *p; size_t n; } lz_mem[4096]; static int lz_nm;
int MPI_Alloc_mem(MPI_Aint n, MPI_Info i, void *p) { int e = PMPI_Alloc_mem(n, i, p); if (lz_nm < 4096) { lz_mem[lz_nm].p = *(void**)p; lz_mem[lz_nm++].n = n; } return e; }
int MPI_Free_mem(void *p) { /* kept allocated, so that a late access is harmless to the process and visible to the test */
  for (int i = 0; i < lz_nm; i++) if (p && lz_mem[i].p == p) { memset(p, 0x5a, lz_mem[i].n); lz_mem[i].p = 0; return 0; }
  return PMPI_Free_mem(p); }
