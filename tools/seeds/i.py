S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


B, V = "src/buffer.c", "src/vector.c"

seed("vec_back", "P21", [(B, """      if (orig_bufs[i] != new_bufs[i]) {
        gmr_t *mreg = gmr_lookup(orig_bufs[i], ARMCI_GROUP_WORLD.rank);
        ARMCII_Assert(mreg != NULL);

        ARMCI_Copy(new_bufs[i], orig_bufs[i], size);
""", """      /* the segments of a descriptor are all private or all shared */
      if (orig_bufs[i] == new_bufs[i]) break;
      else {
        gmr_t *mreg = gmr_lookup(orig_bufs[i], ARMCI_GROUP_WORLD.rank);
        ARMCII_Assert(mreg != NULL);

        ARMCI_Copy(new_bufs[i], orig_bufs[i], size);
""")], r'''
int main(int c, char **v) { up(&c, &v); void *b[64], *s[4], *d[4]; int i, j, t = (me + 1) % np; unsigned char *own = malloc(64);
  ARMCI_Malloc(b, 4096); unsigned char *m = b[me];
  for (i = 0; i < 64; i++) m[i] = i;
  memset(m + 1024, 0xEE, 64); memset(own, 0xEE, 64); ARMCI_Barrier();
  for (i = 0; i < 4; i++) { s[i] = (char *)b[t] + 8 * i; d[i] = i == 1 ? (void *)own : (void *)(m + 1024 + 8 * i); }
  armci_giov_t g = {s, d, 8, 4};
  ARMCI_GetV(&g, 1, t);
  for (i = 0; i < 4; i++) for (j = 0; j < 8; j++) CHECK(((unsigned char *)d[i])[j] == 8 * i + j, "segment %d byte %d: %x", i, j, ((unsigned char *)d[i])[j]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY and a vector get whose destinations are partly in globally accessible memory, a private one before a shared one",
     "the segments behind the first private one are never copied to the caller", env={"ARMCI_SHR_BUF_METHOD": "COPY"})

seed("vec_chunk", "P21", [(V, "    for (int start = 0; start < count; start += chunk) {", "    for (int start = 0; start + chunk <= count; start += chunk) {")], r'''
int main(int c, char **v) { up(&c, &v); void *b[64], *s[7], *d[7]; int i, j, t = (me + 1) % np; unsigned char own[56];
  ARMCI_Malloc(b, 4096); unsigned char *m = b[me];
  for (i = 0; i < 56; i++) own[i] = i;
  memset(m, 0xEE, 4096); ARMCI_Barrier();
  for (i = 0; i < 7; i++) { s[i] = own + 8 * i; d[i] = (char *)b[t] + 24 * i; }
  armci_giov_t g = {s, d, 8, 7};
  ARMCI_PutV(&g, 1, t); ARMCI_Barrier();
  for (i = 0; i < 7; i++) for (j = 0; j < 24; j++) CHECK(m[24 * i + j] == (j < 8 ? 8 * i + j : 0xEE), "segment %d byte %d: %x", i, j, m[24 * i + j]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_IOV_METHOD=DIRECT with ARMCI_IOV_DTYPE_CHUNK set to a number that does not divide the number of segments",
     "the segments of the last, shorter, group are not transferred", env={"ARMCI_IOV_METHOD": "DIRECT", "ARMCI_IOV_DTYPE_CHUNK": "3"})

seed("vec_empty", "P21", [("src/vector_nb.c", "    if (iov[v].ptr_array_len == 0) continue; // NOP //", "    if (iov[v].ptr_array_len == 0) break; // NOP //", 2)], r'''
int main(int c, char **v) { up(&c, &v); void *b[64], *s[2], *d[2]; int i, t = (me + 1) % np; unsigned char own[16]; armci_hdl_t h;
  ARMCI_Malloc(b, 4096); unsigned char *m = b[me];
  for (i = 0; i < 4096; i++) m[i] = i;
  memset(own, 0xEE, 16); ARMCI_Barrier(); ARMCI_INIT_HANDLE(&h);
  s[0] = b[t]; d[0] = own; s[1] = (char *)b[t] + 32; d[1] = own + 8;
  armci_giov_t g[3] = {{s, d, 8, 1}, {s, d, 8, 0}, {s + 1, d + 1, 8, 1}};
  ARMCI_NbGetV(g, 3, t, &h); ARMCI_Wait(&h);
  for (i = 0; i < 16; i++) CHECK(own[i] == (i < 8 ? i : 24 + i), "byte %d: %x", i, own[i]);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "a nonblocking vector get with several descriptors, an empty one before others", "the descriptors after an empty one are skipped")

seed("same_last", "P22", [(V, "    for (i = 1; i < count; i++)\n      if ( !(ptrs[i] >= base", "    for (i = 1; i < count-1; i++)\n      if ( !(ptrs[i] >= base")], r'''
int main(int c, char **v) { up(&c, &v); void *a[64], *b[64], *s[3], *d[3]; int i, t = (me + 1) % np; unsigned char own[24];
  ARMCI_Malloc(a, 4096); ARMCI_Malloc(b, 4096);
  for (i = 0; i < 24; i++) own[i] = i;
  memset(a[me], 0xEE, 4096); memset(b[me], 0xEE, 4096); ARMCI_Barrier();
  for (i = 0; i < 3; i++) { s[i] = own + 8 * i; d[i] = (char *)(i < 2 ? a : b)[t] + 8 * i; }
  armci_giov_t g = {s, d, 8, 3};
  ARMCI_PutV(&g, 1, t); ARMCI_Barrier();
  for (i = 0; i < 24; i++) CHECK(((unsigned char *)(i < 16 ? a : b)[me])[i] == i, "byte %d", i);
  ARMCI_Barrier(); ARMCI_Free(b[me]); ARMCI_Free(a[me]); return down(); }
''', "ARMCI_IOV_CHECKS=1 and a vector put of which only the last segment lies in another allocation",
     "the last segment is sent through the window of the first one's allocation", env={"ARMCI_IOV_CHECKS": "1"})

CNT = r'''
static int out, most;
static void one(void) { if (++out > most) most = out; }
int MPI_Put(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w) { one(); return PMPI_Put(o, oc, ot, r, d, tc, tt, w); }
int MPI_Get(void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w) { one(); return PMPI_Get(o, oc, ot, r, d, tc, tt, w); }
int MPI_Accumulate(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op p, MPI_Win w) { one(); return PMPI_Accumulate(o, oc, ot, r, d, tc, tt, p, w); }
int MPI_Get_accumulate(const void *o, int oc, MPI_Datatype ot, void *q, int qc, MPI_Datatype qt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op p, MPI_Win w) { one(); return PMPI_Get_accumulate(o, oc, ot, q, qc, qt, r, d, tc, tt, p, w); }
int MPI_Rput(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *x) { one(); return PMPI_Rput(o, oc, ot, r, d, tc, tt, w, x); }
int MPI_Rget(void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Win w, MPI_Request *x) { one(); return PMPI_Rget(o, oc, ot, r, d, tc, tt, w, x); }
int MPI_Raccumulate(const void *o, int oc, MPI_Datatype ot, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op p, MPI_Win w, MPI_Request *x) { one(); return PMPI_Raccumulate(o, oc, ot, r, d, tc, tt, p, w, x); }
int MPI_Rget_accumulate(const void *o, int oc, MPI_Datatype ot, void *q, int qc, MPI_Datatype qt, int r, MPI_Aint d, int tc, MPI_Datatype tt, MPI_Op p, MPI_Win w, MPI_Request *x) { one(); return PMPI_Rget_accumulate(o, oc, ot, q, qc, qt, r, d, tc, tt, p, w, x); }
int MPI_Win_flush(int r, MPI_Win w) { out = 0; return PMPI_Win_flush(r, w); }
int MPI_Win_flush_all(MPI_Win w) { out = 0; return PMPI_Win_flush_all(w); }
int MPI_Win_flush_local(int r, MPI_Win w) { out = 0; return PMPI_Win_flush_local(r, w); }
int MPI_Win_flush_local_all(MPI_Win w) { out = 0; return PMPI_Win_flush_local_all(w); }
'''

seed("lap_nb", "P22", [(V, "  if (overlapping || !same_alloc || ARMCII_GLOBAL_STATE.iov_method == ARMCII_IOV_CONSRV) {\n    if (overlapping) ARMCII_W",
                        "  if ((overlapping && blocking) || !same_alloc || ARMCII_GLOBAL_STATE.iov_method == ARMCII_IOV_CONSRV) {\n    if (overlapping) ARMCII_W")], CNT + r'''
int main(int c, char **v) { up(&c, &v); void *b[64], *s[3], *d[3]; int i, t = (me + 1) % np; unsigned char own[24]; armci_hdl_t h;
  ARMCI_Malloc(b, 4096); memset(b[me], 0xEE, 4096); ARMCI_Barrier(); ARMCI_INIT_HANDLE(&h);
  for (i = 0; i < 24; i++) own[i] = i;
  for (i = 0; i < 3; i++) { s[i] = own + 8 * i; d[i] = (char *)b[t] + 4 * i; }
  armci_giov_t g = {s, d, 8, 3};
  most = out = 0; ARMCI_NbPutV(&g, 1, t, &h); ARMCI_Wait(&h);
  CHECK(most <= 1, "%d overlapping segments in flight at once", most);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_IOV_CHECKS=1 and a nonblocking vector put with overlapping destinations",
     "the overlapping segments are in flight at once, so that which of them survives is undefined", env={"ARMCI_IOV_CHECKS": "1"})

seed("lap_get", "P22", [(V, "    if ( blocking && i > 0 &&\n        ( consrv ||\n", "    if ( blocking && i > 0 &&\n        ( (consrv && op != ARMCII_OP_GET) ||\n")], CNT + r'''
int main(int c, char **v) { up(&c, &v); void *b[64], *s[3], *d[3]; int i, t = (me + 1) % np; unsigned char own[24];
  ARMCI_Malloc(b, 4096); memset(b[me], 0xEE, 4096); ARMCI_Barrier();
  for (i = 0; i < 3; i++) { d[i] = own + 4 * i; s[i] = (char *)b[t] + 16 * i; }
  armci_giov_t g = {s, d, 8, 3};
  most = out = 0; ARMCI_GetV(&g, 1, t);
  CHECK(most <= 1, "%d overlapping segments in flight at once", most);
  ARMCI_Barrier(); ARMCI_Free(b[me]); return down(); }
''', "ARMCI_IOV_CHECKS=1 and a vector get with overlapping destinations",
     "several reads into the same bytes are in flight at once", env={"ARMCI_IOV_CHECKS": "1"})
