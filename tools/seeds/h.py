S = []


def seed(id, prop, edits, demo, needs, breaks, **k):
    S.append(dict(id=id, prop=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **k))


ST = "src/strided.c"
W = """  for (i = 0; i < iov.ptr_array_len; i++)
    ARMCI_Copy(iov.src_ptr_array[i], dst + i*count[0], iov.bytes);
"""
seed("pack_walk", "P23", [(ST, W, """  for (i = 0; i < iov.ptr_array_len; i++) {
    ARMCI_Copy(iov.src_ptr_array[i], dst, iov.bytes);
    dst += (count[0] + 3) & ~3; /* keep the blocks aligned */
  }
""")], r'''
#include <string.h>
int main(int c, char **v) { up(&c, &v); void *b[64]; int i, j, cnt[2] = {8, 4}, s[1] = {16}, d[1] = {16};
  ARMCI_Malloc(b, 4096); unsigned char *m = b[me], *q = m + 1024; memset(m, 0xEE, 4096);
  for (int w = 8; w >= 5; w -= 3) { cnt[0] = w;
    for (i = 0; i < 64; i++) q[i] = i + w;
    memset(m, 0xEE, 64); ARMCI_Barrier();
    ARMCI_PutS(q, s, b[(me + 1) % np], d, cnt, 1, (me + 1) % np); ARMCI_Barrier();
    for (i = 0; i < 4; i++) for (j = 0; j < 16; j++)
      CHECK(m[16 * i + j] == (j < w ? (unsigned char)(16 * i + j + w) : 0xEE), "block %d byte %d of blocks of %d: %x", i, j, w, m[16 * i + j]);
    ARMCI_Barrier(); }
  ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY, ARMCI_STRIDED_METHOD=DIRECT, a source in globally accessible memory and blocks that are not a multiple of 4 bytes",
     "all blocks but the first are sent from the wrong place, and the staging buffer is overrun", env={"ARMCI_SHR_BUF_METHOD": "COPY", "ARMCI_STRIDED_METHOD": "DIRECT"})

seed("unpack_far", "P23", [(ST, "      armci_read_strided(dst_ptr, stride_levels, dst_stride_ar, count, dst_buf);\n      MPI_Free_mem(dst_buf);",
                            "      armci_read_strided(dst_ptr, stride_levels, src_stride_ar, count, dst_buf);\n      MPI_Free_mem(dst_buf);")], r'''
#include <string.h>
int main(int c, char **v) { up(&c, &v); void *b[64]; int i, j, cnt[2] = {8, 4}, s[1] = {16}, d[1] = {24};
  ARMCI_Malloc(b, 4096); unsigned char *m = b[me], *q = m + 1024;
  for (i = 0; i < 64; i++) m[i] = i;
  memset(q, 0xEE, 256); ARMCI_Barrier();
  ARMCI_GetS(b[(me + 1) % np], s, q, d, cnt, 1, (me + 1) % np); ARMCI_Barrier();
  for (i = 0; i < 4; i++) for (j = 0; j < 24; j++)
    CHECK(q[24 * i + j] == (j < 8 ? 16 * i + j : 0xEE), "block %d byte %d: %x", i, j, q[24 * i + j]);
  ARMCI_Free(b[me]); return down(); }
''', "ARMCI_SHR_BUF_METHOD=COPY, ARMCI_STRIDED_METHOD=DIRECT, a destination in globally accessible memory whose strides differ from the source's",
     "the blocks read land at the wrong addresses", env={"ARMCI_SHR_BUF_METHOD": "COPY", "ARMCI_STRIDED_METHOD": "DIRECT"})

seed("mid_one", "P23", [(ST, "  for (i = stride_levels+1; (i > 0) && (stride_levels > 0) && (count[i-1] == 1); i--)\n    stride_levels--;\n",
                         "  for (i = stride_levels; i > 0; i--)\n    if (count[i] == 1 && (i < 2 || count[i-1] > 1))\n      stride_levels = i-1;\n")], r'''
#include <string.h>
int main(int c, char **v) { up(&c, &v); void *b[64]; int i, j, cnt[3] = {8, 1, 4}, s[2] = {8, 16}; unsigned char q[64];
  ARMCI_Malloc(b, 4096); unsigned char *m = b[me]; memset(m, 0xEE, 4096);
  for (i = 0; i < 64; i++) q[i] = i;
  ARMCI_Barrier();
  ARMCI_PutS(q, s, b[(me + 1) % np], s, cnt, 2, (me + 1) % np); ARMCI_Barrier();
  for (i = 0; i < 4; i++) for (j = 0; j < 16; j++)
    CHECK(m[16 * i + j] == (j < 8 ? 16 * i + j : 0xEE), "block %d byte %d: %x", i, j, m[16 * i + j]);
  ARMCI_Free(b[me]); return down(); }
''', "ARMCI_STRIDED_METHOD=DIRECT and a description with a count of 1 below a larger one", "only the first blocks are transferred", env={"ARMCI_STRIDED_METHOD": "DIRECT"})
