"""Strided transfers touch exactly the blocks the strides and counts describe."""
import os
import base
from strided import Strided, ENTRIES, PACKED, FLAG, fix
from profiles import pin

EXPLANATION = ("Path-sensitive symbolic analysis of every strided entry point for each number of stride levels up to the bound, with arbitrary strides and positive "
               "counts.  Address lists are judged by induction over the loop that fills them: first tuple, successor tuple, last tuple, and each address must be base plus "
               "the sum of the caller's strides times the tuple.  Datatypes are normalised to a block size and a list of (count, stride) and compared with the description.")
ASSUMPTIONS = ["counts are positive, and for accumulates the block size is a multiple of the element size",
               "MPI derived datatypes describe the bytes the MPI standard says they do",
               "the number of blocks and the size of a staging copy fit in an int"]
RULES = ("enumerated", "handed", "packed", "layout")
OPAQUE = ("gmr_lookup", "gmr_sync", "gmr_flush", "gmr_progress", "ARMCII_Buf_acc_scale")
VEC = ("PARMCI_PutV", "PARMCI_GetV", "PARMCI_AccV", "PARMCI_NbPutV", "PARMCI_NbGetV", "PARMCI_NbAccV")
KW = dict(budget=400000, esp=False, summarize=False, unroll=True, narrow=True, soft=10 ** 6, hard=10 ** 6, limit=10 ** 6)


def run(c):
    c.rule("enumerated", "an address list holds base + strides * index for every index tuple inside the counts, in one order, and nothing else")
    c.rule("handed", "the list is handed on with the caller's block size, number of blocks, process, type, scale and handle, once")
    c.rule("packed", "packing and unpacking move block i of the description from or to position i of the packed copy")
    c.rule("layout", "a datatype used for a side describes that side's strided blocks, or the whole packed copy")
    top = 5 if c.tier == "thorough" else 4
    en = c.m.enums
    sb = sorted(v for k, v in en.items() if k.startswith("ARMCII_SHR_BUF_"))
    acc = sorted(v for k, v in en.items() if k.startswith("ARMCI_ACC_"))
    si, sd = en["ARMCII_STRIDED_IOV"], en["ARMCII_STRIDED_DIRECT"]
    mon = lambda t: (lambda e: [Strided(t[e])])
    res = []
    dt = top - 1
    # address lists, handed on
    sink = tuple(base.request_sink(c.m))
    kw = dict(KW, opaque=sink + OPAQUE + VEC + ("armci_write_strided", "armci_read_strided"))
    res += c.explore(list(ENTRIES), mon(ENTRIES), setup=lambda e: [fix(L, pin(strided_method=si)) for L in range(top + 1)], kw=kw)
    # datatypes

    def direct(e):
        if ENTRIES[e].kind != "acc":
            return [fix(L, pin(strided_method=sd, shr_buf_method=b)) for L in range(dt + 1) for b in sb]
        return [fix(L, pin(strided_method=sd, shr_buf_method=b), datatype=t) for L in range(dt) for b in sb for t in acc]
    res += c.explore(list(ENTRIES), mon(ENTRIES), setup=direct, kw=kw)
    res += c.explore(list(PACKED), mon(PACKED), setup=lambda e: [fix(L) for L in range(top + 1)], kw=dict(KW, opaque=OPAQUE))
    res += c.explore(list(FLAG), mon(FLAG), setup=lambda e: [fix(2)], kw=dict(KW, opaque=OPAQUE + VEC + ("PARMCI_PutS", "PARMCI_NbPutS", "PARMCI_Fence")))
    for r in res:
        if os.environ.get("VP_DEBUG"):
            print(r["entry"], r["label"], r["steps"], "%.1f" % r["t"])
        x = r["extra"]["sx"]
        for s in x["enum"]:
            c.inst("enumerated", r["entry"] + " " + s)
        for s in x["hand"]:
            c.inst("handed", s + " " + r["label"])
        for s in x["pack"]:
            c.inst("packed", r["entry"] + " " + s)
        for s in x["lay"]:
            c.inst("layout", r["entry"] + " " + s)
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    c.floor("enumerated", 20)
    c.floor("handed", 12)
    c.floor("packed", 6)
    c.floor("layout", 20)
