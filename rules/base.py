"""Shared set-up of the explorations over the one-sided entry points."""
from profiles import pin, combos, gs_field
from entries import *

STRIDED = [e for e in PUTS + GETS + ACCS + NB if e.endswith("S") or e.endswith("S_flag")]
VECTOR = [e for e in PUTS + GETS + ACCS + NB if e.endswith("V")]
FIELD_LO = {("%struct.armci_giov_t", "ptr_array_len"): 0, ("%struct.armci_giov_t", "bytes"): 0}
KW = dict(budget=120000, fold=True, fold_names=("ARMCII_Acc_type_translate",), soft=16, hard=64, limit=100, field_lo=FIELD_LO)


def kw(m, **more):
    d = dict(KW)
    op = request_sink(m)
    if op:
        d["opaque"] = tuple(op)
    d.update(more)
    return d


def request_sink(m):
    """the functions that append a request to a handle: internal, two parameters, they store into the
    handle's request fields and make no MPI call"""
    ts = {x for x in m.fields if "single_request" in m.fields[x] and "request_array" in m.fields[x]}
    out = []
    for f in m.funcs.values():
        if len(f.params) != 2 or f.name.startswith("PARMCI_") or f.name.startswith("ARMCI_"):
            continue
        st = any(i.op == "gep" and i.extra in ts for i in f.instrs())
        mpi = any(i.op == "call" and i.extra[0][0] == "g" and m.resolve(i.extra[0][1]).startswith("MPI_") for i in f.instrs())
        if st and not mpi:
            out.append(f.name)
    return out


def profiles(m):
    """setup function: the configuration profiles an entry is analysed under"""
    en = m.enums
    sb = sorted(v for k, v in en.items() if k.startswith("ARMCII_SHR_BUF_"))
    iov = sorted(v for k, v in en.items() if k.startswith("ARMCII_IOV_"))
    sd = en["ARMCII_STRIDED_DIRECT"]
    si = en["ARMCII_STRIDED_IOV"]

    def setup(e):
        if e in VECTOR:
            return [pin(shr_buf_method=a, iov_method=b) for a in sb for b in iov]
        if e in STRIDED:
            return [pin(shr_buf_method=a, iov_method=b, strided_method=si) for a in sb for b in iov] + \
                   [pin(shr_buf_method=a, strided_method=sd) for a in sb]
        return [pin(shr_buf_method=a) for a in sb]
    return setup
