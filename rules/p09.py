"""An allocation's window: what it covers, when it is open, what is told to the callers, how it is released."""
import base
from alloc import Create, Destroy
from profiles import pin

EXPLANATION = ("Path-sensitive analysis of the allocation and release entry points: the window's extent, unit, communicator and memory, the exchange of base "
               "addresses, the result array (filled for every member, by induction over the loop), the access epoch from creation to release, and the "
               "release of the memory, under both ways of obtaining it.")
ASSUMPTIONS = ["MPI_Allgather and MPI_Allreduce do what the MPI standard says", "a group has at least one member",
               "loops that do not count up from a constant are not judged for completeness"]
RULES = ("window-extent", "window-open", "bases-exchanged", "bases-returned", "debug-zero", "window-closed", "memory-released")
MALLOCS = {"PARMCI_Malloc": (0, 1, None), "ARMCI_Malloc_group": (0, 1, 2), "PARMCI_Malloc_memdev": (0, 1, None), "PARMCI_Malloc_group_memdev": (0, 1, 2)}
FREES = {"PARMCI_Free": (0, None), "ARMCI_Free_group": (0, 1), "PARMCI_Free_memdev": (0, None)}


def explore(c):
    kw = dict(base.KW)
    out = []
    for dbg in (0, 1):
        out += c.explore(list(MALLOCS), lambda e: [Create(*MALLOCS[e], zero=dbg)], kw=kw,
                         setup=lambda e: [pin(use_win_allocate=w, debug_alloc=dbg) for w in (0, 1)])
    for w in (0, 1):
        out += c.explore(list(FREES), lambda e: [Destroy(*FREES[e], separate=w == 0)], kw=kw, setup=lambda e: [pin(use_win_allocate=w)])
    return out


def run(c):
    c.rule("window-extent", "the window covers exactly the caller's bytes, in units of one byte, on the group's communicator, unless nobody asked for memory")
    c.rule("window-open", "the window is open for access before the call returns")
    c.rule("bases-exchanged", "each process tells the others the base and size of its own window memory")
    c.rule("bases-returned", "the caller's array receives the base address of every member at that member's place")
    c.rule("debug-zero", "with allocation debugging on, memory is zeroed before the other processes learn of it")
    c.rule("window-closed", "the access epoch is ended before the window is freed")
    c.rule("memory-released", "memory that does not belong to the window is released exactly once, after the window")
    for r in explore(c):
        for mon in ("create", "destroy"):
            for k, v in r["extra"].get(mon, {}).items():
                if k in RULES:
                    c.inst(k, *["%s [%s] %s" % (r["entry"], r["label"], s) for s in v])
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    for k, n in (("window-extent", 4), ("window-open", 4), ("bases-exchanged", 2), ("bases-returned", 4), ("window-closed", 3), ("memory-released", 2)):
        c.floor(k, n)
