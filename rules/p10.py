"""The list of live allocations: entered, found, removed."""
import base
from alloc import Lookup
from p09 import explore

EXPLANATION = ("Shape and path analysis of the list of live allocations: the links set when an allocation is entered and removed, the table of slices it is "
               "searched by, the search itself (by induction over the list) and the agreement on which allocation a collective free means.")
ASSUMPTIONS = ["allocations of one process do not overlap in memory", "a group has at least one member"]
RULES = ("registered", "slices-by-rank", "unregistered", "free-agreed", "lookup")


def finders(m):
    """internal functions (pointer, process) -> pointer that search the list of live allocations"""
    out = []
    for f in m.funcs.values():
        if len(f.params) == 2 and f.params[0][0] == "ptr" and f.params[1][0] == "i32" and f.loops and f.name[:6] not in ("PARMCI", "ARMCI_"):
            if any(i.op == "load" and i.ops and i.ops[0] == ("g", "gmr_list") for i in f.instrs()) and \
                    any(i.op == "ret" and i.ops and i.ty == "ptr" or (i.op == "ret" and i.ops) for i in f.instrs()):
                if not any(i.op == "call" and i.extra[0][0] == "g" and m.resolve(i.extra[0][1]).startswith("MPI_") for i in f.instrs()):
                    out.append(f.name)
    return out


def run(c):
    c.rule("registered", "a new allocation is entered into the list, and the ones before it stay in the list")
    c.rule("slices-by-rank", "every member's base and size are filed under its absolute rank")
    c.rule("unregistered", "a freed allocation is unlinked from both neighbours before its record is released")
    c.rule("free-agreed", "a collective free releases the one allocation the processes that passed a pointer named, also where NULL was passed")
    c.rule("lookup", "the search returns an allocation exactly if its slice of the process contains the address")
    fs = finders(c.m)
    c.need(fs, "no function searches the list of live allocations")
    for r in explore(c) + c.explore(fs, lambda e: [Lookup()], kw=dict(base.KW, fold=False, summarize=False)):
        for mon in ("create", "destroy", "lookup"):
            for k, v in r["extra"].get(mon, {}).items():
                if k in RULES:
                    c.inst(k, *["%s [%s] %s" % (r["entry"], r["label"], s) for s in v])
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    for k, n in (("registered", 4), ("slices-by-rank", 2), ("unregistered", 3), ("free-agreed", 3), ("lookup", 1)):
        c.floor(k, n)
