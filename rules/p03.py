"""Fences and barriers reach every live region."""
from regions import Traverse, NoAbort
import base

EXPLANATION = ("Traversal analysis: along every path of the fence, wait-all and barrier entry points, every region pointer obtained from the list "
               "of live regions (head, then link by link until NULL, by induction over the loop) must have the required flush issued on its own "
               "window; a remote flush for fences, a local one for waits, towards the requested target or all of them.")
ASSUMPTIONS = ["MPI_Win_flush completes the operations at the target, as the MPI standard says",
               "the list of live regions is well linked (property P10)"]


def run(c):
    c.rule("region-missed", "every live region is flushed, and the traversal ends only at the end of the list")
    c.rule("barrier-order", "a barrier completes all operations remotely, then synchronises the processes, then synchronises the memory of every region")
    c.rule("region-excludes-target", "a fence or wait towards a process does not abort because a live region excludes that process")
    one = {"PARMCI_Fence": dict(local=False, proc=0), "PARMCI_WaitProc": dict(local=True, proc=0),
           "PARMCI_AllFence": dict(local=False), "PARMCI_WaitAll": dict(local=True)}

    def fac(e):
        if e in one:
            return [Traverse("flush", "flush", **one[e])] + ([NoAbort()] if "proc" in one[e] else [])
        return [Traverse("flush", "flush", end="MPI_Barrier", rule="barrier-order"),
                Traverse("sync", "sync", begin="MPI_Barrier", rule="barrier-order")]
    kw = dict(base.KW)
    for r in c.explore(list(one) + ["PARMCI_Barrier"], fac, kw=kw):
        for k, x in r["extra"].items():
            if k == "noabort":
                c.inst("region-excludes-target", r["entry"])
                continue
            for s in x["sites"]:
                c.inst("barrier-order" if "Barrier" in r["entry"] else "region-missed", r["entry"] + " " + s)
            for s in x["walks"]:
                c.inst("barrier-order" if "Barrier" in r["entry"] else "region-missed", r["entry"] + " walk " + s)
    c.floor("region-missed", 6)
    c.floor("barrier-order", 3)
    c.floor("region-excludes-target", 2)
