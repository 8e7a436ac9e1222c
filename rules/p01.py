"""Blocking one-sided calls are complete at the origin when they return."""
import base
from rma import Rma
from entries import BLOCKING, NBVALUE

EXPLANATION = ("Path-sensitive typestate analysis of every public blocking one-sided entry point over the linked LLVM IR, once per "
               "combination of the enumerated run-time settings and with every other setting, argument and memory content symbolic: each MPI "
               "one-sided operation opens an obligation that a flush/unlock/wait on the same window and target rank must close before "
               "the entry point returns.")
ASSUMPTIONS = ["ARMCII_Assert failures do not return (as in the build the tests use)",
               "MPI routines have the effects the MPI standard gives them",
               "lengths and counts in vector descriptors are not negative"]
RULES = ("return-incomplete", "stack-in-flight")


def run(c):
    c.rule("return-incomplete", "no path returns from a blocking entry point with an operation that was neither flushed nor waited for "
           "on its own window and target")
    c.rule("stack-in-flight", "no function returns while a local variable of it is the origin or result buffer of an operation that is not complete")
    res = c.explore(BLOCKING + NBVALUE, lambda e: [Rma(e, blocking=True)], setup=base.profiles(c.m), kw=base.kw(c.m))
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    for r in res:
        for s in r["extra"]["rma"]["rma"]:
            c.inst("return-incomplete", r["entry"] + " " + s)
            c.inst("stack-in-flight", s)
    c.floor("return-incomplete", 40)
