"""Staging buffers."""
import base
from rma import Rma
from entries import BLOCKING, NBVALUE, NB

EXPLANATION = ("Typestate analysis of the temporary buffers every one-sided entry point obtains from the MPI allocator, and of the caller-visible "
               "result buffers: filled before they are an origin, copied back after they are a result, and neither released, overwritten nor read "
               "while an operation that uses them is incomplete.  Every combination of the enumerated transfer methods is analysed; other settings, "
               "arguments and memory are symbolic.")
ASSUMPTIONS = ["ARMCII_Assert failures do not return (as in the build the tests use)",
               "MPI routines have the effects the MPI standard gives them",
               "lengths and counts in vector descriptors are not negative",
               "elements of a pointer array are one abstract element per array"]
RULES = {
    "free-in-flight": "no temporary buffer is released while an operation that reads from or writes into it is incomplete",
    "read-early": "the result buffer of an operation is not read before the operation is complete",
    "overwrite-early": "the origin buffer of an operation is not overwritten before the operation is complete",
    "staging-unfilled": "a temporary buffer handed to an operation as origin has had the caller's data copied into it",
    "result-dropped": "a temporary buffer that received fetched data is copied to the caller's buffer before it is released",
    "staging-size": "whole-buffer copies into or out of a temporary buffer use the size it was allocated with",
}


def run(c):
    for k, v in RULES.items():
        c.rule(k, v)
    res = c.explore(BLOCKING + NBVALUE + NB, lambda e: [Rma(e, blocking=e not in NB)], setup=base.profiles(c.m), kw=base.kw(c.m))
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    for r in res:
        x = r["extra"]["rma"]
        for s in x["free"]:
            c.inst("free-in-flight", r["entry"] + " " + s)
        for s in x["fillcheck"]:
            c.inst("staging-unfilled", r["entry"] + " " + s)
        for s in x["copyback"]:
            c.inst("result-dropped", r["entry"] + " " + s)
        for s in x["rma"]:
            c.inst("overwrite-early", r["entry"] + " " + s)
            c.inst("read-early", r["entry"] + " " + s)
        for s in x["sizes"]:
            c.inst("staging-size", r["entry"] + " " + s)
    c.floor("free-in-flight", 20)
    c.floor("staging-unfilled", 12)
    c.floor("result-dropped", 3)
    c.floor("staging-size", 3)
