"""Vector operations: every segment of every descriptor, exactly once, between the addresses of the same number."""
import base
import vector
from profiles import pin

EXPLANATION = ("Path-sensitive analysis of the vector operations, blocking and non-blocking, with and without copying of local buffers: each transfer and each staging copy is "
               "read as segment number I of descriptor V, and the loops over segments and descriptors are judged by induction.")
ASSUMPTIONS = ["MPI datatypes other than those of the operation's own element type are not interpreted (Open MPI never takes that path)",
               "the outcome of the checks for overlap and for a common allocation is arbitrary"]
METHODS = (1, 2)


def walk(c):
    """every entry under the method and guard settings: results"""
    pins = [pin(iov_method=meth, shr_buf_method=shr) for meth in METHODS for shr in (0, 1)]
    return c.explore(list(vector.ENTRIES), lambda e: [vector.Vector(vector.ENTRIES[e], set(c.rules))], setup=lambda e: pins, kw=base.kw(c.m, pure=vector.PURE))


def run(c):
    c.rule("every", "segment numbers begin at 0, rise by one and end with the descriptor's length; only empty descriptors are passed over and the last one is reached")
    c.rule("paired", "local and remote address of a transfer have the same segment and descriptor number, and its length is the descriptor's")
    c.rule("staged", "a staging copy of segment i is made from, used for and returned to segment i, all of them, in the descriptor's length")
    for r in walk(c):
        e = r["entry"]
        x = r["extra"]["vx"]
        for p in x["pairs"]:
            c.inst("paired", "%s %s" % (e, p))
        for p in x["walks"]:
            c.inst("every", "%s %s" % (e, p))
        for p in x["staged"]:
            c.inst("staged", "%s %s" % (e, p))
    c.floor("every", 25)
    c.floor("paired", 6)
    c.floor("staged", 6)
