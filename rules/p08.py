"""No operation is issued outside the target's slice."""
import base
from target import Target, ROLES, ENTRIES

EXPLANATION = ("Path-sensitive interval and linear-fact analysis of every one-sided entry point: at each MPI operation, what the path has established must "
               "imply that the target is a member of the allocation's group, that the displacement is not negative and that displacement plus count times "
               "the true extent of the target datatype does not exceed the size of the target process's slice.")
ASSUMPTIONS = ["sizes do not overflow 64-bit arithmetic", "failed library assertions abort the program",
               "in the datatype method for vectors the displacements are inside the datatype and are not checked (this MPI library never selects it)"]
RULES = ("no-member-check", "below-slice", "past-slice")


def run(c):
    c.rule("no-member-check", "the target is known to be a member of the allocation's group")
    c.rule("below-slice", "the displacement is known not to be negative")
    c.rule("past-slice", "the last byte of the transfer is known to lie within the target's slice")
    prof = base.profiles(c.m)
    names = [e for e in ENTRIES if e in ROLES]
    for r in c.explore(names, lambda e: [Target(*ROLES[e])], setup=prof, kw=base.kw(c.m)):
        x = r["extra"]["tgt"]
        for k in RULES:
            for s in x["bounds"]:
                c.inst(k, r["entry"] + " " + s)
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    for k in RULES:
        c.floor(k, 40)
