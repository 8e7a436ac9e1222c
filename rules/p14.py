"""Operations and flushes go to the process and place the caller named."""
import base
from interp import cmp_term
from target import group_shape, WORLD, Target, Translator, Tables, ROLES, ENTRIES

EXPLANATION = ("Path-sensitive symbolic analysis of every one-sided entry point: at each MPI operation and flush, the rank must be the caller's process "
               "translated into the group of the very allocation whose window is used, and the displacement must be the caller's remote address minus "
               "the base of that process's slice of that allocation. The translation functions and the cached tables are checked separately.")
ASSUMPTIONS = ["MPI_Group_translate_ranks and MPI_Comm_group do what the MPI standard says",
               "addresses inside a list of segments are taken as remote addresses of the caller; their enumeration is not checked here",
               "in the datatype method for vectors the displacements are inside the datatype and are not checked"]
RULES = ("wrong-rank", "wrong-place", "translation")


def run(c):
    c.rule("wrong-rank", "the rank of an operation or flush is the caller's process translated into the group of the window's allocation")
    c.rule("wrong-place", "the displacement is the caller's remote address minus the base of the target process's slice of that allocation")
    c.rule("translation", "rank translation, directly or through a cached table, yields the same process's rank in the other group")
    prof = base.profiles(c.m)
    fences = {"PARMCI_Fence": ((), 0), "PARMCI_WaitProc": ((), 0)}
    names = [e for e in ENTRIES if e in ROLES]
    res = c.explore(names + list(fences), lambda e: [Target(*(ROLES.get(e) or fences[e]), bounds=False)],
                    setup=lambda e: [None] if e in fences else prof(e), kw=base.kw(c.m))
    tr = set()
    for r in res:
        x = r["extra"]["tgt"]
        tr |= set(x["translators"])
        for s in x["rank"] + x["flush"]:
            c.inst("wrong-rank", r["entry"] + " " + s)
        for s in x["place"]:
            c.inst("wrong-place", r["entry"] + " " + s)
    kw = dict(base.KW, fold=False)
    for f in sorted(tr):
        for r in c.explore([f], lambda e: [Translator("abs_to_grp")], kw=kw):
            c.inst("translation", r["entry"])
    for f in ("ARMCI_Absolute_id",):
        for r in c.explore([f], lambda e: [Translator("grp_to_abs", reverse=True)], kw=kw):
            c.inst("translation", r["entry"])
    init = [f.name for f in c.m.funcs.values() if len(f.params) == 1 and any(
        i.op == "call" and i.extra[0] == ("g", "MPI_Group_translate_ranks") for i in f.instrs())]

    def world(eng, st, args):
        gs = group_shape(eng.m)
        for t in eng.m.fields:
            if "grp_to_abs" in eng.m.fields[t]:
                st.assume(cmp_term("sge", ("ld", ("fld", WORLD, t, gs["size"])), ("c", 1)), True)
    for r in c.explore(init, lambda e: [Tables()], setup=lambda e: [world], kw=kw):
        for s in r["extra"]["tab"]:
            c.inst("translation", s)
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    c.floor("wrong-rank", 60)
    c.floor("wrong-place", 40)
    c.floor("translation", 2)
