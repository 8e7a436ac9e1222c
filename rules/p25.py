"""Successful calls say so, and value queries return the value."""
import base
from interp import Monitor, root, subterms
from mpi import RMA
from profiles import gs_field

EXPLANATION = ("Path-sensitive analysis of the returned value on every path through every public call that reports a status, under every transfer method, and "
               "of the buffer the value queries return: the returned term must be the constant zero (or the code MPI returned), respectively the content of "
               "the place the operation of this call delivered its result to.")
ASSUMPTIONS = ["MPI routines return MPI_SUCCESS or a non-zero code", "failed library assertions do not return"]
ZERO = base.PUTS + [e for e in base.GETS if "Value" not in e] + base.ACCS + base.RMW + base.NB + base.NBVALUE + [
    "PARMCI_Wait", "PARMCI_WaitProc", "PARMCI_WaitAll", "PARMCI_Malloc", "PARMCI_Free", "PARMCI_Free_local", "PARMCI_Malloc_memdev",
    "PARMCI_Malloc_group_memdev", "PARMCI_Free_memdev", "ARMCI_Malloc_group", "ARMCI_Free_group", "PARMCI_Create_mutexes", "PARMCI_Destroy_mutexes",
    "PARMCI_Init", "PARMCI_Init_args", "PARMCI_Init_thread", "PARMCI_Init_thread_comm", "PARMCI_Init_mpi_comm", "PARMCI_Finalize",
    "ARMCIX_Group_split", "ARMCIX_Group_dup", "ARMCIX_Destroy_mutexes_hdl", "ARMCIX_Trylock_hdl"]
VALUE = {"PARMCI_GetValueInt": 4, "PARMCI_GetValueLong": 8, "PARMCI_GetValueFloat": 4, "PARMCI_GetValueDouble": 8}


class Status(Monitor):
    name = "status"

    def __init__(self):
        self.n = 0

    def collect(self):
        return self.n

    def exit(self, eng, st, fn, ret):
        self.n += 1
        if ret == ("c", 0) or (ret is not None and ret[0] == "call" and ret[1].startswith("MPI_")):
            return
        if ret is not None and ret[0] == "c" and MPIFAIL in st.mon.get("mpifail", ()):
            return
        eng.report("success", None, "a call that did what it was asked returns %s" % ("a non-zero status" if ret is not None and ret[0] == "c" else "a status that is not zero on every path"),
                   st, 0, key=str(ret), fn=fn)


MPIFAIL = "failed"


class Failed(Monitor):
    """notes that an MPI call is known to have failed on this path"""
    name = "mpifail"

    def start(self, eng, st, entry):
        st.mon[self.name] = frozenset()

    def branch(self, eng, st, ins, cond, truth, ctx):
        for t in subterms(cond):
            if t[0] == "call" and t[1].startswith("MPI_") and st.decide(("b", False, "eq", t, 0)) is False:
                st.mon[self.name] = frozenset([MPIFAIL])


class Value(Monitor):
    """items: addresses the value of this call was delivered to"""
    name = "value"

    def __init__(self, width):
        self.width = width
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.src = ("arg", 0, entry.params[0][1])
        st.mon[self.name] = frozenset()

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in RMA and "r" in RMA[fn]:
            d = RMA[fn]
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            st.mon[self.name] = st.mon[self.name] | {args[d["r"]]}
            n = args[d["rc"]] if "rc" in d else ("c", 1)
            sz = TYPES.get(args[d["rt"]][1]) if args[d["rt"]][0] == "g" else None
            if n[0] == "c" and sz and n[1] * sz != self.width:
                eng.report("value", ins, "%d bytes are fetched for a value of %d" % (n[1] * sz, self.width), st, ctx, key="width")

    def exit(self, eng, st, fn, ret):
        its = st.mon[self.name]
        ok = {("ld", self.src)} if not its else {(k, a) for a in its for k in ("ld", "uninit")}
        if ret not in ok and not any(ret is not None and ret[0] in ("hv", "uninit", "ld") and a in ret for a in its):
            eng.report("value", None, "the returned value is not what was fetched", st, 0, key=str(ret)[:60], fn=fn)


TYPES = {"ompi_mpi_byte": 1, "ompi_mpi_char": 1, "ompi_mpi_int": 4, "ompi_mpi_float": 4, "ompi_mpi_long": 8, "ompi_mpi_double": 8}


def run(c):
    c.rule("success", "every public call with a status returns zero on every path on which it did its work, whatever the transfer method")
    c.rule("value", "a value query returns the bytes its own transfer delivered, all of them")
    prof = base.profiles(c.m)
    have = [e for e in ZERO if c.m.resolve(e) in c.m.funcs]
    c.need(len(have) > len(ZERO) - 4, "status functions are missing")
    for r in c.explore(have, lambda e: [Failed(), Status()], setup=lambda e: prof(e) if e in base.BLOCKING + base.NB else None, kw=base.kw(c.m)):
        if r["extra"]["status"]:
            c.inst("success", "%s [%s]" % (r["entry"], r["label"]))
    for r in c.explore(list(VALUE), lambda e: [Value(VALUE[e])], setup=lambda e: prof(e), kw=base.kw(c.m)):
        for s in r["extra"]["value"]:
            c.inst("value", r["entry"] + " " + s)
    c.floor("success", 60)
    c.floor("value", 4)
