"""Read-modify-write is one atomic operation of the right kind whose result reaches the caller."""
import base
from interp import Monitor, subterms, cmp_term, root
from mpi import RMA, FLUSH
from rma import okey, unold
from profiles import nonnull, both

EXPLANATION = ("Path-sensitive analysis of the read-modify-write entry point, once per operation code (plus every other code), with all settings and arguments "
               "symbolic: which MPI operation is issued on which window, rank and location, with which operator, datatype and operand; how it is completed; "
               "and which value is stored in the caller's location.")
ASSUMPTIONS = ["MPI's fetch-and-op and get-accumulate are atomic per element, as the MPI standard says",
               "the caller's location is a valid address in private memory"]
ATOMIC = {"MPI_Fetch_and_op", "MPI_Get_accumulate", "MPI_Rget_accumulate", "MPI_Compare_and_swap"}
SIZE = {"ompi_mpi_int": "i32", "ompi_mpi_long": "i64"}


class Rmw(Monitor):
    name = "rmw"

    def __init__(self, kind, wide):
        self.kind, self.wide = kind, wide       # 'add' | 'swap' | None
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        st.mon[self.name] = frozenset()

    def rep(self, eng, ins, rule, msg, st, ctx, fn=None):
        eng.report(rule, ins, msg, st, ctx, key=msg, fn=fn)

    def call(self, eng, st, ins, fn, args, ctx):
        its = st.mon[self.name]
        if fn in RMA:
            d = RMA[fn]
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            if self.kind is None:
                return self.rep(eng, ins, "rmw-operation", "an operation is issued for an unknown operation code", st, ctx)
            if fn not in ATOMIC or "r" not in d or "op" not in d:
                return self.rep(eng, ins, "rmw-operation", "%s is not an atomic read-modify-write" % fn, st, ctx)
            if its:
                return self.rep(eng, ins, "rmw-operation", "a second operation is issued: the update is not one atomic operation", st, ctx)
            want = "ompi_mpi_op_replace" if self.kind == "swap" else "ompi_mpi_op_sum"
            ty = "ompi_mpi_long" if self.wide else "ompi_mpi_int"
            if args[d["op"]] != ("g", want):
                self.rep(eng, ins, "rmw-operation", "the operator is not %s" % ("replacement" if self.kind == "swap" else "addition"), st, ctx)
            for k in ("ot", "tt", "rt"):
                if k in d and args[d[k]] != ("g", ty):
                    self.rep(eng, ins, "rmw-operation", "the datatype is not %s" % ("long" if self.wide else "int"), st, ctx)
            for k in ("oc", "tc", "rc"):
                if k in d and args[d[k]] != ("c", 1):
                    self.rep(eng, ins, "rmw-operation", "the element count is not one", st, ctx)
            if self.a[2] not in subterms(args[d["disp"]]):
                self.rep(eng, ins, "rmw-operation", "the target location is not the caller's remote location", st, ctx)
            if self.a[4] not in subterms(args[d["rank"]]):
                self.rep(eng, ins, "rmw-operation", "the target rank is not the caller's process", st, ctx)
            o = eng.rd(st, args[d["o"]])
            if self.kind == "add":
                if o != self.a[3]:
                    self.rep(eng, ins, "rmw-operand", "the operand of fetch-and-add is not the caller's value", st, ctx)
            else:
                if not (args[d["o"]] == self.a[1] or o in (("ld", self.a[1]),)):
                    self.rep(eng, ins, "rmw-operand", "the operand of swap is not the value at the caller's location", st, ctx)
            st.mon[self.name] = frozenset([("op", fn, args[d["win"]], args[d["rank"]], args[d["r"]],
                                            ("out", fn, eng.ins_uid(ins), d["r"], ctx),
                                            ("out", fn, eng.ins_uid(ins), d["req"], ctx) if "req" in d else None)])
            return
        for x in its:
            if x[0] != "op":
                continue
            if fn in FLUSH:
                local, rp, wp = FLUSH[fn]
                if args[wp] == x[2] and (rp is None or args[rp] == x[3]):
                    st.mon[self.name] = its | {("done",)} | (frozenset() if local else {("remote",)})
            elif fn == "MPI_Wait" and x[6] is not None and eng.rd(st, args[0]) == x[6]:
                st.mon[self.name] = its | {("done",)}

    def store(self, eng, st, ins, addr, val, ctx):
        if addr == self.a[1]:
            its = st.mon[self.name]
            if ("done",) not in its:
                self.rep(eng, ins, "rmw-result", "the caller's location is overwritten before the operation is complete", st, ctx)
            w = store_width(eng, ins)
            if w is not None and w != ("i64" if self.wide else "i32"):
                self.rep(eng, ins, "rmw-result", "the caller's location is stored with the wrong width (%s)" % w, st, ctx)

    def exit(self, eng, st, fn, ret):
        its = st.mon[self.name]
        op = [x for x in its if x[0] == "op"]
        if self.kind is None:
            return
        if not op:
            return self.rep(eng, None, "rmw-operation", "returns without issuing the operation", st, 0, fn)
        x = op[0]
        if x[1] == "MPI_Rget_accumulate" and self.kind == "swap" and ("remote",) not in its:
            self.rep(eng, None, "rmw-complete", "a request-based swap is not complete at the target when the call returns", st, 0, fn)
        if ("done",) not in its:
            self.rep(eng, None, "rmw-complete", "the operation is not complete when the call returns", st, 0, fn)
        v = eng.rd(st, self.a[1])
        if x[4] == self.a[1]:
            return
        if v != x[5] and not (v[0] in ("uninit", "ld", "hv") and v[1] == x[4]):
            self.rep(eng, None, "rmw-result", "the caller's location does not receive the value the operation fetched", st, 0, fn)


def store_width(eng, ins):
    t = ins.ty
    return t if isinstance(t, str) and t in ("i32", "i64", "i16", "i8") else None


def run(c):
    m = c.m
    c.rule("rmw-operation", "exactly one atomic MPI operation with the operator, type, location and process the caller asked for; none for unknown codes")
    c.rule("rmw-operand", "the operand is the caller's value (add) or the value at the caller's location (swap)")
    c.rule("rmw-result", "the fetched value is stored in the caller's location, once it has arrived, with the width of the type")
    c.rule("rmw-complete", "the operation is complete at the origin on return, and a request-based swap also at the target")
    E = m.enums
    codes = {"ARMCI_FETCH_AND_ADD": ("add", False), "ARMCI_FETCH_AND_ADD_LONG": ("add", True), "ARMCI_SWAP": ("swap", False), "ARMCI_SWAP_LONG": ("swap", True)}
    for n, (k, wide) in codes.items():
        c.need(n in E, "operation code %s not found" % n)

        def args(e, v=E[n]):
            f = m.funcs[m.resolve(e)]
            return [("c", v)] + [("arg", i, p[1]) for i, p in enumerate(f.params)][1:]
        for r in c.explore(["PARMCI_Rmw"], lambda e: [Rmw(k, wide)], setup=lambda e: [nonnull(1, 2)], kw=base.kw(m, fold=True), args=args):
            c.inst("rmw-operation", *["%s %s" % (n, s) for s in r["extra"]["rmw"]])
            c.inst("rmw-operand", *["%s %s" % (n, s) for s in r["extra"]["rmw"]])
            c.inst("rmw-result", *["%s %s" % (n, s) for s in r["extra"]["rmw"]])
            c.inst("rmw-complete", *["%s %s" % (n, s) for s in r["extra"]["rmw"]])

    def other(eng, st, args):
        for n in codes:
            st.assume(cmp_term("eq", args[0], ("c", E[n])), False)
    c.explore(["PARMCI_Rmw"], lambda e: [Rmw(None, False)], setup=lambda e: [other], kw=base.kw(m, fold=True))
    c.floor("rmw-operation", 4)
