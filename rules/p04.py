"""Put-with-flag: the flag is written only after all the data is complete at the target."""
import base
from profiles import both, nonnull
from interp import subterms
from mpi import RMA, FLUSH, COPY
from regions import Traverse, HEAD
from rma import okey

EXPLANATION = ("Path-sensitive ordering analysis of the put-with-flag entry points: on every path the operation that writes the caller's flag must be "
               "preceded by remote completion of every data operation (a remote flush of the same window and target, or a completed walk of the "
               "list of live regions that flushes each of them remotely towards the target), and the flag must be written on every path.")
ASSUMPTIONS = ["MPI_Win_flush completes the operations at the target, as the MPI standard says",
               "the list of live regions is well linked (property P10)",
               "the flag and the data are at a process other than the caller or in memory the caller may store to directly (local copies are ordered)"]


class Flag(Traverse):
    def __init__(self, proc, flag, value, src):
        Traverse.__init__(self, "flag", "flush", local=False, proc=proc)
        self.flag, self.value, self.src = flag, value, src
        self.flags, self.datas = set(), set()

    def start(self, eng, st, entry):
        Traverse.start(self, eng, st, entry)

    def collect(self):
        return dict(flags=sorted(self.flags), datas=sorted(self.datas))

    def load(self, eng, st, ins, addr, val, ctx):
        if addr == HEAD:
            # a new walk
            self.upd(st, (), [x for x in st.mon[self.name] if x[0] in ("n", "head")])
        Traverse.load(self, eng, st, ins, addr, val, ctx)

    def is_flag(self, v):
        return ("arg", self.flag) in {x[:2] for x in subterms(v)}

    def call(self, eng, st, ins, fn, args, ctx):
        site = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        if fn in RMA:
            d = RMA[fn]
            if self.is_flag(args[d["disp"]]):
                self.flags.add(site)
                dirty = [x for x in st.mon[self.name] if x[0] == "rem"]
                o = self.owed(st)
                if dirty and o:
                    eng.report("flag-before-data", ins, "the flag is written while data may be incomplete at the target (%s after the last data "
                               "operation)" % o, st, ctx, key="flag")
                self.upd(st, [("written", args[d["win"]], args[d["rank"]])])
                if "o" in d and args[d["o"]][0] == "al":
                    v = eng.rd(st, args[d["o"]])
                    if v != ("arg", self.value, v[2] if len(v) > 2 else None):
                        eng.report("flag-missing", ins, "what is written to the flag is not the caller's value", st, ctx, key="value")
            else:
                self.datas.add(site)
                if any(x[0] == "written" for x in st.mon[self.name]):
                    eng.report("flag-before-data", ins, "a data operation is issued after the flag was written", st, ctx, key="late")
                # whatever was walked before this operation does not cover it
                self.upd(st, [("rem", args[d["win"]], args[d["rank"]])], [x for x in st.mon[self.name] if x[0] in ("n", "head")])
            return
        if fn in FLUSH:
            local, rp, wp = FLUSH[fn]
            if not local:
                self.upd(st, (), [x for x in st.mon[self.name] if x[0] == "rem" and x[1] == args[wp] and (rp is None or x[2] == args[rp])])
        if fn in COPY and self.is_flag(args[0]):
            self.flags.add(site)
            if [x for x in st.mon[self.name] if x[0] == "rem"] and self.owed(st):
                eng.report("flag-before-data", ins, "the flag is written while data may be incomplete at the target", st, ctx, key="flag")
            self.upd(st, [("written", None, None)])
        Traverse.call(self, eng, st, ins, fn, args, ctx)

    def store(self, eng, st, ins, addr, val, ctx):
        if okey(addr)[:2] == ("arg", self.flag):
            self.upd(st, [("written", None, None)])

    def back_edge(self, eng, st, fn, header, ctx, phis):
        # data operations of earlier iterations: one fact per window term is enough
        pass

    def exit(self, eng, st, fn, ret):
        if not any(x[0] == "written" for x in st.mon[self.name]):
            eng.report("flag-missing", None, "returns without writing the flag", st, 0, key="nowrite", fn=fn)


def run(c):
    c.rule("flag-before-data", "the write of the flag is issued only after every data operation is complete at the target")
    c.rule("flag-missing", "the flag is written on every path that returns")
    at = {"PARMCI_Put_flag": (5, 3, 4, 0), "PARMCI_PutS_flag": (8, 6, 7, 0)}
    prof = base.profiles(c.m)
    res = c.explore(list(at), lambda e: [Flag(*at[e])], setup=lambda e: [both(f, nonnull(at[e][1])) for f in prof(e)], kw=base.kw(c.m))
    for r in res:
        x = r["extra"]["flag"]
        for s in x["flags"]:
            c.inst("flag-missing", r["entry"] + " " + s)
        for s in x["datas"]:
            c.inst("flag-before-data", r["entry"] + " " + s)
    c.floor("flag-before-data", 4)
    c.floor("flag-missing", 2)
