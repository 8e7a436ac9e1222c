"""Messages: the caller's bytes to the named process, the received bytes to the caller, barriers over the whole group."""
import base
from interp import Monitor, subterms, cmp_term, add, root
from mpi import COPY
from profiles import pin, both
from p17 import comm_of, WORLD, SELF
from regions import Traverse, shape
from target import Target, group_shape
from ir import AnalysisBroken

EXPLANATION = ("Path-sensitive analysis of the two-sided operations, broadcasts and message barriers, with and without buffer copying: which bytes are handed to MPI, "
               "with which length, tag, process and communicator, and where what was received ends up.")
ASSUMPTIONS = ["MPI delivers messages as the MPI standard says", "the translation of ranks is right (property P14)"]
BYTES = (("g", "ompi_mpi_byte"), ("g", "ompi_mpi_char"))
ANY = ("c", -1)


class Msg(Monitor):
    """what: snd | rcv | rcvany | bcast; roles: name -> argument position"""
    name = "msg"

    def __init__(self, m, what, roles, scope=None):
        self.m, self.what, self.r, self.scope = m, what, roles, scope
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.a = {k: ("arg", i, entry.params[i][1]) for k, i in self.r.items()}
        self.X = self.a["buf"]
        self.world = comm_of(self.m, WORLD)
        self.tg = Target((), 0)
        self.tg.start(eng, st, entry)
        st.mon.pop("tgt", None)
        st.mon[self.name] = frozenset()

    def content(self, st, p):
        for k, v in st.mon[self.name]:
            if k == p:
                return v
        return ("user",) if p == self.X else None

    def set(self, st, p, v):
        st.mon[self.name] = frozenset(x for x in st.mon[self.name] if x[0] != p) | {(p, v)}

    def get(self, st, k):
        for a, v in st.mon[self.name]:
            if a == (k,):
                return v
        return None

    def length_ok(self, eng, st, n, tok):
        """n bytes are exactly what the token stands for"""
        if tok == ("user",) or tok[0] == "msg" and self.what == "bcast":
            return n == self.a["len"]
        if tok[0] == "msg":
            return n[0] == "out" and n[1] == "MPI_Get_count" and n in [v for k, v in st.mon[self.name] if k == ("count",)]
        return True

    def call(self, eng, st, ins, fn, args, ctx):
        rep = lambda rule, msg, key: eng.report(rule, ins, msg, st, ctx, key=key)
        if fn in COPY:
            t = self.content(st, args[1])
            if t is None and args[0] != self.X:
                return
            t = t or ("other",)
            if not self.length_ok(eng, st, args[2], t):
                rep("transfer", "a copy of %s has another length" % ("the caller's data" if t == ("user",) else "the message received"), "len")
            self.set(st, args[0], t)
        elif fn == "MPI_Alloc_mem":
            self.set(st, ("mem",), True)        # keeps paths with and without a copy apart
        elif fn == "MPI_Get_count":
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            if self.get(st, "status") != args[0]:
                rep("received", "the length is asked of something else than the receive's status", "status")
            if args[1] not in BYTES:
                rep("received", "the length is not counted in bytes", "bytes")
            v = ("out", fn, eng.ins_uid(ins), 2, ctx)
            st.mon[self.name] = frozenset(x for x in st.mon[self.name] if x[0] != ("count",)) | {(("count",), v)}
        elif fn in ("MPI_Send", "MPI_Ssend", "MPI_Recv", "MPI_Bcast", "MPI_Isend", "MPI_Irecv", "MPI_Sendrecv", "MPI_Bsend", "MPI_Rsend"):
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            good = {"snd": ("MPI_Send", "MPI_Ssend"), "rcv": ("MPI_Recv",), "rcvany": ("MPI_Recv",), "bcast": ("MPI_Bcast",)}[self.what]
            if fn not in good:
                return rep("transfer", "%s is used" % fn, fn)
            if self.get(st, "done"):
                rep("transfer", "a second message is transferred", "twice")
            self.set(st, ("done",), True)
            buf, n, ty = args[:3]
            if ty not in BYTES:
                rep("transfer", "the length is not in bytes", "type")
            if n != self.a["len"]:
                rep("transfer", "the length is not the caller's", "count")
            if self.what == "bcast":
                self.bcast(eng, st, ins, args, ctx, rep)
                return
            peer, tag, comm = args[3:6]
            if comm != self.world:
                rep("transfer", "the message uses another communicator than the library's", "comm")
            if tag != self.a["tag"]:
                rep("transfer", "the message does not carry the caller's tag", "tag")
            if peer != (ANY if self.what == "rcvany" else self.a["peer"]):
                rep("transfer", "the message is %s another process than the one named" % ("sent to" if self.what == "snd" else "received from"), "peer")
            if self.what == "snd":
                if self.content(st, buf) != ("user",):
                    rep("transfer", "the bytes sent are not the caller's", "buf")
            else:
                self.set(st, buf, ("msg",))
                self.set(st, ("status",), args[6])

    def bcast(self, eng, st, ins, args, ctx, rep):
        buf, n, ty, rt, comm = args
        grp = self.a.get("group", WORLD)
        if comm != comm_of(self.m, grp):
            rep("transfer", "the broadcast is over other processes than the group's", "comm")
        g = self.a.get("group")
        if g is None or g == WORLD:
            ok = rt == self.a["root"] or self.tg.rank_ok(st, rt, WORLD, self.a["root"])
        else:
            ok = self.tg.rank_ok(st, rt, g, self.a["root"])
        if ok is not True:
            rep("transfer", "the broadcast does not start at the named process's rank in the group", "root")
        me = self.isroot(eng, st)
        c = self.content(st, buf)
        if c != ("user",) and me is not False:
            rep("transfer", "the root does not broadcast the caller's bytes", "src")
        if me is not True:
            self.set(st, buf, ("msg",))

    def isroot(self, eng, st):
        for t in self.m.fields:
            if "rank" in self.m.fields[t] and "abs_to_grp" in self.m.fields[t]:
                k = self.m.fields[t].index("rank")
                v = eng.rd(st, WORLD if not k else ("fld", WORLD, t, k))
                return st.decide(cmp_term("eq", v, self.a["root"]))

    def exit(self, eng, st, fn, ret):
        rep = lambda rule, msg, key: eng.report(rule, None, msg, st, 0, key=key, fn=fn)
        if self.what == "bcast" and self.scope == "SCOPE_NODE":
            if self.content(st, self.X) != ("user",):
                rep("received", "a broadcast to oneself changes the buffer", "self")
            return
        if not self.get(st, "done"):
            return rep("transfer", "no message is transferred", "none")
        c = self.content(st, self.X)
        if self.what == "snd" and c != ("user",):
            rep("received", "the caller's buffer is changed by a send", "src")
        if self.what == "bcast":
            me = self.isroot(eng, st)
            if me is None:
                me = c == ("user",)
                if c != ("user",) and c != ("msg",):
                    rep("received", "the buffer holds something else on return", "bc")
            elif c != (("user",) if me else ("msg",)):
                rep("received", "the buffer of %s does not hold the root's bytes on return" % ("the root" if me else "a receiver"), "bcast")
        if self.what in ("rcv", "rcvany"):
            if c != ("msg",):
                rep("received", "the caller's buffer does not hold the message on return", "dst")
            if "nbytes" in self.a and st.decide(cmp_term("eq", self.a["nbytes"], ("c", 0))) is not True:
                v = eng.rd(st, self.a["nbytes"])
                if not any(k == ("count",) and v == x for k, x in st.mon[self.name]):
                    rep("received", "the length reported is not that of the message", "nb")
        if self.what == "rcvany":
            s = self.get(st, "status")
            if ret is None or s is None or not (ret[0] in ("ld", "out", "hv", "uninit") and (s in subterms(ret) or ret[0] == "out" and ret[1] == "MPI_Recv")) or not self.source(ret, s):
                rep("received", "the sender reported is not that of the message", "src")

    def source(self, ret, s):
        """ret is the MPI_SOURCE field of status s"""
        for t in self.m.fields:
            if "MPI_SOURCE" in self.m.fields[t]:
                k = self.m.fields[t].index("MPI_SOURCE")
                return any(x == ("fld", s, t, k) for x in subterms(ret)) or not k and (ret[0] == "out" or ret[-1] == s)
        return True


class Barrier(Monitor):
    name = "bar"

    def __init__(self, comm, sync):
        self.comm, self.sync = comm, sync
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        st.mon[self.name] = 0

    def call(self, eng, st, ins, fn, args, ctx):
        if fn == "MPI_Barrier":
            self.sites.add("%s:%s" % (ins.fn.name, ins.line))
            if args[0] != self.comm:
                eng.report("barrier", ins, "the barrier is over other processes than the group's", st, ctx, key="comm")
            st.mon[self.name] = 1 if st.mon[self.name] == 0 else 2
        elif fn == "MPI_Win_sync":
            st.mon[self.name] = 1

    def exit(self, eng, st, fn, ret):
        if st.mon[self.name] < (2 if self.sync else 1):
            eng.report("barrier", None, "processes may leave before %s" % ("every process has synchronised its memory" if self.sync and st.mon[self.name] else "every process has arrived"),
                       st, 0, key="n", fn=fn)


class Outputs(Monitor):
    """every output parameter is written on every return"""
    name = "outs"

    def __init__(self, outs):
        self.o = outs

    def start(self, eng, st, entry):
        self.p = [("arg", i, entry.params[i][1]) for i in self.o]
        st.mon[self.name] = frozenset()

    def store(self, eng, st, ins, addr, val, ctx):
        if addr in self.p:
            st.mon[self.name] = st.mon[self.name] | {addr}

    def exit(self, eng, st, fn, ret):
        miss = [p[2] for p in self.p if p not in st.mon[self.name]]
        if miss:
            return eng.report("tree", None, "output %s is not set" % miss[0], st, 0, key=miss[0], fn=fn)
        r, u, l, g = [eng.rd(st, p) for p in self.p]
        me, n = [("pure", x, comm_of(eng.m, WORLD)) for x in ("MPI_Comm_rank", "MPI_Comm_size")]
        bad = lambda what: eng.report("tree", None, "the %s is not that of a binary tree over all processes" % what, st, 0, key=what, fn=fn)
        if r != ("c", 0):
            bad("root")
        if self.node:
            if (u, l, g) != (("c", -1),) * 3:
                bad("neighbourhood of a process on its own")
            return
        for what, v, k in (("left child", l, 1), ("right child", g, 2)):
            c = add(add(me, me), ("c", k))
            if v == c:
                if st.decide(cmp_term("slt", c, n)) is not True:
                    bad(what)
            elif v != ("c", -1) or st.decide(cmp_term("sge", c, n)) is not True:
                bad(what)
        if u == ("c", -1):
            if st.decide(cmp_term("eq", me, ("c", 0))) is not True:
                bad("parent")
        else:
            q = add(me, ("c", -1))
            if u[0] != "op" or u[1] not in ("sdiv", "udiv", "ashr", "lshr") or tuple(u[-2:]) not in ((q, ("c", 2)), (q, ("c", 1))) or (u[1] in ("ashr", "lshr")) != (u[-1] == ("c", 1)) \
                    or st.decide(cmp_term("eq", me, ("c", 0))) is not False:
                bad("parent")


def setarg(i, v, label):
    def setup(eng, st, args):
        args[i] = ("c", v)
    setup.label = label
    return setup


def run(c):
    c.rule("transfer", "exactly the caller's bytes are handed to MPI once, with the caller's tag and process, as ranks of the communicator they are used with")
    c.rule("received", "the buffer holds exactly the bytes received, nothing is written beyond them, and their number and sender are reported")
    c.rule("barrier", "a message barrier is over all processes of the group, and with synchronisation asked for each process's memory is synchronised before any process leaves")
    c.rule("tree", "the process tree is the binary tree over all processes, with every output set")
    m, en = c.m, c.m.enums
    sb = sorted(v for k, v in en.items() if k.startswith("ARMCII_SHR_BUF_"))
    scopes = {k: v for k, v in en.items() if k.startswith("SCOPE_")}
    kw = dict(budget=60000, fold=True)
    jobs = [("armci_msg_snd", "snd", dict(tag=0, buf=1, len=2, peer=3), None), ("armci_msg_rcv", "rcv", dict(tag=0, buf=1, len=2, nbytes=3, peer=4), None),
            ("armci_msg_rcvany", "rcvany", dict(tag=0, buf=1, len=2, nbytes=3), None), ("armci_msg_bcast", "bcast", dict(buf=0, len=1, root=2), None),
            ("armci_msg_brdcst", "bcast", dict(buf=0, len=1, root=2), None)]
    for k in scopes:
        jobs += [("armci_msg_bcast_scope", "bcast", dict(buf=1, len=2, root=3), k), ("armci_msg_group_bcast_scope", "bcast", dict(buf=1, len=2, root=3, group=4), k)]
    for e, what, roles, sc in jobs:
        for s in sb:
            st = pin(shr_buf_method=s)
            if sc:
                st = both(st, setarg(0, scopes[sc], sc))
            for r in c.explore([e], lambda _: [Msg(m, what, roles, sc)], setup=lambda _: st, kw=kw):
                c.inst("received", "%s %s" % (e, r["label"]))
                for x in r["extra"]["msg"]:
                    c.inst("transfer", "%s %s %s" % (e, r["label"], x))
    for e, g in (("parmci_msg_barrier", WORLD), ("parmci_msg_group_barrier", ("arg", 0, m.funcs["parmci_msg_group_barrier"].params[0][1]))):
        for v in (0, 1):
            def fac(_):
                return [Barrier(comm_of(m, g), v)] + ([Traverse("sync", "sync", begin="MPI_Barrier", end="MPI_Barrier", rule="barrier")] if v else [])
            for r in c.explore([e], fac, setup=lambda _: pin(msg_barrier_syncs=v), kw=kw):
                for x in r["extra"]["bar"]:
                    c.inst("barrier", "%s %s %s" % (e, r["label"], x))
    for k in scopes:
        def tree(_):
            o = Outputs((1, 2, 3, 4))
            o.node = k == "SCOPE_NODE"
            return [o]
        for r in c.explore(["armci_msg_bintree"], tree, setup=lambda _: setarg(0, scopes[k], k), kw=dict(budget=60000, fold=False)):
            c.inst("tree", r["entry"] + " " + r["label"])
    c.floor("transfer", 12)
    c.floor("received", 14)
    c.floor("barrier", 4)
    c.floor("tree", 3)
