"""Starting and stopping: checks first, settings before use, a private communicator, the progress thread inside, access ended before the communicator goes."""
import base
from interp import Monitor, root, cmp_term, subterms
from p11 import graph, reach, PUBLIC
from profiles import pin, gs_field, both, G

EXPLANATION = ("Path-sensitive event-order analysis of every way of initialising the library and of finalising it: which MPI calls and which uses of a setting "
               "happen when, what the communicator and thread level in force are, and when the progress thread runs.")
ASSUMPTIONS = ["an error report does not return", "settings are read from the environment by initialisation only"]
RULES = {
    "checked": "nothing but queries is asked of MPI before it is known to be initialised and not finalised, and the library comes up only if MPI provides the thread level requested",
    "settings": "no setting is used before it has the value initialisation gives it",
    "world": "the library works on a duplicate of the communicator given, and the default group is the world group",
    "progress": "the progress thread is started, after everything else, exactly if it is asked for, and stopped before anything is torn down",
    "teardown": "all allocations are given up before the world communicator, and nothing uses the communicator afterwards",
    "same": "every way of initialising passes on the thread level and communicator it stands for; initialised means initialised and not yet finalised",
}
QUERY = {"MPI_Initialized", "MPI_Finalized", "MPI_Query_thread", "MPI_Abort", "MPI_Get_library_version", "MPI_Get_version"}


def gs_name(m, a):
    if a == G:
        t = [t for t in m.fields if "iov_batched_limit" in m.fields[t]][0]
        return m.fields[t][0]
    if a[0] == "fld" and a[1] == G:
        return m.fields[a[2]][a[3]]
    return None


class Ev(Monitor):
    name = "ev"

    def __init__(self, m, users, level, comm):
        self.m, self.users, self.lv, self.cm = m, users, level, comm
        self.sites = {k: set() for k in RULES}
        self.flag = None

    def collect(self):
        return dict(sites={k: sorted(v) for k, v in self.sites.items()}, flag=self.flag)

    def start(self, eng, st, entry):
        self.a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        st.mon[self.name] = frozenset()

    def its(self, st, tag):
        return [x for x in st.mon[self.name] if x[0] == tag]

    def upd(self, st, *add, rem=()):
        st.mon[self.name] = (st.mon[self.name] - frozenset(rem)) | frozenset(add)

    def gs(self, eng, st, n):
        return eng.rd(st, gs_field(self.m, n))

    def world(self, eng, st, f="comm", g="ARMCI_GROUP_WORLD"):
        t = [t for t in self.m.fields if "grp_to_abs" in self.m.fields[t]][0]
        k = self.m.fields[t].index(f)
        return eng.rd(st, ("fld", ("g", g), t, k) if k else ("g", g))

    def call(self, eng, st, ins, fn, args, ctx):
        at = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        rep = lambda rule, msg, key: eng.report(rule, ins, msg, st, ctx, key=key)
        if fn in ("MPI_Initialized", "MPI_Finalized"):
            self.upd(st, ("flag", fn, ("pure", fn) if fn == "MPI_Initialized" else ("out", fn, eng.ins_uid(ins), 0, ctx)))
        elif fn == "MPI_Query_thread":
            self.upd(st, ("level", ("out", fn, eng.ins_uid(ins), 0, ctx)))
        elif fn.startswith("MPI_") and fn not in QUERY and not self.its(st, "checked"):
            self.sites["checked"].add(at)
            f = {x[1]: st.decide(cmp_term("eq", x[2], ("c", 0))) for x in self.its(st, "flag")}
            if f.get("MPI_Initialized") is not False:
                rep("checked", "%s is called although MPI may not be initialised" % fn, "init")
            if f.get("MPI_Finalized") is not True:
                rep("checked", "%s is called although MPI may be finalised" % fn, "fin")
            self.upd(st, ("checked",))
        if fn == "MPI_Comm_dup" and root(args[1]) == ("g", "ARMCI_GROUP_WORLD") and not self.its(st, "dup"):
            self.sites["world"].add(at)
            self.upd(st, ("dup",))
            if args[0] != self.a[self.cm]:
                rep("world", "the communicator duplicated is not the one given", "arg")
        if fn == "pthread_create":
            self.sites["progress"].add(at)
            if st.decide(cmp_term("eq", self.gs(eng, st, "progress_thread"), ("c", 0))) is not False:
                rep("progress", "the progress thread is started although it may not be asked for", "unasked")
            if not self.its(st, "dup"):
                rep("progress", "the progress thread is started before there is a communicator", "early")
            if st.decide(cmp_term("eq", eng.rd(st, args[3]), ("c", 0))) is not False:
                rep("progress", "the progress thread starts with its flag still telling it to stop", "flag")
            self.flag = args[3]
            self.upd(st, ("thread",))
        elif self.its(st, "thread") and fn in ("MPI_Op_create", "MPI_Comm_dup"):
            rep("progress", "%s is called while the progress thread already runs" % fn, fn)

    def load(self, eng, st, ins, addr, val, ctx):
        if root(addr) == ("g", "ARMCI_GROUP_WORLD") and not self.its(st, "dup"):
            eng.report("world", ins, "the world group is used before it has a communicator", st, ctx, key="early")
        n = gs_name(self.m, addr)
        if n is not None and ins.fn.name in self.users:
            self.upd(st, ("used", n, ins.fn.name))
            self.sites["settings"].add("%s in %s" % (n, ins.fn.name))

    def store(self, eng, st, ins, addr, val, ctx):
        n = gs_name(self.m, addr)
        if n is None:
            return
        for x in self.its(st, "used"):
            if x[1] == n and x[2] != ins.fn.name and n != "init_count":
                eng.report("settings", ins, "%s is set after %s has used it" % (n, x[2]), st, ctx, key=n)
        if self.its(st, "thread"):
            eng.report("progress", ins, "%s is set while the progress thread already runs" % n, st, ctx, key=n)

    def exit(self, eng, st, fn, ret):
        if not self.its(st, "checked"):
            return
        rep = lambda rule, msg, key: eng.report(rule, None, msg, st, 0, key=key, fn=fn)
        lv = self.its(st, "level")
        if not lv or st.decide(cmp_term("slt", lv[0][1], self.a[self.lv])) is not False:
            rep("checked", "the library comes up although MPI may provide less than the thread level requested", "level")
        if self.gs(eng, st, "thread_level") != self.a[self.lv]:
            rep("checked", "the thread level in force is not the one requested", "force")
        if not self.its(st, "dup"):
            rep("world", "the library comes up without a communicator of its own", "none")
        else:
            w = self.world(eng, st)
            if not (w[0] == "out" and w[1] == "MPI_Comm_dup"):
                rep("world", "the world group's communicator is not the duplicate", "dup")
            for f in ("comm", "rank", "size"):
                if self.world(eng, st, f) != self.world(eng, st, f, "ARMCI_GROUP_DEFAULT"):
                    rep("world", "the default group is not the world group", "default")
                    break
        p = self.gs(eng, st, "progress_thread")
        if not self.its(st, "thread") and st.decide(cmp_term("eq", p, ("c", 0))) is not True:
            rep("progress", "the progress thread may be asked for and is not started", "missing")


class Down(Monitor):
    name = "down"

    def __init__(self, m, flag):
        self.m, self.flag = m, flag
        self.sites = {k: set() for k in RULES}

    def collect(self):
        return {k: sorted(v) for k, v in self.sites.items()}

    its, upd, gs, world = Ev.its, Ev.upd, Ev.gs, Ev.world

    def start(self, eng, st, entry):
        st.mon[self.name] = frozenset()
        self.comm = self.world(eng, st)

    def call(self, eng, st, ins, fn, args, ctx):
        at = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        rep = lambda rule, msg, key: eng.report(rule, ins, msg, st, ctx, key=key)
        if fn == "pthread_join":
            self.sites["progress"].add(at)
            if self.flag is not None and eng.rd(st, self.flag) != ("c", 0):
                rep("progress", "the progress thread is waited for without having been told to stop", "flag")
            if st.decide(cmp_term("eq", self.gs(eng, st, "progress_thread"), ("c", 0))) is not False:
                rep("progress", "a progress thread is waited for that may not have been started", "unasked")
            self.upd(st, ("joined",))
        elif fn in ("MPI_Win_free", "MPI_Comm_free", "MPI_Op_free", "MPI_Win_unlock_all"):
            if not self.its(st, "joined") and st.decide(cmp_term("eq", self.gs(eng, st, "progress_thread"), ("c", 0))) is not True:
                rep("progress", "%s is called while the progress thread may still run" % fn, "late")
            self.sites["teardown"].add(at)
            gone = self.its(st, "gone")
            if fn == "MPI_Comm_free" and eng.rd(st, args[0]) == self.comm:
                self.upd(st, ("gone",))
                lst = eng.rd(st, ("g", "gmr_list"))
                if st.decide(cmp_term("eq", lst, ("c", 0))) is not True:
                    rep("teardown", "the world communicator is given up while allocations may be left", "left")
            elif gone and fn.startswith("MPI_Win"):
                rep("teardown", "%s is called after the world communicator was given up" % fn, "after")
        elif self.its(st, "gone") and self.comm in args:
            rep("teardown", "%s uses the world communicator after it was given up" % fn, "use")

    def exit(self, eng, st, fn, ret):
        n = self.gs(eng, st, "init_count")
        if n == ("c", 0) and not self.its(st, "gone"):
            eng.report("teardown", None, "the library goes down and keeps its communicator", st, 0, key="kept", fn=fn)


class Pass(Monitor):
    name = "pass"

    def __init__(self, target, want):
        self.t, self.want = target, want

    def start(self, eng, st, entry):
        st.mon[self.name] = ()
        self.a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]

    def call(self, eng, st, ins, fn, args, ctx):
        if fn == self.t:
            w = [self.a[x] if isinstance(x, int) else x for x in self.want]
            for k, what in enumerate(("thread level", "communicator")):
                if args[k] != w[k]:
                    eng.report("same", ins, "another %s is passed on than this way of initialising stands for" % what, st, ctx, key=what)
            st.mon[self.name] += (("call", fn, eng.ins_uid(ins), ctx),)

    def exit(self, eng, st, fn, ret):
        c = st.mon[self.name]
        if len(c) != 1:
            eng.report("same", None, "the library is initialised %d times in one call" % len(c), st, 0, key="n", fn=fn)
        elif ret != c[0]:
            eng.report("same", None, "the result of initialising is not returned", st, 0, key="ret", fn=fn)


class Is(Monitor):
    name = "is"

    def __init__(self, up):
        self.up = up

    def exit(self, eng, st, fn, ret):
        z = st.decide(cmp_term("eq", ret, ("c", 0)))
        if z is not (not self.up):
            eng.report("same", None, "the library says it is %sinitialised when it is%s" % ("" if not self.up else "not ", "" if self.up else " not"), st, 0, key=str(self.up), fn=fn)


def run(c):
    for k, v in RULES.items():
        c.rule(k, v)
    m = c.m
    g = graph(m)
    noret = {n for n in g if n.endswith("Assert_fail") or n.endswith("Error")}
    users = set()
    for n in g:
        if n.startswith(PUBLIC) and "Init" not in n and "Finalize" not in n and n in m.funcs and m.funcs[n].linkage != "internal" and not n.startswith(("ARMCII_Getenv", "ARMCII_Warning")):
            users |= reach(g, n, noret)
    def live(eng, st, args):
        st.assume(cmp_term("eq", Down(m, None).world(eng, st), ("g", "ompi_mpi_comm_null")), False)
    I = "PARMCI_Init_thread_comm"
    c.need(I in m.funcs and len(m.funcs[I].params) == 2, "the initialisation entry is not found")
    kw = dict(base.KW, soft=2, hard=4, limit=6)
    res = c.explore([I], lambda e: [Ev(m, users, 0, 1)], kw=kw, setup=lambda e: pin(init_count=0))
    flag = None
    for r in res:
        x = r["extra"]["ev"]
        flag = x["flag"] or flag
        for k, ss in x["sites"].items():
            c.inst(k, *ss)
    res = c.explore(["PARMCI_Finalize"], lambda e: [Down(m, flag)], kw=kw, setup=lambda e: both(pin(init_count=1), live))
    for r in res:
        for k, ss in r["extra"]["down"].items():
            c.inst(k, *ss)
    W = ("g", "ompi_mpi_comm_world")
    for e, want in (("PARMCI_Init", (("c", 0), W)), ("PARMCI_Init_args", (("c", 0), W)), ("PARMCI_Init_thread", (0, W)), ("PARMCI_Init_mpi_comm", (("c", 0), 0))):
        c.explore([e], lambda _: [Pass(I, want)], kw=dict(opaque=(I,), fold=False))
        c.inst("same", e)
    for n in (0, 1, 2):
        c.explore(["PARMCI_Initialized"], lambda _: [Is(n > 0)], kw=dict(fold=False), setup=lambda e: pin(init_count=n))
        c.inst("same", "initialised %d times" % n)
    c.floor("checked", 1)
    c.floor("same", 4)
