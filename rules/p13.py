"""Mutual exclusion by queueing: the exchange of waiting marks, who waits, who is notified, how the mutexes are made."""
import base
from interp import Monitor, subterms, cmp_term, add, lin, mk, subst
from fill import Fill, SYM
from mpi import RMA
from target import Target, group_shape, unold

EXPLANATION = ("Path-sensitive analysis of locking, unlocking and creating mutexes: the bytes exchanged with the mutex's home in one exclusive epoch, "
               "the decision to wait or to notify as a function of the bytes read, for an arbitrary number of processes, and the agreement of the notification sent with the one awaited.")
ASSUMPTIONS = ["MPI delivers messages and isolates exclusive epochs as the MPI standard says", "the translation of ranks is right (property P14)",
               "a process does not wait for a mutex it holds, and unlocks only what it locked"]
RULES = ("exchange", "wait", "notify", "agree", "created", "forward")
BYTES = (("g", "ompi_mpi_byte"), ("g", "ompi_mpi_char"))
EXCL = ("c", 1)


def mutex_shape(m):
    for t in m.fields:
        if "windows" in m.fields[t] and "max_count" in m.fields[t]:
            f = m.fields[t]
            return t, {n: f.index(n) for n in f}
    return None, None


def holds(cond, v, val):
    """truth of a condition on the single unknown v when v == val; None if it is not about v alone"""
    if cond == v:
        return val != 0
    if cond[0] != "b":
        return None
    _, ng, kind, L, c = cond
    if L == v:
        x = val
    elif L[0] == "lin" and len(L[2]) == 1 and L[2][0][0] == v:
        x = L[1] + val * L[2][0][1]
    else:
        return None
    r = x == c if kind == "eq" else x < c
    return r != ng


class Queue(Monitor):
    """what: lock | unlock; hdl: the handle's value, or None to take it from the window used"""
    name = "q"

    def __init__(self, m, what, mutex, proc, hdl=None):
        self.m, self.what, self.pm, self.pp, self.ph = m, what, mutex, proc, hdl
        self.T, self.F = mutex_shape(m)
        self.fill = Fill("chk")
        self.sites, self.facts, self.handles, self.msgs = {"exchange": set(), "wait": set(), "notify": set()}, set(), set(), set()
        self.low, self.seen, self.first, self.modes = None, False, set(), set()

    def collect(self):
        return dict(sites={k: sorted(v) for k, v in self.sites.items()}, handles=sorted(self.handles, key=repr), msgs=sorted(self.msgs, key=repr), seen=self.seen)

    def start(self, eng, st, entry):
        a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        self.mutex, self.proc, self.H = a[self.pm], a[self.pp], (a[self.ph] if self.ph is not None else None)
        self.entry = entry
        self.tg = Target((), self.pp)
        self.tg.start(eng, st, entry)
        st.mon.pop("tgt", None)
        st.mon[self.name] = frozenset()

    # ---- terms
    def window(self, W):
        """the handle whose window number `mutex` W is, or None"""
        W = unold(W)
        if W[0] != "ld" or W[1][0] != "idx" or W[1][2] != self.mutex:
            return None
        b = W[1][1]
        return b[1][1] if b[0] == "ld" and b[1][0] == "fld" and b[1][2] == self.T and b[1][3] == self.F["windows"] else None

    def group(self, H):
        return ("fld", H, self.T, self.F["grp"])

    def comm(self, H):
        g, gs = self.group(H), group_shape(self.m)
        t = [x for x in self.m.fields if "grp_to_abs" in self.m.fields[x]][0]
        return ("ld", ("fld", g, t, gs["comm"]))

    def me(self, H):
        return ("pure", "MPI_Comm_rank", self.comm(H))

    def n(self, H):
        return ("pure", "MPI_Comm_size", self.comm(H))

    def its(self, st, tag):
        return [x for x in st.mon[self.name] if x[0] == tag]

    def put(self, st, *add_, rem=()):
        st.mon[self.name] = (st.mon[self.name] - frozenset(rem)) | frozenset(add_)

    # ---- the exchange
    def call(self, eng, st, ins, fn, args, ctx):
        rep = lambda rule, msg, key: eng.report(rule, ins, msg, st, ctx, key=key)
        if fn in ("MPI_Comm_rank", "MPI_Comm_size"):
            me, n = ("pure", "MPI_Comm_rank", args[0]), ("pure", "MPI_Comm_size", args[0])
            for k in (cmp_term("sge", me, ("c", 0)), cmp_term("sge", n, ("c", 1)), cmp_term("slt", me, n)):
                st.assume(k, True)
            return
        if fn == "MPI_Win_lock":
            H = self.window(args[3])
            if H is None or self.H is not None and H != self.H:
                return rep("exchange", "the epoch is not on the window of the mutex named", "win")
            self.handles.add(H)
            self.sites["exchange"].add("%s:%s" % (ins.fn.name, ins.line))
            if args[0] != EXCL:
                rep("exchange", "the bytes are exchanged in an epoch that does not exclude others", "shared")
            if self.tg.rank_ok(st, args[1], self.group(H), self.proc) is False:
                rep("exchange", "the epoch is not with the process named, as a rank of the mutex's group", "rank")
            if self.its(st, "ep"):
                rep("exchange", "the exchange is split over two epochs", "split")
            self.put(st, ("ep", 1, H, args[3], args[1]), rem=self.its(st, "ep"))
            return
        if fn in ("MPI_Win_lock_all", "MPI_Win_unlock_all"):
            return rep("exchange", "the bytes are exchanged in an epoch that does not exclude others", "shared")
        ep = self.its(st, "ep")
        if fn == "MPI_Win_unlock":
            if not ep or ep[0][1] != 1:
                return rep("exchange", "an epoch is closed that is not open", "noep")
            if (args[1], args[0]) != (ep[0][3], ep[0][4]):
                rep("exchange", "another epoch is closed than was opened", "close")
            self.gets(eng, st, ins, ctx, ep[0], rep)
            self.put(st, ("ep", 2) + ep[0][2:], rem=ep)
            return
        if fn in RMA:
            d = RMA[fn]
            if not ep or ep[0][1] != 1:
                return rep("exchange", "%s is issued outside the exclusive epoch" % fn, "outside")
            _, _, H, W, R = ep[0]
            me = self.me(H)
            if args[d["win"]] != W or args[d["rank"]] != R:
                rep("exchange", "%s is directed elsewhere than the epoch" % fn, "elsewhere")
            if d["kind"] == "put":
                one = args[d["oc"]] == ("c", 1) == args[d["tc"]] and args[d["ot"]] in BYTES and args[d["tt"]] in BYTES
                if not one or args[d["disp"]] != me:
                    rep("exchange", "the mark written is not the byte of the calling process", "mark")
                v = eng.rd(st, args[d["o"]])
                if v != ("c", 1 if self.what == "lock" else 0):
                    rep("exchange", "the mark written does not say that the process %s" % ("wants the mutex" if self.what == "lock" else "is done with the mutex"), "value")
                if self.its(st, "put"):
                    rep("exchange", "the mark is written twice", "twice")
                self.put(st, ("put",))
            elif d["kind"] == "get":
                if args[d["rt"]] not in BYTES or args[d["tt"]] not in BYTES or args[d["rc"]] != args[d["tc"]]:
                    rep("exchange", "the bytes read are not counted alike", "type")
                r, lo, n = args[d["r"]], args[d["disp"]], args[d["tc"]]
                b = self.minus(eng, r, lo)
                self.put(st, ("get", b, lo, n))
                if b is not None:
                    a = eng.index(b, me, 1)
                    own = eng.rd(st, a)
                    eng.havoc_obj(st, b, ins, ctx)
                    for k in list(st.mem):
                        if k[0] in ("idx",) and k[1] == b and k != a:
                            del st.mem[k]
                    st.mem[a] = own
            else:
                rep("exchange", "%s is used" % fn, fn)
            return
        if fn in ("MPI_Recv", "MPI_Send", "MPI_Ssend", "MPI_Isend", "MPI_Irecv", "MPI_Bsend", "MPI_Rsend"):
            self.settle(st)
            rule = "wait" if self.what == "lock" else "notify"
            self.sites[rule].add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            if fn not in (("MPI_Recv",) if self.what == "lock" else ("MPI_Send", "MPI_Ssend")):
                return rep(rule, "%s is used" % fn, fn)
            if not ep or ep[0][1] != 2:
                return rep(rule, "the process %s before the exchange is complete" % ("waits" if self.what == "lock" else "notifies"), "early")
            H = ep[0][2]
            n, ty, peer, tag, comm = args[1:6]
            if comm != self.comm(H):
                rep(rule, "the notification does not use the mutexes' own communicator", "comm")
            if any(x[0] in ("msg",) for x in st.mon[self.name]):
                rep(rule, "a second notification is %s" % ("awaited" if self.what == "lock" else "sent"), "second")
            self.put(st, ("msg",))
            self.msgs.add((self.norm(tag, H), n, ty))
            if self.what == "lock":
                if peer != ("c", -1):
                    rep(rule, "only a notification from a particular process is awaited", "peer")
                if self.seen and not self.its(st, "set"):
                    rep(rule, "the process waits although nobody else may hold the mutex", "nobody")
            else:
                self.send(eng, st, H, peer, rep)

    def send(self, eng, st, H, peer, rep):
        if not self.its(st, "get") and st.decide(cmp_term("sle", self.n(H), ("c", 1))) is True:
            return          # a single process: no path of the program, the search ends before it starts
        if not self.its(st, "set"):
            return rep("notify", "a process is notified that is not known to wait", "nobody") if self.seen else None
        hit = [x for x in self.its(st, "set") if x[1] == peer]
        if not hit:
            return rep("notify", "another process is notified than the one found waiting", "peer")
        if hit[0][2] is False:
            rep("notify", "the search for a waiting process does not start with the next one, so a process may be passed over for ever", "fair")

    def fair(self, st, i, H):
        """the search came to element i after looking at the next process first"""
        me, n = self.me(H), self.n(H)
        if self.dist(i, me, n) == ("c", 1) or self.its(st, "next"):
            return True
        if st.decide(cmp_term("sge", add(me, ("c", 1)), n)) is True or st.decide(cmp_term("eq", n, ("c", 2))) is True:
            return True
        return None if any(x[0] in ("join", "hv", "wid", "old") for x in subterms(i)) else False

    def dist(self, i, me, n):
        """i = (me + d) mod n, for a constant or counter d: d, else None"""
        if i[0] == "op" and i[1] in ("srem", "urem") and i[-1] == n:
            i = i[-2]
        d = add(i, me, -1)
        return d if me not in subterms(d) else None

    def minus(self, eng, r, lo):
        """b with &b[lo] == r"""
        b = r[1] if r[0] == "idx" and r[3] == 1 else r
        return b if eng.index(b, lo, 1) == r else None

    def gets(self, eng, st, ins, ctx, ep, rep):
        """the bytes read are exactly those of all other processes"""
        H = ep[2]
        me, n = self.me(H), self.n(H)
        if not self.its(st, "put"):
            rep("exchange", "the process's own mark is not written", "noput")
        left = [(b, lo, c) for _, b, lo, c in self.its(st, "get")]
        want = [(("c", 0), me), (add(me, ("c", 1)), n)]
        if any(b is None for b, _, _ in left) or len({b for b, _, _ in left}) > 1:
            rep("exchange", "a byte read is not stored at its own place", "place")
        for lo, hi in want:
            at = lo
            for _ in range(len(left) + 1):
                if st.decide(cmp_term("sge", at, hi)) is True:
                    break
                nxt = [g for g in left if g[1] == at]
                if not nxt:
                    rep("exchange", "the bytes of some processes %s the caller are not read" % ("before" if hi == me else "after"), "miss" + str(hi == me))
                    break
                left.remove(nxt[0])
                at = add(nxt[0][1], nxt[0][2])
            if at != lo and at != hi and st.decide(cmp_term("sgt", at, hi)) is not False and st.decide(cmp_term("sle", at, hi)) is not True:
                rep("exchange", "bytes are read beyond those of the processes %s the caller" % ("before" if hi == me else "after"), "over" + str(hi == me))
        for b, lo, c in left:
            if st.decide(cmp_term("sle", c, ("c", 0))) is not True:
                rep("exchange", "bytes are read that belong to no other process", "extra")

    # ---- what the bytes say
    def load(self, eng, st, ins, addr, val, ctx):
        for _, b, _, _ in self.its(st, "get"):
            if b is not None and (addr == b or addr[0] == "idx" and addr[1] == b and addr[3] == 1):
                i = ("c", 0) if addr == b else addr[2]
                ep = self.its(st, "ep")
                if ep and val != ("c", 0) and val != ("c", 1):
                    if ep[0][1] != 2:
                        eng.report("exchange", ins, "a byte is looked at before the exchange is complete", st, ctx, key="look")
                    self.put(st, ("val", val, i), rem=[x for x in self.its(st, "val") if x[1] == val])
                return

    def note(self, st, ins, i):
        ep = self.its(st, "ep")
        me, n = self.me(ep[0][2]), self.n(ep[0][2])
        d = self.dist(i, me, n)
        direct = not any(x == me for x in subterms(i))
        j = i if direct or d is None else add(d, ("c", -1))
        self.modes.add("direct" if direct else "dist" if i[0] == "op" else "split")
        c, dd = lin(j)
        if j[0] != "c":
            if any(x[0] in SYM for x in dd):
                self.low = c if self.low is None else min(c, self.low)
        st.mon[self.name] = self.fill.add(st.mon[self.name], j, ins)

    def judge(self, st, i, H):
        e = st.decide(cmp_term("eq", i, self.me(H)))
        if e is None and i[0] == "op":
            e = False if self.dist(i, self.me(H), self.n(H)) is not None else None
        return e

    def branch(self, eng, st, ins, cond, truth, ctx):
        ep = self.its(st, "ep")
        if not ep:
            return
        H = ep[0][2]
        x, y = st.bounds(self.me(H)), st.bounds(add(self.me(H), self.n(H), -1))
        if x and y:
            if x[1] is not None and y[0] is not None:
                st.assume(cmp_term("sle", self.n(H), ("c", x[1] - y[0])), True)
            if x[0] is not None and y[1] is not None:
                st.assume(cmp_term("sge", self.n(H), ("c", x[0] - y[1])), True)
        for x in self.its(st, "val"):
            a, b = holds(cond, x[1], 0), holds(cond, x[1], 1)
            if a is None:
                continue
            self.seen = True
            if a == b:
                continue
            self.note(st, ins, x[2])
            own = self.judge(st, x[2], H)
            if truth == b and not own:
                if self.what == "unlock":
                    own = False         # the process's own byte was cleared, so this one is another's
                self.put(st, ("nz", x[2]) if own is None else ("set", x[2], self.fair(st, x[2], H)))
            else:
                self.put(st, ("clear", x[2]))
                if self.dist(x[2], self.me(H), self.n(H)) == ("c", 1):
                    self.put(st, ("next",))
        if cond[0] == "b" and cond[2] == "eq" and (truth != cond[1]):
            # something equals something: the element that is the caller's own
            c, d = lin(cond[3])
            me = self.me(H)
            if d.get(me) in (1, -1) and self.its(st, "get"):
                k = d[me]
                rest = mk((c - cond[4]) * -k, {x: y * -k for x, y in d.items() if x != me})
                if rest[0] == "c" or any(x[0] in SYM for x in lin(rest)[1]):
                    self.note(st, ins, rest)
        self.settle(st, False)
        st.mon[self.name] = self.fill.branch(st, st.mon[self.name], ins, truth, [self.n(H)])

    def settle(self, st, final=True):
        ep = self.its(st, "ep")
        for x in self.its(st, "nz"):
            own = self.judge(st, x[1], ep[0][2])
            if own is not None:
                self.put(st, ("clear", x[1]) if own else ("set", x[1], None), rem=[x])
            elif final:
                self.put(st, ("maybe", x[1]), rem=[x])

    def back_edge(self, eng, st, fn, header, ctx, phis):
        self.fill.back_edge(fn, header, phis)
        if self.its(st, "ep"):
            self.settle(st)
            known = {x[1] for x in st.mon[self.name] if x[0] in ("clear", "set", "maybe")}
            for r, v, o in phis:
                for x in self.its(st, "val"):
                    if v == x[1] and x[2] not in known and o is not None and o != ("c", 0):
                        eng.report("wait" if self.what == "lock" else "notify", None, "what a byte says replaces what earlier bytes said", st, ctx, key="replace", fn=fn)
            self.put(st, rem=self.its(st, "val"))

    def rebind(self, eng, st, pairs):
        old = {x[1]: x for v, _ in pairs for x in subterms(v) if x[0] == "old"}
        out = set()
        for x in st.mon[self.name]:
            if x[0] in ("set", "clear", "maybe"):
                i, cache = x[1], {}
                for a, b in old.items():
                    i = subst(i, a, b, cache)
                out.add((x[0], i) + x[2:])
                for v, n in pairs:
                    if v == i:
                        out.add((x[0], n) + x[2:])
            else:
                out.add(x)
        st.mon[self.name] = frozenset(out)

    def exit(self, eng, st, fn, ret):
        rule = "wait" if self.what == "lock" else "notify"
        rep = lambda r, msg, key: eng.report(r, None, msg, st, 0, key=key, fn=fn)
        ep = self.its(st, "ep")
        if not ep or ep[0][1] != 2:
            return rep("exchange", "the function returns without having exchanged the bytes", "none")
        self.settle(st)
        if self.its(st, "msg"):
            return
        H = ep[0][2]
        me, n = self.me(H), self.n(H)
        if self.its(st, "set") or self.its(st, "maybe"):
            return rep(rule, "the function returns although another process %s" % ("holds the mutex or is before it in the queue" if self.what == "lock" else "waits"), "lost")
        if not self.its(st, "get") or not self.seen or "split" in self.modes or len(self.modes) > 1:
            return
        w = self.fill.owed(st, st.mon[self.name], n if self.modes == {"direct"} else add(n, ("c", -1)))
        if w:
            rep(rule, "not every other process's byte is looked at: the search " + w, "cover")

    def finish(self, eng):
        if self.fill.short and len(self.modes) == 1 and "split" not in self.modes:
            c = self.low or 0
            if self.fill.short[0] > (c if self.modes == {"direct"} else c + 1):
                eng.report("wait" if self.what == "lock" else "notify", self.fill.short[1], "the search stops before the last process's byte", key="short")

    def norm(self, t, H):
        a = {("arg", self.pm): "mutex"}
        f = lambda x: ("arg", "mutex") if x == self.mutex else ("arg", "proc") if x == self.proc else ("arg", "hdl") if x == H else \
            tuple(f(y) if isinstance(y, tuple) else y for y in x)
        return f(t)


class Made(Monitor):
    """creation: one zeroed byte per process for every mutex, a window over it for every mutex of any process"""
    name = "made"

    def __init__(self, m):
        self.m = m
        self.T, self.F = mutex_shape(m)
        self.fill = Fill("win")
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        self.count = a[0]
        st.mon[self.name] = frozenset()

    def get(self, st, k):
        return [x for x in st.mon[self.name] if x[0] == k]

    def put(self, st, x):
        st.mon[self.name] = frozenset(y for y in st.mon[self.name] if y[0] != x[0]) | {x}

    def call(self, eng, st, ins, fn, args, ctx):
        rep = lambda msg, key: eng.report("created", ins, msg, st, ctx, key=key)
        if fn == "MPI_Allreduce" and args[3] == ("g", "ompi_mpi_int"):
            if args[0] != ("c", 1) and eng.rd(st, args[0]) == self.count:
                if args[4] != ("g", "ompi_mpi_op_max"):
                    rep("the number of mutexes is not the largest any process asked for", "max")
                self.put(st, ("n", ("out", fn, eng.ins_uid(ins), 1, ctx), args[5]))
                # the engine names the result by the output position
                self.out = (fn, eng.ins_uid(ins), ctx)
        elif fn == "MPI_Alloc_mem":
            self.put(st, ("mem", args[0], args[2], False))
        elif fn in ("memset", "llvm.memset.p0.i64"):
            for x in self.get(st, "mem"):
                if args[0] == eng.rd(st, x[2]):
                    if args[1] == ("c", 0) and st.decide(cmp_term("sge", args[2], x[1])) is True:
                        self.put(st, x[:3] + (True,))
        elif fn in ("MPI_Win_create", "MPI_Win_allocate"):
            self.win(eng, st, ins, args, ctx, rep)

    def win(self, eng, st, ins, args, ctx, rep):
        self.sites.add("%s:%s" % (ins.fn.name, ins.line))
        base_, size, unit, _, comm, w = args
        n = ("pure", "MPI_Comm_size", comm)
        i = self.slot(eng, st, w)
        nn = self.get(st, "n")
        if nn and nn[0][2] != comm:
            rep("the windows are made over other processes than agreed on their number", "comm")
        if not (comm[0] == "out" and comm[1] in ("MPI_Comm_dup", "MPI_Comm_create", "MPI_Comm_split")):
            rep("the mutexes do not have a communicator of their own", "own")
        if unit != ("c", 1):
            rep("displacements are not in bytes", "unit")
        if i is None:
            return rep("the window is not kept with the handle", "slot")
        st.mon[self.name] = self.fill.add(st.mon[self.name], i, ins)
        own = st.decide(cmp_term("slt", i, self.count))
        mem = self.get(st, "mem")
        if own is not False:
            if not mem or base_ != eng.rd(st, mem[0][2]):
                return rep("a mutex of the calling process has no memory", "nomem")
            vague = any(x[0] in ("join", "phi", "wid", "hv") for v in (size, mem[0][1]) for x in subterms(v))
            if not vague and st.decide(cmp_term("sge", mem[0][1], n)) is not True or not vague and size != n and st.decide(cmp_term("sge", size, n)) is not True:
                rep("a mutex has fewer bytes than there are processes", "bytes")
            if not mem[0][3] and not vague:
                rep("the bytes of a new mutex are not cleared before others can reach them", "clear")
            self.put(st, ("mem", ("c", 0), ("c", 0), False))

    def slot(self, eng, st, w):
        for k, v in st.mem.items():
            if k[0] == "fld" and k[2] == self.T and k[3] == self.F["windows"]:
                if w == v:
                    return ("c", 0)
                if w[0] == "idx" and w[1] == v:
                    return w[2]
        return None

    def branch(self, eng, st, ins, cond, truth, ctx):
        for x in self.get(st, "n"):
            st.mon[self.name] = self.fill.branch(st, st.mon[self.name], ins, truth, [self.nval(st)])

    def nval(self, st):
        return ("out",) + (self.out[0], self.out[1], self.order(st), self.out[2])

    def order(self, st):
        return 1

    def exit(self, eng, st, fn, ret):
        rep = lambda msg, key: eng.report("created", None, msg, st, 0, key=key, fn=fn)
        if ret is None or ret[0] != "call":
            return
        H = ret
        for nm in ("my_count", "max_count"):
            v = eng.rd(st, ("fld", H, self.T, self.F[nm]))
            if nm == "my_count" and v != self.count:
                rep("the handle does not record the calling process's number of mutexes", nm)
            if nm == "max_count" and not (v[0] == "out" and v[1:3] == self.out[:2]):
                rep("the handle does not record the number of windows", nm)
            mx = v
        w = self.fill.owed(st, st.mon[self.name], mx)
        if w:
            rep("not every mutex has a window: the array of windows " + w, "cover")

    def finish(self, eng):
        if self.fill.short:
            eng.report("created", self.fill.short[1], "windows are made for all but the last %d mutexes" % self.fill.short[0], key="short")


def run(c):
    m = c.m
    c.rule("exchange", "locking and unlocking exchange the process's own mark for all others' marks in one exclusive epoch on the mutex named, at the process named")
    c.rule("wait", "a process waits for exactly one notification if and only if another process's mark is set, looking at all of them")
    c.rule("notify", "unlocking notifies exactly one waiting process if there is any, searching from the next process on")
    c.rule("agree", "the notification sent is the one awaited: same communicator, same tag, length that fits")
    c.rule("created", "every mutex gets one cleared byte per process at its home, and a window of its own over the group's own communicator")
    c.rule("forward", "the default mutexes are operated through the handle that creating them stored")
    T, F = mutex_shape(m)
    c.need(T is not None, "no mutex handle type found")
    kw = dict(budget=60000, fold=False)
    roles = {"ARMCIX_Lock_hdl": ("lock", 1, 2, 0), "ARMCIX_Trylock_hdl": ("lock", 1, 2, 0), "ARMCIX_Unlock_hdl": ("unlock", 1, 2, 0),
             "PARMCI_Lock": ("lock", 0, 1, None), "PARMCI_Unlock": ("unlock", 0, 1, None)}
    res = c.explore(list(roles), lambda e: [Queue(m, *roles[e])], kw=kw)
    by = {}
    for r in res:
        x = r["extra"]["q"]
        for rule, ss in x["sites"].items():
            for s in ss:
                c.inst(rule, r["entry"] + " " + s)
        by[r["entry"]] = x
    for a, b in (("ARMCIX_Lock_hdl", "ARMCIX_Unlock_hdl"), ("PARMCI_Lock", "PARMCI_Unlock")):
        x, y = by[a]["msgs"], by[b]["msgs"]
        for s in y:
            c.inst("agree", "%s/%s" % (a, b))
            for r in x:
                if s[0] != r[0]:
                    c.fail("agree", "the tag of the notification sent is not the tag awaited", fn=m.funcs[m.resolve(b)], entry=b, key="tag")
                if s[2] != r[2] or s[1] != r[1] and not (s[1][0] == r[1][0] == "c" and s[1][1] <= r[1][1]):
                    c.fail("agree", "the notification sent does not fit the one awaited", fn=m.funcs[m.resolve(b)], entry=b, key="len")
    hs = {h for e in ("PARMCI_Lock", "PARMCI_Unlock") for h in by[e]["handles"]}
    if len(hs) > 1:
        c.fail("forward", "locking and unlocking use different mutexes", fn=m.funcs["PARMCI_Unlock"], entry="PARMCI_Unlock", key="two")
    hs = [h[1] for h in hs if h[0] == "ld"]
    for r in c.explore(["ARMCIX_Create_mutexes_hdl"], lambda e: [Made(m)], kw=kw):
        for s in r["extra"]["made"]:
            c.inst("created", s)

    class Kept(Monitor):
        name = "kept"

        def __init__(self, what):
            self.what = what

        def start(self, eng, st, entry):
            st.mon[self.name] = 0

        def exit(self, eng, st, fn, ret):
            for g in hs:
                v = eng.rd(st, g)
                if self.what == "create" and v[0] != "call":
                    eng.report("forward", None, "the mutexes created are not the ones that are locked", st, 0, key="kept", fn=fn)
                if self.what == "destroy" and v != ("c", 0):
                    eng.report("forward", None, "the mutexes destroyed are still used by a later lock", st, 0, key="gone", fn=fn)
    for e, w in (("PARMCI_Create_mutexes", "create"), ("PARMCI_Destroy_mutexes", "destroy")):
        for r in c.explore([e], lambda _: [Kept(w)], kw=dict(kw, fold=True)):
            c.inst("forward", e)
    c.floor("exchange", 4)
    c.floor("created", 1)
    c.floor("forward", 2)
