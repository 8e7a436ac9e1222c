"""Life of an allocation: creation, registration, lookup, release."""
from interp import Monitor, subterms, cmp_term, add, scale, show
from regions import shape, HEAD
from rma import unold
from target import group_shape, comm_owner, WORLD, VAGUE
from fill import Fill

RANKS = ("MPI_Comm_rank",)


def deold(v, cache=None):
    """forget which generation of memory a value was read from"""
    if not isinstance(v, tuple) or not v:
        return v
    while v and v[0] == "old":
        v = v[1]
    n = tuple(deold(x) if isinstance(x, tuple) else x for x in v)
    if n and n[0] == "hv" and len(n) > 1 and isinstance(n[1], tuple):
        return ("ld", n[1])
    return n


def vague(v):
    return any(x[0] in VAGUE for x in subterms(v))


def slice_type(m):
    for t, fs in m.fields.items():
        if "base" in fs and "size" in fs and t in m.types:
            return t, fs.index("base"), fs.index("size"), m.sizeof(t)
    return None


class Base(Monitor):
    def __init__(self):
        self.sites = {}

    def collect(self):
        return {k: sorted(v) for k, v in self.sites.items()}

    def site(self, rule, ins):
        self.sites.setdefault(rule, set()).add("%s:%s" % (ins.fn.name, ins.line))

    def prep(self, eng, st, entry):
        self.eng, self.sh, self.gs = eng, shape(eng), group_shape(eng.m)
        self.A = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        st.mon[self.name] = frozenset()

    def put(self, st, *xs):
        st.mon[self.name] = st.mon[self.name] | frozenset(xs)

    def drop(self, st, *xs):
        st.mon[self.name] = st.mon[self.name] - frozenset(xs)

    def its(self, st, tag):
        return [x for x in st.mon[self.name] if x[0] == tag]

    def out(self, ins, fn, k, ctx):
        """the value an external call leaves behind its k-th argument"""
        return ("out", fn, self.eng.ins_uid(ins), k, ctx)

    def owner(self, c):
        return comm_owner(self.gs, c)

    def sizes(self, group):
        """terms for the number of processes in a group"""
        out = []
        for t in self.eng.m.fields:
            if "grp_to_abs" in self.eng.m.fields[t]:
                out += [("ld", ("fld", group, t, self.gs["size"])), ("pure", "MPI_Comm_size", ("ld", ("fld", group, t, self.gs["comm"])))]
        if group == WORLD:
            out.append(("pure", "MPI_Comm_size", ("ld", WORLD)))
        return out

    def ranks(self, group):
        out = []
        for t in self.eng.m.fields:
            if "grp_to_abs" in self.eng.m.fields[t]:
                out += [("ld", ("fld", group, t, self.gs["rank"])), ("pure", "MPI_Comm_rank", ("ld", ("fld", group, t, self.gs["comm"])))]
        if group == WORLD:
            out.append(("pure", "MPI_Comm_rank", ("ld", WORLD)))
        return out


class Create(Base):
    """base_ptrs, size, group: positions of the arguments (group None: the world group)"""
    name = "create"

    def __init__(self, bp, size, group, zero=None):
        Base.__init__(self)
        self.k = (bp, size, group)
        self.zero = zero
        self.fill = Fill("f")
        self.slots = Fill("s")
        self.direct = set()

    def start(self, eng, st, entry):
        self.prep(eng, st, entry)
        b, s, g = self.k
        self.bp, self.size, self.group = self.A[b], self.A[s], WORLD if g is None else self.A[g]
        self.sl = slice_type(eng.m)
        # a group has members
        for n in self.sizes(self.group):
            st.assume(cmp_term("sge", n, ("c", 1)), True)

    def same(self, st, v):
        return unold(v) == self.size or st.decide(cmp_term("eq", v, self.size)) is True

    def window(self, eng, st, ins, fn, args, ctx):
        if fn == "MPI_Win_create":
            base, size, du, comm, wp = args[0], args[1], args[2], args[4], args[5]
        else:
            base, size, du, comm, wp = None, args[0], args[1], args[3], args[5]
        self.site("window-extent", ins)

        def rep(msg, k):
            eng.report("window-extent", ins, msg, st, ctx, key=k)
        if not self.same(st, size) and not vague(size):
            rep("the window covers %s bytes, not the number the caller asked for" % show(size, eng.m), "size")
        if du != ("c", 1) and not vague(du):
            rep("the window's displacement unit is %s, but displacements are in bytes" % show(du, eng.m), "unit")
        o = self.owner(comm)
        if o is not None and o != self.group:
            rep("the window is created on another group's communicator", "comm")
        if base is not None:
            base = unold(base)
            if base == ("c", 0):
                if st.decide(cmp_term("eq", self.size, ("c", 0))) is not True:
                    rep("the window has no memory although the caller asked for some", "null")
            else:
                mem = [x for x in self.its(st, "mem") if x[1] == base]
                if mem and not (self.same(st, mem[0][2]) or st.decide(cmp_term("sge", mem[0][2], self.size)) is True) and not vague(mem[0][2]):
                    rep("the window's memory has %s bytes, not the number the caller asked for" % show(mem[0][2], eng.m), "mem")
        self.put(st, ("win", wp, 0), ("base", base if base is not None else ("slot", args[4])))

    def call(self, eng, st, ins, fn, args, ctx):
        if fn == "MPI_Alloc_mem":
            self.put(st, ("mem", self.out(ins, fn, 2, ctx), args[0]))
        elif fn in ("malloc",):
            pass
        elif fn in ("MPI_Win_create", "MPI_Win_allocate", "MPI_Win_allocate_shared"):
            self.window(eng, st, ins, fn, args, ctx)
        elif fn in ("MPI_Win_lock_all", "MPI_Win_unlock_all"):
            for x in self.its(st, "win"):
                if unold(eng.rd(st, x[1])) == unold(args[-1]):
                    self.drop(st, x)
                    self.put(st, ("win", x[1], 1 if fn == "MPI_Win_lock_all" else 0))
                    self.site("window-open", ins)
        elif fn == "MPI_Allreduce":
            v = self.size if args[0] == self.size else eng.rd(st, args[0])
            if unold(v) == self.size and args[4] == ("g", "ompi_mpi_op_max"):
                o = self.owner(args[5])
                if o is None or o == self.group:
                    self.put(st, ("red", self.out(ins, fn, 1, ctx)))
        elif fn in ("MPI_Allgather", "MPI_Iallgather"):
            self.gather(eng, st, ins, args, ctx)
        elif fn == "MPI_Group_translate_ranks":
            a, b = [self.owner(st.mem.get(("gc", args[k]), args[k])) for k in (0, 3)]
            if args[1] == ("c", 1) and (a, b) == (self.group, WORLD):
                self.put(st, ("tr", unold(eng.rd(st, args[2])), args[4]))
        elif (fn.startswith("llvm.memset") or fn == "memset"):
            self.put(st, ("zero", unold(args[0]), args[2]))
            if unold(args[0]) == self.bp and args[1] == ("c", 0):
                self.site("bases-returned", ins)
                n = unold(args[2])
                if vague(n) or any(st.decide(cmp_term("sge", n, scale(k, 8))) is True for k in self.sizes(self.group)):
                    st.mon[self.name] = self.fill.all(st.mon[self.name])
                else:
                    eng.report("bases-returned", ins, "only %s bytes of the result array are set to NULL" % show(n, eng.m), st, ctx, key="part")
        elif fn.startswith("llvm.memcpy") or fn in ("memcpy", "memmove"):
            self.slot(eng, st, ins, args[0], args[1], ctx)

    def gather(self, eng, st, ins, args, ctx):
        o = self.owner(args[6])
        if self.sl is None:
            return
        t, ib, isz, esz = self.sl
        snd, rcv = args[0], args[3]
        if args[1] != ("c", esz) or args[4] != ("c", esz) or snd[0] == "c":
            return
        self.site("bases-exchanged", ins)
        if o is not None and o != self.group:
            eng.report("bases-exchanged", ins, "the bases are exchanged on another group's communicator", st, ctx, key="comm")
        own = unold(eng.rd(st, ("fld", snd, t, ib)))
        osz = unold(eng.rd(st, ("fld", snd, t, isz)))
        for x in self.its(st, "base"):
            b = x[1]
            if b[0] == "slot":
                b = unold(eng.rd(st, b[1]))
            if own != b and not vague(own) and not vague(b) and own[0] in ("out", "c", "call", "arg") and not (own == ("c", 0) and st.decide(cmp_term("eq", self.size, ("c", 0))) is True):
                eng.report("bases-exchanged", ins, "the base told to the other processes is not the base of this process's window", st, ctx, key="base")
            if self.zero and own != ("c", 0):
                z = [y for y in self.its(st, "zero") if y[1] == own]
                ok = any(self.same(st, y[2]) for y in z)
                if not ok and st.decide(cmp_term("eq", self.size, ("c", 0))) is not True and not vague(own):
                    eng.report("debug-zero", ins, "with allocation debugging on, the memory is not zeroed before the other processes learn of it", st, ctx, key="zero")
                self.site("debug-zero", ins)
        if osz[0] != "uninit" and not self.same(st, osz) and not vague(osz):
            eng.report("bases-exchanged", ins, "the size told to the other processes is %s, not this process's size" % show(osz, eng.m), st, ctx, key="size")
        self.put(st, ("all", rcv))

    def branch(self, eng, st, ins, cond, truth, ctx):
        for f in (self.fill, self.slots):
            st.mon[self.name] = f.branch(st, st.mon[self.name], ins, truth, self.sizes(self.group))

    def finish(self, eng):
        for f, rule, what in ((self.fill, "bases-returned", "the loop that fills the caller's array"), (self.slots, "slices-by-rank", "the loop over the members' slices")):
            if f.short:
                eng.report(rule, f.short[1], "%s stops %d short of the group's size" % (what, f.short[0]), key="short")

    # the caller's array
    def store(self, eng, st, ins, addr, val, ctx):
        i = None
        if addr == self.bp:
            i = ("c", 0)
        elif addr[0] == "idx" and addr[1] == self.bp:
            i = addr[2]
        if i is not None:
            self.site("bases-returned", ins)
            st.mon[self.name] = self.fill.add(st.mon[self.name], i, ins)
            v = deold(val)
            al = self.its(st, "all")
            if v == ("c", 0):
                if al and not self.zero_known(eng, st):
                    eng.report("bases-returned", ins, "a process's base address is returned as NULL", st, ctx, key="null")
                return
            if v[0] == "ld" and v[1][0] == "fld" and self.sl and v[1][2] == self.sl[0]:
                e = v[1][1]
                j, b = (e[2], e[1]) if e[0] == "idx" else (("c", 0), e)
                if v[1][3] != self.sl[1]:
                    eng.report("bases-returned", ins, "the value returned is not a base address", st, ctx, key="field")
                elif al and not any(unold(b) == unold(x[1]) for x in al) and not vague(b):
                    eng.report("bases-returned", ins, "the base addresses returned are not those the processes exchanged", st, ctx, key="src")
                elif unold(j) != unold(i) and not (vague(j) and not vague(i)):
                    eng.report("bases-returned", ins, "element %s of the result is the base of process %s" % (show(i, eng.m), show(j, eng.m)), st, ctx, key="idx")
            return
        if addr[0] == "fld" and self.sl and addr[2] == self.sl[0] and unold(val) == ("c", 0) and not root_is_local(addr) and addr[1][0] == "idx" and vague(addr[1][2]):
            self.direct.add(unold(addr[1][1]))          # cleared one by one
        self.slotstore(eng, st, ins, addr, val, ctx)
        self.link(eng, st, ins, addr, val, ctx)

    def slotstore(self, eng, st, ins, addr, val, ctx):
        """slices[world rank].base = ... field by field"""
        if addr[0] == "fld" and self.sl and addr[2] == self.sl[0] and addr[1][0] == "idx":
            v = unold(val)
            if v[0] == "ld" and v[1][0] == "fld" and v[1][2] == addr[2] and v[1][3] == addr[3]:
                self.slot(eng, st, ins, addr[1], v[1][1], ctx)

    def slot(self, eng, st, ins, dst, src, ctx):
        """an exchanged record is copied into the table indexed by absolute rank"""
        al = [unold(x[1]) for x in self.its(st, "all")]
        j, b = (src[2], src[1]) if src[0] == "idx" else (("c", 0), src)
        if unold(b) not in al:
            return
        if dst[0] != "idx" or root_is_local(dst):
            return
        self.site("slices-by-rank", ins)
        st.mon[self.name] = self.slots.add(st.mon[self.name], unold(j), ins)
        r = unold(dst[2])
        for x in self.its(st, "tr"):
            if unold(eng.rd(st, x[2])) == r or (r[0] == "pure" and r[1] == "xlate"):
                pass
        if r[:2] == ("pure", "xlate"):
            a, b2 = self.owner(st.mem.get(("gc", r[2]), r[2])), self.owner(st.mem.get(("gc", r[4]), r[4]))
            if (a, b2) != (self.group, WORLD) and None not in (a, b2):
                eng.report("slices-by-rank", ins, "the table of slices is indexed by ranks of the wrong group", st, ctx, key="dir")
            elif unold(r[3]) != unold(j) and not vague(r[3]) and not vague(j):
                eng.report("slices-by-rank", ins, "the slice of member %s is filed under member %s's absolute rank" % (show(j, eng.m), show(r[3], eng.m)), st, ctx, key="idx")
        elif r == unold(j):
            if self.group != WORLD:
                eng.report("slices-by-rank", ins, "the table of slices is indexed by ranks in the group, not by absolute ranks", st, ctx, key="raw")

    # the list of live allocations
    def link(self, eng, st, ins, addr, val, ctx):
        v = unold(val)
        if not any(self.sh.field(x[1], "window") == v for x in self.its(st, "win")):
            return
        M = v
        if addr == HEAD:
            self.site("registered", ins)
            old = unold(eng.rd(st, HEAD))
            self.put(st, ("link", M, None, old))
        else:
            x = self.sh.field(addr, "next")
            if x is not None and x != M:
                self.site("registered", ins)
                self.put(st, ("link", M, x, unold(eng.rd(st, addr))))
        for w in self.its(st, "win"):
            if not w[2] and self.sh.field(w[1], "window") == M and self.its(st, "link"):
                self.put(st, ("early", ins.line))

    def zero_known(self, eng, st):
        for x in self.its(st, "red"):
            b = st.bounds(x[1])
            if b and b[0] == 0 and b[1] == 0:
                return True
        return False

    def exit(self, eng, st, fn, ret):
        def rep(rule, msg, k):
            eng.report(rule, None, msg, st, 0, key=k, fn=fn)
        wins = self.its(st, "win")
        if not wins:
            if not self.its(st, "red") or not self.zero_known(eng, st):
                rep("window-extent", "returns without a window although some process asked for memory", "none")
        for w in wins:
            if not w[2]:
                rep("window-open", "the call returns with the window not open for access", "open")
            reg = self.sh.field(w[1], "window")
            if reg is not None:
                self.check_link(eng, st, fn, reg, rep)
        ns = [n for n in self.sizes(self.group) if any(n in subterms(L) for L in st.facts)]
        os_ = [self.fill.owed(st, st.mon[self.name], n) for n in ns] or [self.fill.owed(st, st.mon[self.name], ("c", 1))]
        if os_ and all(os_):
            rep("bases-returned", "the caller's array of base addresses %s" % os_[0], "fill")
        if wins and self.slots.consts | ({0} if self.slots.syms else set()):
            for w in wins:
                reg = self.sh.field(w[1], "window")
                if reg is not None:
                    self.emptied(eng, st, reg, rep)
            os_ = [self.slots.owed(st, st.mon[self.name], n) for n in ns]
            if os_ and all(os_):
                rep("slices-by-rank", "the table of slices %s" % os_[0], "fill")

    def emptied(self, eng, st, reg, rep):
        tab = unold(eng.rd(st, ("fld", reg, self.sh.types[0], self.sh.idx["slices"])))
        if vague(tab) or tab[:2] == ("call", "calloc"):
            return
        want = [scale(n, self.sl[3]) for n in self.sizes(WORLD)]
        zs = [x for x in self.its(st, "zero") if x[1] == tab]
        if not any(unold(x[2]) in want or vague(x[2]) for x in zs) and tab not in self.direct:
            rep("slices-by-rank", "the entries of processes outside the group are not cleared", "clear")

    def check_link(self, eng, st, fn, M, rep):
        T = self.sh.types[0]
        nxt, prv = [unold(eng.rd(st, ("fld", M, T, self.sh.idx[k]))) for k in ("next", "prev")]
        ls = self.its(st, "link")
        if not ls:
            return rep("registered", "returns without entering the allocation into the list of live allocations", "nolink")
        for _, m, x, old in ls:
            isnull = old == ("c", 0) or st.decide(cmp_term("eq", old, ("c", 0))) is True
            if x is None:
                if not isnull and deold(nxt) != deold(old):
                    rep("registered", "earlier allocations are dropped from the list", "drop")
                if isnull and st.decide(cmp_term("eq", nxt, ("c", 0))) is not True and not vague(nxt):
                    rep("registered", "the last allocation's forward link is not NULL", "next")
                if prv != ("c", 0):
                    rep("registered", "the first allocation's backward link is not NULL", "prev0")
            else:
                if not isnull and deold(nxt) != deold(old) and not vague(old):
                    rep("registered", "later allocations are dropped from the list", "drop")
                if isnull and st.decide(cmp_term("eq", nxt, ("c", 0))) is not True and not vague(nxt):
                    rep("registered", "the last allocation's forward link is not NULL", "next")
                if deold(prv) != deold(x) and not (vague(prv) and vague(x) and prv != ("c", 0)):
                    rep("registered", "the backward link does not name the predecessor", "prev")


def root_is_local(a):
    while a[0] in ("idx", "fld"):
        a = a[1]
    return a[0] == "al"


class Destroy(Base):
    """ptr (None: no pointer argument), group positions; alloc: is the window's memory allocated by the library apart from the window"""
    name = "destroy"

    def __init__(self, ptr, group, separate):
        Base.__init__(self)
        self.k = (ptr, group)
        self.separate = separate

    def start(self, eng, st, entry):
        self.prep(eng, st, entry)
        p, g = self.k
        self.ptr, self.group = self.A[p], WORLD if g is None else self.A[g]
        self.sl = slice_type(eng.m)

    def regions(self, st):
        return self.its(st, "reg")

    def base_of(self, v):
        """v is the base field of the calling process's slice of a region: the region"""
        v = deold(v)
        if v[0] == "ld" and v[1][0] == "fld" and self.sl and v[1][2] == self.sl[0] and v[1][3] == self.sl[1]:
            e = v[1][1]
            if e[0] == "idx":
                r = self.sh.loaded(e[1], "slices")
                if r is not None and e[2] in self.ranks(WORLD):
                    return r
        return None

    def call(self, eng, st, ins, fn, args, ctx):
        def rep(rule, msg, k):
            eng.report(rule, ins, msg, st, ctx, key=k)
        if fn == "MPI_Allreduce":
            v = unold(eng.rd(st, args[0]))
            null = st.decide(cmp_term("eq", self.ptr, ("c", 0)))
            if args[4] == ("g", "ompi_mpi_op_max") and (v[0] == "c" or v in self.ranks(WORLD) or v in self.ranks(self.group)):
                self.site("free-agreed", ins)
                if null is True and not (v[0] == "c" and v[1] < 0):
                    rep("free-agreed", "a process that passed NULL offers to name the allocation", "null")
                if null is False and v[0] == "c":
                    rep("free-agreed", "a process that passed a pointer does not offer to name the allocation", "ptr")
                o = self.owner(args[5])
                if o is not None and o != self.group:
                    rep("free-agreed", "the processes agree on another group's communicator", "comm")
                self.put(st, ("red", self.out(ins, fn, 1, ctx), v in self.ranks(self.group) and self.group != WORLD))
            return
        if fn == "MPI_Bcast":
            for x in self.its(st, "red"):
                out = x[1]
                root = unold(args[3])
                self.site("free-agreed", ins)
                ok = root[0] == "pure" and self.group in root[2:] and out in root[2:]
                ok = ok or (root[:2] == ("pure", "xlate") and root[3] == out)
                ok = ok or (root == out and (x[2] or self.group == WORLD))
                if not ok and not vague(root):
                    rep("free-agreed", "the allocation's address is broadcast from rank %s, not from the process that was chosen" % show(root, eng.m), "root")
                v = unold(eng.rd(st, args[0]))
                if st.decide(cmp_term("eq", self.ptr, ("c", 0))) is False and v[0] in ("ld", "c", "arg") and v != self.ptr and self.base_of(v) is None:
                    rep("free-agreed", "the process that names the allocation does not send its address in it", "addr")
                self.put(st, ("bc", self.out(ins, fn, 0, ctx), x[1]))
            return
        if fn == "MPI_Win_free":
            r = self.sh.field(args[0], "window")
            if r is None:
                return
            self.site("window-closed", ins)
            if not any(x[1] == deold(r) for x in self.its(st, "closed")):
                rep("window-closed", "the window is freed while it is still open for access", "open")
            self.put(st, ("freed", deold(r)))
            self.which(eng, st, ins, r, ctx)
        elif fn == "MPI_Win_unlock_all":
            r = self.sh.loaded(unold(args[0]), "window")
            if r is not None:
                self.put(st, ("closed", deold(r)))
        elif fn == "MPI_Win_lock_all":
            r = self.sh.loaded(unold(args[1]), "window")
            if r is not None:
                self.drop(st, ("closed", deold(r)))
        elif fn == "MPI_Free_mem":
            r = self.base_of(args[0])
            if r is None:
                return
            self.site("memory-released", ins)
            if not self.separate:
                rep("memory-released", "memory that belongs to the window is released a second time", "twice")
            if ("freed", r) not in st.mon[self.name]:
                rep("memory-released", "the memory is released while the window still uses it", "early")
            if ("rel", r) in st.mon[self.name]:
                rep("memory-released", "the memory is released twice", "again")
            self.put(st, ("rel", r))
        elif fn == "free":
            a = deold(unold(args[0]))
            if ("freed", a) in st.mon[self.name]:
                self.unlinked(eng, st, ins, a, ctx)
                self.put(st, ("gone", a))

    def branch(self, eng, st, ins, cond, truth, ctx):
        if cond[0] == "b" and cond[2] == "eq" and cond[4] == 0 and truth != cond[1]:
            r = self.base_of(cond[3])
            if r is not None:
                self.put(st, ("nomem", r))

    def which(self, eng, st, ins, r, ctx):
        """the region freed is the one the caller named, or the one looked up by the agreed address and process"""
        r = deold(r)
        if r[0] == "pure" and len(r) == 4:
            a, p = r[2], r[3]
            if st.decide(cmp_term("eq", self.ptr, ("c", 0))) is False:
                ok = (a == self.ptr and p in self.ranks(WORLD)) or not st.decide(cmp_term("eq", self.ptr, ("c", 0))) is False
            else:
                ok = any(a == x[1] and p == x[2] for x in self.its(st, "bc"))
            self.site("free-agreed", ins)
            if not ok and not vague(r):
                eng.report("free-agreed", ins, "the allocation freed is looked up by another address or process than the one agreed on", st, ctx, key="which")

    def unlinked(self, eng, st, ins, M, ctx):
        T = self.sh.types[0]
        f = lambda p, k: ("fld", p, T, self.sh.idx[k])
        self.site("unregistered", ins)
        P0, N0 = ("ld", f(M, "prev")), ("ld", f(M, "next"))

        def null(v):
            return True if v == ("c", 0) else st.decide(cmp_term("eq", v, ("c", 0)))

        def find(v):
            """the engine's terms whose plain form is v"""
            return {x for L in st.facts for x in subterms(L) if deold(x) == v} | {v}

        def isnull(v):
            for x in find(v):
                n = null(x)
                if n is not None:
                    return n
            return None

        def content(p, k):
            for a, v in st.mem.items():
                if isinstance(a, tuple) and deold(a) == f(p, k):
                    return deold(unold(v))
            return None

        def rep(msg, k):
            eng.report("unregistered", ins, msg, st, ctx, key=k)
        h = deold(unold(eng.rd(st, HEAD)))
        pn, nn = isnull(P0), isnull(N0)
        if pn is False:
            c = content(P0, "next")
            if c is None or (c != N0 and not vague(c)):
                rep("the freed allocation's predecessor still links to it", "pnext")
        elif h != N0 and not (nn is True and h == ("c", 0)):
            rep("the freed allocation stays first in the list", "head")
        if nn is not True:
            c = content(N0, "prev")
            want = {P0, ("c", 0)} if pn is True else {P0}
            if c is None or (c not in want and not vague(c)):
                rep("the freed allocation's successor still links back to it", "nprev")

    def exit(self, eng, st, fn, ret):
        def rep(rule, msg, k):
            eng.report(rule, None, msg, st, 0, key=k, fn=fn)
        fr = [x[1] for x in self.its(st, "freed")]
        if not fr:
            neg = False
            for x in self.its(st, "red"):
                b = st.bounds(x[1])
                neg = neg or bool(b and b[1] is not None and b[1] < 0)
            if not neg:
                rep("free-agreed", "returns without freeing although some process named an allocation", "skip")
        for r in fr:
            if self.separate and ("rel", r) not in st.mon[self.name] and ("nomem", r) not in st.mon[self.name]:
                    rep("memory-released", "the window is freed but the memory allocated for it is not released", "leak")


class Lookup(Base):
    """which allocation holds an address of a process"""
    name = "lookup"

    def start(self, eng, st, entry):
        self.prep(eng, st, entry)
        ps = [i for i, p in enumerate(entry.params) if p[0] == "ptr"]
        rs = [i for i, p in enumerate(entry.params) if p[0] != "ptr"]
        self.ptr, self.proc = self.A[ps[0]], self.A[rs[0]]
        self.sl = slice_type(eng.m)

    def ends(self, reg):
        t, ib, isz, esz = self.sl
        e = ("idx", ("ld", ("fld", reg, self.sh.types[0], self.sh.idx["slices"])), self.proc, esz)
        b, s = ("ld", ("fld", e, t, ib)), ("ld", ("fld", e, t, isz))
        return b, add(b, s)

    def load(self, eng, st, ins, addr, val, ctx):
        if addr == HEAD:
            self.site("lookup", ins)
            self.put(st, ("head",))
        x = self.sh.field(addr, "next")
        if x is None:
            return
        self.site("lookup", ins)
        self.drop(st, *self.its(st, "way"))
        lo, hi = self.ends(x)
        out = [cmp_term("ult", self.ptr, lo, True), cmp_term("uge", self.ptr, hi, True)]
        t = self.sh.types[0]
        nsl = ("ld", ("fld", x, t, self.sh.idx["nslices"]))
        out.append(cmp_term("sge", self.proc, nsl))
        if not any(st.decide(c) is True for c in out):
            eng.report("lookup", ins, "an allocation is passed over although it may contain the address", st, ctx, key="skip")

    def branch(self, eng, st, ins, cond, truth, ctx):
        """keep the ways through one step of the search apart"""
        w = next((x[1] for x in self.its(st, "way")), ())
        self.drop(st, *self.its(st, "way"))
        self.put(st, ("way", w + ((cond, truth),)))

    def exit(self, eng, st, fn, ret):
        r = unold(ret) if ret is not None else ("c", 0)

        def rep(msg, k):
            eng.report("lookup", None, msg, st, 0, key=k, fn=fn)
        if r == ("c", 0) or st.decide(cmp_term("eq", ret, ("c", 0))) is True:
            if not self.its(st, "head"):
                rep("reports no allocation without searching the list", "none")
            return
        lo, hi = self.ends(r)
        if vague(r) and r[0] not in ("phi", "join"):
            return
        if st.decide(cmp_term("uge", self.ptr, lo, True)) is not True:
            rep("returns an allocation whose slice may begin after the address", "lo")
        if st.decide(cmp_term("ult", self.ptr, hi, True)) is not True:
            rep("returns an allocation whose slice may end before the address", "hi")
