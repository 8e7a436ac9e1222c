"""Ownership of heap blocks, MPI memory and MPI objects obtained during a call."""
from interp import Monitor, subterms, root, cmp_term, show
from rma import unold, has_old
from mpi import RMA, COPY

# routine -> (kind, position of the pointer that receives it; None: the result)
ACQ = {
    "malloc": ("heap", None), "calloc": ("heap", None), "realloc": ("heap", None), "strdup": ("heap", None), "backtrace_symbols": ("heap", None),
    "MPI_Alloc_mem": ("mpi memory", 2),
    "MPI_Type_contiguous": ("datatype", 2), "MPI_Type_vector": ("datatype", 4), "MPI_Type_create_hvector": ("datatype", 4),
    "MPI_Type_indexed": ("datatype", 4), "MPI_Type_create_hindexed": ("datatype", 4), "MPI_Type_create_indexed_block": ("datatype", 4),
    "MPI_Type_create_hindexed_block": ("datatype", 4), "MPI_Type_create_struct": ("datatype", 4), "MPI_Type_create_subarray": ("datatype", 6),
    "MPI_Type_create_resized": ("datatype", 3), "MPI_Type_dup": ("datatype", 1),
    "MPI_Comm_group": ("process group", 1), "MPI_Group_incl": ("process group", 3), "MPI_Group_excl": ("process group", 3),
    "MPI_Group_union": ("process group", 2), "MPI_Group_intersection": ("process group", 2), "MPI_Group_difference": ("process group", 2),
    "MPI_Win_get_group": ("process group", 1),
    "MPI_Comm_dup": ("communicator", 1), "MPI_Comm_create": ("communicator", 2), "MPI_Comm_create_group": ("communicator", 3),
    "MPI_Comm_split": ("communicator", 3), "MPI_Comm_split_type": ("communicator", 4), "MPI_Intercomm_create": ("communicator", 5),
    "MPI_Intercomm_merge": ("communicator", 2),
    "MPI_Info_create": ("info object", 0), "MPI_Info_dup": ("info object", 1), "MPI_Op_create": ("operation", 2),
    "MPI_Win_create": ("window", 5), "MPI_Win_allocate": ("window", 5), "MPI_Win_allocate_shared": ("window", 5),
}
# routine -> (kind, handle passed by address)
REL = {"free": ("heap", False), "MPI_Free_mem": ("mpi memory", False), "MPI_Type_free": ("datatype", True), "MPI_Group_free": ("process group", True),
       "MPI_Comm_free": ("communicator", True), "MPI_Info_free": ("info object", True), "MPI_Op_free": ("operation", True), "MPI_Win_free": ("window", True)}
COMMITTED = {"MPI_Put", "MPI_Get", "MPI_Accumulate", "MPI_Get_accumulate", "MPI_Rput", "MPI_Rget", "MPI_Raccumulate", "MPI_Rget_accumulate", "MPI_Send",
             "MPI_Recv", "MPI_Bcast", "MPI_Isend", "MPI_Irecv", "MPI_Allreduce", "MPI_Allgather"}
LOOP = ("phi", "join", "wid", "hv")


def fresh_kind(v):
    """what routine a value obtained in this call comes from"""
    v = unold(v)
    if v[0] == "call" and v[1] in ACQ and ACQ[v[1]][1] is None:
        return ACQ[v[1]][0]
    if v[0] == "out" and v[1] in ACQ and ACQ[v[1]][1] == v[3]:
        return ACQ[v[1]][0]
    return None


def looping(t):
    return any(x[0] in LOOP for x in subterms(t))


class Res(Monitor):
    """items: ("own", kind, value, location, site)  ("gone", kind, value)  ("null", location)  ("com", value)  ("dead",)"""
    name = "res"

    def __init__(self, objects=False):
        self.sites = {}
        self.objects = objects

    def collect(self):
        return {k: sorted(v) for k, v in self.sites.items()}

    def site(self, rule, ins, fn=""):
        self.sites.setdefault(rule, set()).add("%s:%s %s" % (ins.fn.name, ins.line, fn))

    def start(self, eng, st, entry):
        self.eng, self.f = eng, entry
        st.mon[self.name] = frozenset()

    def its(self, st, tag):
        return [x for x in st.mon[self.name] if x[0] == tag]

    def upd(self, st, add=(), rem=()):
        st.mon[self.name] = (st.mon[self.name] - frozenset(rem)) | frozenset(add)

    def rep(self, rule, ins, msg, st, ctx, key=None, fn=None):
        if not self.its(st, "dead"):
            self.eng.report(rule, ins, msg, st, ctx, key=key, fn=fn)

    # ---- where a value lives
    def block(self, st, addr):
        """the owned block an address lies in"""
        r = unold(root(addr))
        for x in self.its(st, "own"):
            if unold(x[2]) == r:
                return x
        return None

    def outlives(self, st, addr):
        """memory that exists after the call"""
        r = unold(root(addr))
        return r[0] != "al" and self.block(st, addr) is None

    def held(self, st, v):
        """the owned item a value denotes"""
        own = self.its(st, "own")
        for x in own:
            if x[2] == v:
                return x
        v = unold(v)
        if v[0] in ("ld", "hv", "wid") or (v[0] == "join" and isinstance(v[3], tuple)):
            a = v[3] if v[0] == "join" else v[1]
            for x in own:
                if x[3] == a:
                    return x
        return None

    def transfer(self, st, x):
        """ownership passes to something that outlives the call, with everything stored inside"""
        todo = [x]
        while todo:
            x = todo.pop()
            self.upd(st, rem=[x])
            r = unold(x[2])
            todo += [y for y in self.its(st, "own") if y[3] is not None and unold(root(y[3])) == r]

    def place(self, eng, st, v, addr, ins):
        for x in self.its(st, "own"):
            if x[3] == addr and x[2] != v:
                self.upd(st, [x[:3] + (None, x[4])], [x])      # overwritten: no longer found there
        self.upd(st, rem=[y for y in self.its(st, "null") if y[1] == addr])
        if v == ("c", 0) and root(addr)[0] != "al" and self.block(st, addr) is not None and not looping(addr):
            self.upd(st, [("null", addr)])
        for x in self.its(st, "own"):
            if x[2] != v:
                continue
            if self.outlives(st, addr):
                self.site("transfer", ins)
                self.transfer(st, x)
            elif x[3] is None or unold(root(x[3]))[0] == "al":
                self.upd(st, [x[:3] + (addr, x[4])], [x])

    def acquire(self, eng, st, ins, fn, v, addr):
        kind = ACQ[fn][0]
        self.site("acquired", ins, fn)
        where = "%s at %s:%s" % (fn, ins.fn.file.split("/")[-1], ins.line)
        self.upd(st, rem=[x for x in self.its(st, "gone") if x[2] == v] + [("com", v)])
        x = ("own", kind, v, None, where)
        self.upd(st, [x])
        if addr is not None:
            self.place(eng, st, v, addr, ins)

    def store(self, eng, st, ins, addr, val, ctx):
        self.touch(st, ins, addr, "written", ctx)
        self.place(eng, st, val, addr, ins)

    def load(self, eng, st, ins, addr, val, ctx):
        self.touch(st, ins, addr, "read", ctx)

    def touch(self, st, ins, addr, how, ctx):
        g = self.its(st, "gone")
        if g:
            r = root(addr)
            for x in g:
                if x[2] == r:
                    self.rep("use-after-release", ins, "memory is %s after it was released" % how, st, ctx, key=how)

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in REL:
            return self.release(eng, st, ins, fn, args, ctx)
        g = self.its(st, "gone")
        for x in g:
            for k, a in enumerate(args):
                if a == x[2] or (a[0] in ("idx", "fld") and root(a) == x[2]):
                    self.rep("use-after-release", ins, "a %s is passed to %s after it was released" % (x[1], fn), st, ctx, key=fn)
        if fn == "MPI_Type_commit":
            v = eng.rd(st, args[0])
            self.upd(st, [("com", v)])
        elif fn in COMMITTED:
            for x in self.its(st, "own"):
                if x[1] == "datatype" and x[2] in args:
                    self.site("type-committed", ins, fn)
                    if ("com", x[2]) not in st.mon[self.name]:
                        self.rep("type-committed", ins, "the datatype from %s is used by %s without having been committed" % (x[4], fn), st, ctx, key=x[4])
        elif fn == "MPI_Win_create":
            x = self.held(st, args[0])
            if x is not None:
                self.site("transfer", ins)
                self.transfer(st, x)            # lives and dies with the window
        elif fn in COPY:
            self.copied(eng, st, ins, args[0], args[1])
        if fn in ACQ:
            kind, k = ACQ[fn]
            if fn == "realloc" and args[0] != ("c", 0):
                self.release(eng, st, ins, fn, args, ctx)
            uid = eng.ins_uid(ins)
            v = ("call", fn, uid, ctx) if k is None else ("out", fn, uid, k, ctx)
            self.acquire(eng, st, ins, fn, v, None if k is None else args[k])

    def copied(self, eng, st, ins, dst, src):
        """a record is copied as a whole"""
        r = root(src)
        if r[0] != "al":
            return
        for x in self.its(st, "own"):
            if x[3] is not None and root(x[3]) == r and r != root(dst):
                if self.outlives(st, dst):
                    self.site("transfer", ins)
                    self.transfer(st, x)
                else:
                    self.upd(st, [x[:3] + (("idx", dst, ("c", 0), 1) if dst[0] == "al" else dst, x[4])], [x])

    def release(self, eng, st, ins, fn, args, ctx):
        kind, by = REL.get(fn, ("heap", False))
        v = eng.rd(st, args[0]) if by else args[0]
        if v == ("c", 0) and not by:
            return
        self.site("released", ins, fn)
        k = fresh_kind(v)
        x = self.held(st, v)
        for y in self.its(st, "gone"):
            if y[2] == v:
                self.rep("double-release", ins, "a %s is released again" % y[1], st, ctx, key=y[1])
        if by and v[0] == "out" and v[1] == fn:
            self.rep("double-release", ins, "a %s is released again" % kind, st, ctx, key=kind)
        if by and v[0] == "uninit":
            self.rep("double-release", ins, "a %s handle is released that was never obtained" % kind, st, ctx, key="uninit")
        have = x[1] if x is not None else k
        if have is not None and have != kind:
            self.rep("wrong-release", ins, "%s is applied to a %s" % (fn, have if x is None else "%s (%s)" % (have, x[4])), st, ctx, key=have)
        if x is not None:
            r = unold(x[2])
            lost = [y for y in self.its(st, "own") if y is not x and y[3] is not None and unold(root(y[3])) == r and root(y[3])[0] != "al"]
            for y in [y for y in lost if not looping(y[3]) and ("passed", r) not in st.mon[self.name]]:
                self.rep("leak", ins, "a %s (%s) is lost when the block that holds it is released" % (y[1], y[4]), st, ctx, key=y[4])
            self.upd(st, [], [x] + lost + [y for y in self.its(st, "null") if unold(root(y[1])) == r])
            if not has_old(x[2]) and not by:
                self.upd(st, [("gone", x[1], x[2])])
        elif v[0] in ("ld", "hv", "wid"):
            a = v[1]
            b = self.block(st, a)
            if b is not None:
                # some element of an owned array: for an arbitrary one, every element has its turn
                if not looping(a) and a[0] == "idx" and a[2][0] != "c" and any(ins.block.name in body for body in ins.fn.loops.values()):
                    self.upd(st, [("passed", unold(b[2]))])        # a loop that does not begin with the first element
                if looping(a):
                    self.upd(st, rem=[y for y in self.its(st, "own") if y[3] is not None and unold(root(y[3])) == unold(b[2]) and y[1] == kind])
            elif not by and not has_old(v) and v[0] == "ld" and not looping(v):
                self.upd(st, [("gone", kind, v)])

    def branch(self, eng, st, ins, cond, truth, ctx):
        if cond[0] != "b" or cond[2] != "eq":
            return
        same = truth != cond[1]
        L, c = cond[3], cond[4]
        if L[0] == "lin" and len(L[2]) == 2 and c == 0 and L[1] == 0:
            (a, ka), (b, kb) = L[2]
            if ka + kb == 0 and same:
                for p, q in ((a, b), (b, a)):
                    x = self.held(st, p)
                    if x is not None and self.held(st, q) is None and q[0] in ("ld", "arg", "g") and not (q[0] == "ld" and x[3] is not None and root(q[1]) == root(x[3])):
                        self.upd(st, [("dead",)])       # a new object equals nothing that existed before
                    if p[0] in ("ld", "hv") and p[1][0] == "idx" and p[1][2][0] != "c" and self.block(st, p[1]) is not None:
                        self.upd(st, [("passed", unold(root(p[1])))])      # an arbitrary element of the array was found not to be ours
            return
        if c != 0:
            return
        x = self.held(st, L)
        if x is not None and same:
            if x[1] == "heap" or x[2] == L:
                self.upd(st, rem=[x])                   # nothing was obtained
            else:
                self.upd(st, [("dead",)])               # it was obtained, and is still there
        if not same and L[0] in ("ld", "hv") and ("null", L[1]) in st.mon[self.name]:
            self.upd(st, [("dead",)])

    def back_edge(self, eng, st, fn, header, ctx, phis):
        # released objects of earlier iterations are not distinguished from each other
        old = [x for x in self.its(st, "gone") if has_old(x[2]) or fresh_kind(x[2]) is None]
        if old:
            self.upd(st, rem=old)

    def rebind(self, eng, st, pairs):
        for x in self.its(st, "own"):
            for v, n in pairs:
                if x[2] == v:
                    self.upd(st, [x[:2] + (n,) + x[3:]], [x])

    def widen(self, eng, st, pairs):
        for v, w in pairs:
            if v not in st.mem.values():        # otherwise it is still found under its own name
                self.rebind(eng, st, [(v, w)])

    def exit(self, eng, st, fn, ret):
        for x in self.its(st, "own"):
            if ret is not None and ret == x[2]:
                self.site("transfer", fn.blocks[fn.order[-1]].ins[-1] if hasattr(fn, "order") and isinstance(fn.blocks, dict) else next(iter(fn.instrs())))
                self.transfer(st, x)
        if self.its(st, "dead"):
            return
        for x in self.its(st, "own"):
            if x[3] is not None and looping(x[3]):
                continue                # judged by the first elements
            self.rep("leak", None, "a %s (%s) is neither released nor handed over when the call returns" % (x[1], x[4]), st, 0, key=x[4], fn=fn)
