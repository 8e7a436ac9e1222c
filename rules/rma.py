"""Completion automaton of the one-sided operations a library call issues.

Facts tracked per path (all hashable tuples of terms):
  ("op", kind, win, rank, okey, rkey, site, stat, homes, req)  an operation that is not complete at the origin
        stat: 0 issued; homes: tuple of addresses outside the frame that hold its request
  ("rem", kind, win, rank, site)                   an operation not known complete at the target
  ("own", key, size)         memory obtained from the MPI allocator (staging buffer)
  ("owned-in", array)        an array some element of which holds such memory
  ("raw", array)             an array some element of which holds such memory that was not filled
  ("fill", key) / ("res", key, copied)             staging buffer filled / holds a fetched result
"""
from interp import Monitor, root, strip_idx, show, subst, subterms
from mpi import RMA, FLUSH, COPY


def unold(v):
    while v[0] == "old":
        v = v[1]
    return v


def okey(addr):
    """identity of the buffer an address term points into"""
    a = addr
    while True:
        a = unold(a)
        if a[0] in ("fld", "idx"):
            a = a[1]
            continue
        if a[0] == "lin":
            # pointer arithmetic over integers: the single pointer-like atom
            c = [x for x, k in a[2] if k == 1 and unold(x)[0] in ("arg", "out", "call", "al", "ld", "hv", "wid")]
            if len(c) == 1:
                a = c[0]
                continue
        break
    if a[0] in ("ld", "hv", "wid") or (a[0] == "join" and isinstance(a[3], tuple)):
        k = a[3] if a[0] == "join" else a[1]
        k = unold(k)
        if k[0] == "idx" or (k[0] not in ("fld", "g", "al") and not (k[0] == "out" and k[1] == "MPI_Alloc_mem")):
            return ("elt", okey(k))
        if k[0] == "fld":
            return ("at", k[2], k[3], okey(k[1]))
    return a


def allocated(k):
    """does this key denote memory from the MPI allocator"""
    k = unold(k)
    return k[0] == "out" and k[1] == "MPI_Alloc_mem"


def collapse(v):
    """old(old(x)) -> old(x): all earlier generations of a value are one abstract value"""
    if not isinstance(v, tuple) or not v:
        return v
    n = tuple(collapse(x) if isinstance(x, tuple) else x for x in v)
    if n[0] == "old" and isinstance(n[1], tuple) and n[1] and n[1][0] == "old":
        return n[1]
    return n


def has_old(v):
    return any(x and x[0] == "old" for x in subterms(v))


def definite(k):
    if k[0] == "elt":
        return definite(k[1])
    if k[0] == "at":
        return definite(k[3])
    return k[0] in ("arg", "al", "g") or allocated(k) or (k[0] == "call" and k[1] in ("malloc", "calloc")) or \
        (k[0] in ("ld", "hv") and k[1][0] in ("al", "fld"))


class Rma(Monitor):
    name = "rma"

    def __init__(self, entry, blocking=False, remote=False):
        self.entry, self.blocking, self.remote = entry, blocking, remote
        self.sites = {"rma": set(), "flush": set(), "free": set(), "fillcheck": set(), "copyback": set(), "req": set(),
                      "exit": set(), "use": set(), "sizes": set()}
        self.maybe = {}         # candidate reports: key -> closure args
        self.suppress = set()
        self.wit = {}           # obligation -> an operation that created it

    def start(self, eng, st, entry):
        self.eng = eng
        st.mon[self.name] = self.init

    def collect(self):
        return {k: sorted(map(str, v)) for k, v in self.sites.items()}

    # ---- helpers
    def w(self, x):
        r = self.wit.get((self.plain(x[4]), self.plain(x[5]))) or self.wit[0]
        return (r[0],) + r[1]

    def plain(self, v):
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == "old":
            return self.plain(v[1])
        return tuple(self.plain(x) for x in v)

    def items(self, st):
        return st.mon[self.name]

    def put(self, st, add=(), rem=()):
        s = st.mon[self.name]
        st.mon[self.name] = (s - frozenset(rem)) | frozenset(add)

    def where(self, eng, ins):
        return (ins.fn.name, ins.line)

    def in_loop(self, ins, ctx=0):
        """is the instruction, or a call on the chain that leads to it, inside a loop?"""
        while True:
            if any(ins.block.name in body for body in ins.fn.loops.values()):
                return True
            if not ctx:
                return False
            ctx, ins = self.eng.ctxl[ctx]

    # ---- events
    def call(self, eng, st, ins, fn, args, ctx):
        if fn in RMA:
            return self.rma(eng, st, ins, fn, args, ctx)
        if fn in FLUSH:
            return self.flush(eng, st, ins, fn, args, ctx)
        if fn in ("MPI_Wait", "MPI_Waitall", "MPI_Waitany"):
            return self.wait(eng, st, ins, fn, args, ctx)
        if fn == "MPI_Alloc_mem":
            k = ("out", "MPI_Alloc_mem", eng.ins_uid(ins), 2, ctx)
            self.put(st, [("own", k, args[0])], [x for x in self.items(st) if x[0] == "own" and x[1] == k])
            # the address the pointer is stored at may be an element of an array
            if args[2][0] != "al":
                self.put(st, [("owned-in", okey(args[2])), ("in", k, okey(args[2]))])
            return
        if fn == "MPI_Free_mem":
            return self.free(eng, st, ins, args[0], ctx)
        if fn in COPY:
            return self.copy(eng, st, ins, args[0], args[1], args[2], ctx)
        if fn == "free":
            k = okey(args[0])
            its = self.items(st)
            held = set(x[1] for x in its if x[0] == "in" and x[2] == k)
            self.put(st, (), [x for x in its if x[0] in ("fill", "in", "owned-in", "res", "raw") and k in subterms(x) or
                              x[0] in ("own", "fill", "res") and x[1] in held])
            return
        if fn in eng.opaque and fn in eng.m.funcs:
            # the request is handed to the handle
            for x in self.pending(st):
                if x[9] is not None and x[9] in args:
                    self.put(st, [x[:8] + ((("handle", fn),),) + x[9:]], [x])
        if fn in eng.summ:
            # a summarised leaf: reads every pointer argument, writes through eng.summ[fn]
            outs = eng.summ[fn]
            for n, a in enumerate(args):
                if n < len(ins.extra[1]) and ins.extra[1][n] == "ptr":
                    if n in outs:
                        self.write(eng, st, ins, a, ctx, weak=self.in_loop(ins, ctx))
                    else:
                        self.read(eng, st, ins, a, ctx)
            srcs = [okey(a) for n, a in enumerate(args) if n not in outs and n < len(ins.extra[1]) and ins.extra[1][n] == "ptr"]
            for n in outs:
                if n < len(args):
                    self.moved(eng, st, ins, okey(args[n]), srcs, self.in_loop(ins, ctx))

    def rma(self, eng, st, ins, fn, args, ctx):
        d = RMA[fn]
        site = self.where(eng, ins)
        self.sites["rma"].add("%s:%s" % site + " " + fn)
        nores = "o" not in d
        ok = rk = None
        if "o" in d and args[d["o"]] != ("c", 0):
            ok = okey(args[d["o"]])
        elif "o" in d and "oc" in d and args[d["oc"]] != ("c", 0):
            ok = ("bottom",)
        if "r" in d:
            rk = okey(args[d["r"]]) if args[d["r"]] != ("c", 0) else ("bottom",)
        win = args[d["win"]]
        rank = args[d["rank"]]
        req = None
        if "req" in d:
            req = ("out", fn, eng.ins_uid(ins), d["req"], ctx)
            # the previous request of this site is renamed by the engine when the call is modelled
        # staging buffers: filled before use as origin
        its = self.items(st)
        if ok is not None and (allocated(ok) or (ok[0] == "elt" and ("owned-in", ok[1]) in its)):
            k = ("fill", site, tuple(eng.chain(ctx)), str(ok[0:2]))
            self.sites["fillcheck"].add(str(k[1]))
            filled = [x for x in its if x[0] == "fill" and (x[1] == ok or (ok[0] == "elt" and (x[2] == ok[1] or x[1] == ok[1])))]
            if not filled:
                self.maybe[k] = ("staging-unfilled", ins, "the staging buffer %s is handed to %s before anything was copied into it"
                                 % (show(ok, eng.m), fn), st.path(), eng.chain(ctx))
            elif any(x[3] for x in filled):
                self.suppress.add(k)
            if ok[0] == "elt" and ("raw", ok[1]) in its:
                eng.report("staging-unfilled", ins, "some element of the staging array %s may be handed to %s before anything was copied into it" %
                           (show(ok[1], eng.m), fn), st, ctx, key="raw")
        # the issuing site is a witness, not part of the obligation: alternatives on different paths are one fact
        new = [("op", 0, win, rank, ok, rk, 0, 0, (), req)]
        if self.remote:
            new.append(("rem", 0, win, rank, 0))
        self.wit[(self.plain(ok), self.plain(rk))] = (d["kind"], site)
        self.wit[0] = (d["kind"], site)
        if rk is not None and (allocated(rk) or (rk[0] == "elt" and ("owned-in", rk[1]) in its)):
            new.append(("res", rk, 0))
        self.put(st, new)

    def flush(self, eng, st, ins, fn, args, ctx):
        local, rp, wp = FLUSH[fn]
        self.sites["flush"].add("%s:%s " % self.where(eng, ins) + fn)
        win = args[wp]
        rank = args[rp] if rp is not None else None
        rem = []
        for x in self.items(st):
            if x[0] == "op" and x[2] == win and (rank is None or x[3] == rank):
                rem.append(x)
            if x[0] == "rem" and not local and x[2] == win and (rank is None or x[3] == rank):
                rem.append(x)
        self.put(st, (), rem)

    def wait(self, eng, st, ins, fn, args, ctx):
        rem = []
        if fn == "MPI_Wait":
            v = eng.rd(st, args[0])
            rem = [x for x in self.items(st) if x[0] == "op" and x[9] == v]
        elif fn == "MPI_Waitall":
            rem = [x for x in self.items(st) if x[0] == "op" and any(strip_idx(h) == strip_idx(args[1]) for h in x[8])]
        self.put(st, (), rem)

    def pending(self, st):
        return [x for x in self.items(st) if x[0] == "op"]

    def conflict(self, key, pk, its):
        """may freeing `key` release the buffer pk a pending operation uses?"""
        if pk is None:
            return False
        if pk == key:
            if key[0] == "elt" and ("owned-in", key[1]) not in its:
                return False        # the elements are not ours to free: that free is infeasible here
            return True
        if pk == ("bottom",) or not definite(pk):
            # address unknown (datatype relative to some element): any release of staging memory may hit it
            if key[0] == "elt":
                return ("owned-in", key[1]) in its
            return True
        if key[0] == "elt" and allocated(pk):
            return ("owned-in", key[1]) in its and ("in", pk, key[1]) in its
        if allocated(key) and pk[0] == "elt":
            return ("in", key, pk[1]) in its
        return False

    def free(self, eng, st, ins, p, ctx):
        key = okey(p)
        its = self.items(st)
        self.sites["free"].add("%s:%s" % self.where(eng, ins))
        for x in self.pending(st):
            for w, pk in (("origin", x[4]), ("result", x[5])):
                if self.conflict(key, pk, its):
                    eng.report("free-in-flight", ins, "the staging buffer released here is still the %s buffer of the %s issued at %s:%s, "
                               "which is not complete" % (w, *self.w(x)), st, ctx, key=self.w(x)[:2] + (w,))
        k2 = [x for x in its if x[0] == "res" and x[1] == key]
        for x in k2:
            k = ("res", self.where(eng, ins), tuple(eng.chain(ctx)))
            self.sites["copyback"].add("%s:%s" % self.where(eng, ins))
            if not x[2]:
                self.maybe[k] = ("result-dropped", ins, "the staging buffer holding fetched data is released without having been copied to "
                                 "the caller's buffer", st.path(), eng.chain(ctx))
            elif x[2] == 2:
                self.suppress.add(k)
        dead = [x for x in its if (x[0] in ("own", "fill", "res") and x[1] == key and key[0] != "elt")]
        self.put(st, (), dead)

    def copy(self, eng, st, ins, d, s, n, ctx):
        self.read(eng, st, ins, s, ctx)
        self.write(eng, st, ins, d, ctx, weak=self.in_loop(ins, ctx))
        dk, sk = okey(d), okey(s)
        self.moved(eng, st, ins, dk, [sk], weak=self.in_loop(ins, ctx))
        # whole-buffer copies must cover the staging buffer
        for x in self.items(st):
            if x[0] == "own" and x[1] in (dk, sk) and not self.in_loop(ins, ctx):
                base = d if x[1] == dk else s
                self.sites["sizes"].add("%s:%s" % self.where(eng, ins))
                if unold(base) == x[1] and n != x[2] and not any(y and y[0] in ("phi", "join", "wid", "uninit") for v in (n, x[2]) for y in subterms(v)):
                    eng.report("staging-size", ins, "copies %s bytes although the staging buffer was allocated for %s" %
                               (show(n, eng.m), show(x[2], eng.m)), st, ctx, key="size")

    def moved(self, eng, st, ins, dk, sks, weak):
        its = self.items(st)
        add, rem = [], []
        for x in its:
            if x[0] == "res" and x[1] in sks:
                if not allocated(dk) and not (dk[0] == "elt" and ("owned-in", dk[1]) in its):
                    rem.append(x)
                    add.append(("res", x[1], 2 if weak else 1))
        self.put(st, add, rem)

    def read(self, eng, st, ins, a, ctx):
        k = okey(a)
        for x in self.pending(st):
            if x[5] is not None and x[5] == k and definite(k):
                self.sites["use"].add("%s:%s" % self.where(eng, ins))
                eng.report("read-early", ins, "the result buffer of the %s issued at %s:%s is read before the operation is complete" %
                           self.w(x), st, ctx, key=self.w(x)[:2])

    def write(self, eng, st, ins, a, ctx, weak=False):
        k = okey(a)
        for x in self.pending(st):
            if x[4] is not None and x[4] == k and definite(k):
                eng.report("overwrite-early", ins, "the origin buffer of the %s issued at %s:%s is overwritten before the operation is complete"
                           % self.w(x), st, ctx, key=self.w(x)[:2])
        its = self.items(st)
        if allocated(k):
            arr = None
            for x in its:
                if x[0] == "in" and x[1] == k:
                    arr = x[2]
            self.put(st, [("fill", k, arr, weak)] + ([("fill", arr, None, False)] if arr else []))
        elif k[0] == "elt" and ("owned-in", k[1]) in its:
            self.put(st, [("fill", k, k[1], weak)], [("raw", k[1])])

    def load(self, eng, st, ins, addr, val, ctx):
        if st.mon[self.name]:
            r = root(addr)
            for x in self.pending(st):
                if x[5] is not None and okey(addr) == x[5] and definite(x[5]):
                    self.sites["use"].add("%s:%s" % self.where(eng, ins))
                    eng.report("read-early", ins, "the result buffer of the %s issued at %s:%s is read before the operation is complete" %
                               self.w(x), st, ctx, key=self.w(x)[:2])

    def store(self, eng, st, ins, addr, val, ctx):
        its = st.mon[self.name]
        if not its:
            return
        ak = okey(addr)
        add, rem = [], []
        vk = okey(val) if val[0] in ("out", "idx", "lin", "old") else val
        if allocated(vk) and addr[0] != "al":
            add += [("owned-in", ak), ("in", vk, ak)]
            for x in its:
                if x[0] == "fill" and x[1] == vk:
                    add += [("fill", vk, ak, x[3]), ("fill", ak, None, False)]
        for x in its:
            if x[0] != "op":
                continue
            if x[4] is not None and x[4] == ak and definite(ak):
                eng.report("overwrite-early", ins, "the origin buffer of the %s issued at %s:%s is overwritten before the operation is complete"
                           % self.w(x), st, ctx, key=self.w(x)[:2])
            if x[9] is not None:
                if val == x[9] and root(addr)[0] != "al":
                    if addr not in x[8]:
                        rem.append(x)
                        add.append(x[:8] + (x[8] + (addr,),) + x[9:])
                        self.sites["req"].add("%s:%s" % self.where(eng, ins))
                elif addr in x[8] and val != x[9]:
                    h = tuple(y for y in x[8] if y != addr)
                    rem.append(x)
                    add.append(x[:8] + (h,) + x[9:])
                    if not h:
                        eng.report("request-lost", ins, "the only copy of the request of the %s issued at %s:%s is overwritten" %
                                   self.w(x), st, ctx, key=self.w(x)[:2])
        if allocated(ak):
            add.append(("fill", ak, None, self.in_loop(ins, ctx)))
            add += [("fill", x[2], None, False) for x in its if x[0] == "in" and x[1] == ak]
        if add or rem:
            self.put(st, add, rem)

    def back_edge(self, eng, st, fn, header, ctx, phis):
        its = st.mon[self.name]
        if not its:
            return
        new = set()
        quiet = not self.blocking and not any(x[0] in ("own", "owned-in") for x in its)
        for x in its:
            if x[0] in ("own", "fill") and has_old(x[1]):
                continue
            if quiet and x[0] == "op" and (x[9] is None or x[8]):
                continue        # tracked, and no staging memory is left that it could use
            new.add(collapse(x))
        # staging memory put in an array by this iteration and not filled in it
        for x in its:
            if x[0] == "in" and not has_old(x[1]) and not any(y[0] == "fill" and y[1] == x[1] for y in its):
                new.add(("raw", x[2]))
        st.mon[self.name] = frozenset(new)

    def rebind(self, eng, st, pairs):
        """a looked-up allocation that the next iteration knows by another name: so are the window and rank of what was issued on it"""
        for v, n in pairs:
            if v[0] != "pure":
                continue
            cache = {}
            old = [x for x in self.items(st) if x[0] in ("op", "rem") and (v in subterms(x[2]) or v in subterms(x[3]))]
            self.put(st, [x[:2] + (subst(x[2], v, n, cache), subst(x[3], v, n, cache)) + x[4:] for x in old], old)

    def frame_exit(self, eng, st, fn, ctx, ret):
        # buffers living in the frame that returns
        for x in self.pending(st):
            for w, pk in (("origin", x[4]), ("result", x[5])):
                if pk is not None and pk[0] == "al" and pk[1] == fn.name and pk[3] == ctx:
                    eng.report("stack-in-flight", None, "returns while its local variable %s is still the %s buffer of the %s issued at %s:%s" %
                               (pk[2], w, *self.w(x)), st, ctx, key=(fn.name,) + self.w(x)[:2], fn=fn)

    def exit(self, eng, st, fn, ret):
        self.sites["exit"].add(fn.name)
        for x in self.pending(st):
            if self.blocking:
                eng.report("return-incomplete", None, "blocking call can return while the %s issued at %s:%s is not complete at the origin" %
                           self.w(x), st, 0, key=(fn.name,) + self.w(x)[:2], fn=fn)
            elif x[9] is not None and not x[8]:
                eng.report("request-untracked", None, "returns while the request of the %s issued at %s:%s is recorded nowhere: no wait can "
                           "complete it" % self.w(x), st, 0, key=(fn.name,) + self.w(x)[:2], fn=fn)
        for k, (rule, ins, msg, path, chain) in self.maybe.items():
            pass

    def finish(self, eng):
        """reports that hold only if no weaker evidence (a copying loop) was seen on another path"""
        for k, (rule, ins, msg, path, chain) in self.maybe.items():
            if k in self.suppress:
                continue
            eng.reports[(rule, ins.fn.name, k)] = dict(rule=rule, file=ins.fn.file, line=ins.line, function=ins.fn.name,
                                                       entry=eng.entry_name, msg=msg, chain=chain, path=path, key=msg)
