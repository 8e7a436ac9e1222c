"""Vector transfers: which segments of which descriptor each operation and each staging copy belongs to.

A term is read as "address number I of the source (destination) list of descriptor V"; loops over segments and over descriptors are judged
by induction: the first number is 0, each further pass handles the next one, and the loop is left only when the list is exhausted.
"""
from interp import Monitor, subst, cmp_term, lin, mk, add, scale, root, subterms, show
from mpi import RMA, FLUSH, COPY
from strided import GIOV

OVERLAP, SAME = "ARMCII_Iov_check_overlap", "ARMCII_Iov_check_same_allocation"
PURE = (OVERLAP, SAME)
# entry -> (descriptors, their number, process, kind)
ENTRIES = {}
for _nb in ("", "Nb"):
    ENTRIES["PARMCI_" + _nb + "PutV"] = (0, 1, 2, "put")
    ENTRIES["PARMCI_" + _nb + "GetV"] = (0, 1, 2, "get")
    ENTRIES["PARMCI_" + _nb + "AccV"] = (2, 3, 4, "acc")
ONE = ("c", 1)
ZERO = ("c", 0)


def unold(v):
    while v[0] == "old":
        v = v[1]
    return v


class Vector(Monitor):
    name = "vx"

    def __init__(self, d, only=None):
        self.only = only
        self.iov_i, self.len_i, self.proc_i, self.kind = d
        self.pairs, self.walks, self.staged, self.own = set(), set(), set(), set()
        self.site = {}

    def collect(self):
        return dict(pairs=self.pairs, walks=self.walks, staged=self.staged, own=self.own)

    def start(self, eng, st, entry):
        self.eng = eng
        A = self.args = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        self.iov, self.n, self.proc = A[self.iov_i], A[self.len_i], A[self.proc_i]
        fs = eng.m.fields[GIOV]
        self.f = {n: i for i, n in enumerate(fs)}
        self.size = eng.m.sizeof(GIOV)
        self.local, self.remote = ("dst", "src") if self.kind == "get" else ("src", "dst")
        self.outer = self.loops(eng.m)
        st.mon[self.name] = frozenset()

    # ------------------------------------------------------------ which loops run over descriptors
    _loops = {}

    def loops(self, m):
        if id(m) in self._loops:
            return self._loops[id(m)]
        depth = {}

        def go(fn, stack):
            if fn in depth:
                return depth[fn]
            if fn in stack:
                return None
            f, best = m.funcs[fn], None
            for i in f.instrs():
                if i.op != "call" or i.extra[0][0] != "g":
                    continue
                c = m.resolve(i.extra[0][1])
                d = 0 if c in RMA else go(c, stack | {fn}) if c in m.funcs else None
                if d is None:
                    continue
                d += sum(i.block.name in b for b in f.loops.values())
                best = d if best is None else max(best, d)
            depth[fn] = best
            return best
        for f in list(m.funcs):
            go(f, frozenset())
        out = set()
        for fn, f in m.funcs.items():
            for h, body in f.loops.items():
                for i in f.instrs():
                    if i.block.name in body and i.op == "call" and i.extra[0][0] == "g":
                        c = m.resolve(i.extra[0][1])
                        d = 0 if c in RMA else depth.get(c)
                        if d is not None and d + sum(i.block.name in b for k, b in f.loops.items() if b <= body) >= 2:
                            out.add((fn, h))
        self._loops[id(m)] = out
        return out

    # ------------------------------------------------------------ reading terms
    def desc(self, e):
        """where the descriptor at address e lies in the list, in bytes"""
        if e[0] == "idx" and e[3] == self.size:
            b = self.desc(e[1])
            return None if b is None else add(b, scale(e[2], self.size))
        if not any(a == self.iov or a[0] in ("phi", "idx", "old") for a in lin(e)[1]):
            return None
        c, t = lin(e)
        for a, k in list(t.items()):
            if a[0] == "idx" and k == 1 and a[3] == self.size:
                b = self.desc(a)
                return None if b is None else add(b, add(e, a, -1))
        return add(e, self.iov, -1)

    def place(self, V):
        if V == ZERO:
            return self.iov
        c, t = lin(V)
        if c % self.size or any(k % self.size for k in t.values()):
            return add(self.iov, V)
        return self.eng.index(self.iov, mk(c // self.size, {a: k // self.size for a, k in t.items()}), self.size)

    def turn(self, st, V):
        """V comes next: the direction the list is walked in (1, -1), None if it does not"""
        S = self.size
        d = self.recs(st, "d")
        if d:
            return d[0][2] if add(self.tr(V, d[0][3]), d[0][1], -1) == ("c", S * d[0][2]) else None
        if V == ZERO:
            return 1
        return -1 if V == scale(add(self.n, ONE, -1), S) else None

    def field(self, st, V, name):
        return self.eng.rd(st, ("fld", self.place(V), GIOV, self.f[name]))

    def array(self, a):
        """a is the address list itself: (side, descriptor)"""
        a = unold(a)
        if a[0] in ("ld", "hv") and a[1][0] == "fld" and a[1][2] == GIOV:
            for s in ("src", "dst"):
                if a[1][3] == self.f[s + "_ptr_array"]:
                    V = self.desc(a[1][1])
                    return None if V is None else (s, V)
        return None

    def split(self, a):
        """address of an element: (base, number)"""
        if a[0] == "idx" and a[3] == 8:
            b = self.split(a[1])
            return b[0], add(b[1], a[2])
        if a[0] == "lin":
            c, d = lin(a)
            ps = [x for x, k in d.items() if k == 1 and (x[0] in ("call", "out", "idx") or self.array(x))]
            if len(ps) == 1:
                d = dict(d)
                del d[ps[0]]
                if c % 8 == 0 and all(k % 8 == 0 for k in d.values()):
                    b = self.split(ps[0])
                    return b[0], add(b[1], mk(c // 8, {x: k // 8 for x, k in d.items()}))
            return None
        return a, ZERO

    def elem(self, v):
        """v is an address out of a list: (side, descriptor, number)"""
        v = unold(v)
        if v[0] not in ("ld", "hv"):
            return None
        s = self.split(v[1])
        a = self.array(s[0]) if s else None
        return a + (s[1],) if a else None

    def slot(self, v):
        """v was read from an array of the library's own: (array, number)"""
        if v[0] not in ("ld", "hv", "wid"):
            return None
        s = self.split(v[1])
        return s if s and s[0][0] == "call" and s[0][1] in ("malloc", "calloc") else None

    # ------------------------------------------------------------ records
    def recs(self, st, tag):
        return [x for x in st.mon[self.name] if x[0] == tag]

    def swap(self, st, old, new):
        s = set(st.mon[self.name])
        s.discard(old)
        if new is not None:
            s.add(new)
        st.mon[self.name] = frozenset(s)

    def lose(self, st, tag):
        st.mon[self.name] = frozenset(x for x in st.mon[self.name] if not (x[0] == "w" and x[1] == tag)) | {("lost", tag)}

    def lost(self, st, tag):
        return ("lost", tag) in st.mon[self.name] or ("lost", ("all",)) in st.mon[self.name]

    @staticmethod
    def tr(v, maps):
        hide = lambda x, n: subst(x, ("old", n), ("before", n[1:]), {})     # the name's earlier use is another number
        for n, _ in maps:
            v = hide(v, n)
        for _ in range(4):
            o = v
            for n, val in maps:
                for n2, _ in maps:
                    val = hide(val, n2)
                v = subst(v, n, val, {})
            v = mk(*lin(v))
            if v == o:
                break
        for n, _ in maps:
            v = subst(v, ("before", n[1:]), ("old", n), {})
        return v

    def names(self, st, pairs):
        s = set()
        for x in st.mon[self.name]:
            if x[0] in ("w", "d") and x[-1]:
                x = x[:-2] + (x[-2] + tuple((n, v) for v, n in pairs), x[-1])
            s.add(x)
        st.mon[self.name] = frozenset(s)

    def rebind(self, eng, st, pairs):
        self.names(st, pairs)

    def widen(self, eng, st, pairs):
        self.names(st, pairs)

    @staticmethod
    def unlike(a, b):
        """the two numbers are told apart for certain (not merely named by counters of different loops)"""
        d = add(a, b, -1)
        if d == ZERO:
            return False
        if d[0] == "c":
            return True
        pa, pb = ({x for x in subterms(y) if x[0] in ("phi", "old")} for y in (a, b))
        if any(x[0] in ("wid", "hv", "join", "uninit") for y in (a, b) for x in subterms(y)):
            return False
        return pa == pb or not pa or not pb

    def number(self, a):
        return str(a[1]) if a[0] == "c" else show(a, self.eng.m)

    def say(self, st, rule, ins, msg, ctx, key, fn=None):
        if any(self.blurred(k) for k in st.facts):
            return      # the descriptor was read through a copy the analysis lost track of
        if self.only is None or rule in self.only:
            self.eng.report(rule, ins, msg, st, ctx, key=key, fn=fn)

    def frames(self, tag):
        i, c = self.site[tag]
        while True:
            yield c, i
            if not c:
                return
            c, i = self.eng.ctxl[c]

    WHAT = {"op": ("every", "transferred"), "fill": ("staged", "put into the staging list"), "back": ("staged", "copied back")}

    def step(self, st, tag, ins, ctx, V, I):
        """segment I of descriptor V is handled"""
        rule, what = self.WHAT[tag[0]]
        if self.lost(st, tag):
            return
        w = [x for x in self.recs(st, "w") if x[1] == tag]
        if not w:
            if tag[0] == "op" and self.turn(st, V) is None:
                d = self.recs(st, "d")
                k = add(self.tr(V, d[0][3]), d[0][1], -1) if d else V
                if k[0] == "c":
                    self.say(st, rule, ins, "a descriptor is transferred out of turn", ctx, ("turn",))
                return self.lose(st, tag)
            if I != ZERO:
                if I[0] == "c":
                    self.say(st, rule, ins, "the first segment %s is number %d" % (what, I[1]), ctx, ("first", tag[0]))
                return self.lose(st, tag)
            self.site[tag] = (ins, ctx)
            self.swap(st, None, ("w", tag, V, I, 0, (), False))
            self.walks.add("%s first%s" % (tag[0], "" if V == ZERO else " of a later descriptor"))
            return
        w, = w
        _, _, V0, I0, _, maps, _ = w
        V1, I1 = self.tr(V, maps), self.tr(I, maps)
        if V1 != V0:
            return self.lose(st, tag)
        d = add(I1, I0, -1)
        if d == ZERO:
            if tag[0] == "op":
                self.say(st, rule, ins, "a segment is transferred twice", ctx, ("twice",))
                self.lose(st, tag)
            return
        if d != ONE:
            if d[0] == "c":
                self.say(st, rule, ins, "the segment %s after number i is number i%+d" % (what, d[1]), ctx, ("next", tag[0]))
            return self.lose(st, tag)
        self.site[tag] = (ins, ctx)
        self.walks.add("%s next" % tag[0])
        self.swap(st, w, ("w", tag, V, I, 0, (), False))

    def units(self, V):
        c, t = lin(V)
        if c % self.size or any(k % self.size for k in t.values()):
            return V
        return mk(c // self.size, {a: k // self.size for a, k in t.items()})

    def dec(self, st, p, a, b, maps=()):
        r = st.decide(cmp_term(p, a, b))
        if r is not True:
            # a counter's name and its value are one number; what is known of either counts (if they disagree nothing runs here)
            for n, val in maps:
                k = add(a, self.tr(n, maps), -1)
                if k[0] == "c":
                    r2 = st.decide(cmp_term(p, add(n, k), b))
                    if r2 is not None and r is None or r2 is True:
                        r = r2
                        break
        return r

    def judge(self, st, w, ins, ctx):
        """the walk w is over: was the whole list handled?"""
        _, tag, V, I, _, maps, _ = w
        rule, what = self.WHAT[tag[0]]
        n = self.field(st, V, "ptr_array_len")
        self.swap(st, w, ("done", tag, V))
        if self.dec(st, "sge", add(I, ONE), n, maps) is not True:
            if any(self.blurred(k) for k in st.facts):
                return
            s = self.site[tag]
            self.say(st, rule, s[0], "not every segment of a descriptor is %s" % what, s[1], ("short", tag[0]))
            return
        self.walks.add("%s complete" % tag[0])

    def judge_all(self, st, ins, ctx, kinds):
        for w in self.recs(st, "w"):
            if w[1][0] in kinds:
                self.judge(st, w, ins, ctx)

    # ------------------------------------------------------------ loops
    def back_edge(self, eng, st, fn, header, ctx, phis):
        loop = (fn.name, header)
        body = fn.loops.get(header, ())
        if loop in self.outer and not self.lost(st, ("all",)):
            w = [x for x in self.recs(st, "w") + self.recs(st, "done") if x[1] == ("op",)]
            if w:
                V = w[0][2]
                s = self.turn(st, V)
                self.judge_all(st, None, ctx, ("op", "fill", "back"))
                return self.fresh(st, V, s, "descriptor done")
            if not self.lost(st, ("op",)):
                for x in self.recs(st, "empty"):
                    if self.turn(st, x[1]) is not None:
                        return self.fresh(st, x[1], self.turn(st, x[1]), "empty descriptor")
                for reg, new, old in phis:
                    if new is None or old is None:
                        continue
                    o, n2 = self.desc(old), self.desc(new)
                    if o is None or n2 is None or o == old:
                        o, n2 = scale(old, self.size), scale(new, self.size)
                    if add(n2, o, -1) not in (("c", self.size), ("c", -self.size)):
                        continue
                    for V in (o, n2):
                        s = self.turn(st, V)
                        if s is not None and (st.decide(cmp_term("sle", self.field(st, V, "ptr_array_len"), ZERO)) is True or
                                              st.decide(cmp_term("sle", self.field(st, V, "bytes"), ZERO)) is True):
                            return self.fresh(st, V, s, "empty descriptor")
                    if self.turn(st, o) is not None:
                        self.say(st, "every", None, "a descriptor that is not empty is passed over", ctx, ("over",), fn=fn)
            st.mon[self.name] = frozenset({("lost", ("all",))})
            return
        for w in self.recs(st, "w"):
            tag = w[1]
            if self.inside(tag, fn, header, ctx):
                if self.inner(tag) != (loop, ctx):
                    continue
                if w[4]:
                    rule, what = self.WHAT[tag[0]]
                    if tag[0] == "op" or not self.excused(st, w, phis):
                        self.say(st, rule, self.site[tag][0], "a pass of the loop leaves a segment that is not %s" % what, self.site[tag][1], ("skip", tag[0]))
                    self.lose(st, tag)
                else:
                    self.swap(st, w, w[:4] + (1, w[5], True))
            elif w[-1]:
                self.swap(st, w, w[:-1] + (False,))
        st.mon[self.name] = frozenset(x for x in st.mon[self.name] if x[0] != "cont")
        for d in self.recs(st, "d"):
            if d[-1]:
                self.swap(st, d, d[:-1] + (False,))

    def disarm(self, st):
        for x in list(st.mon[self.name]):
            if x[0] in ("w", "d") and x[-1]:
                self.swap(st, x, x[:-1] + (False,))

    def fresh(self, st, V, s, what):
        """descriptor V is behind us"""
        if s is None:
            st.mon[self.name] = frozenset({("lost", ("all",))})
            return
        self.walks.add(what)
        st.mon[self.name] = frozenset({("d", V, s, (), True)})

    def excused(self, st, w, phis):
        return False

    def inside(self, tag, fn, header, ctx):
        return any(i.fn is fn and c == ctx and i.block.name in fn.loops.get(header, ()) for c, i in self.frames(tag))

    def inner(self, tag):
        """the innermost loop around the place where tag's segments are handled: ((function, header), context)"""
        for c, i in self.frames(tag):
            ls = [(len(b), h) for h, b in i.fn.loops.items() if i.block.name in b]
            if ls:
                return (i.fn.name, min(ls)[1]), c
        return None

    # ------------------------------------------------------------ staging lists
    def store(self, eng, st, ins, addr, val, ctx):
        if ins.ty != "ptr" or val == ZERO:
            return
        s = self.split(addr)
        if s is None or s[0][0] != "call" or s[0][1] not in ("malloc", "calloc"):
            return
        B, X = s
        e = self.elem(val)
        if e:
            if e[0] != self.local:
                self.say(st, "staged", ins, "an address of the other side is put into the staging list", ctx, ("side",))
                return self.lose(st, ("fill", B))
            self.filled(st, ins, ctx, B, X, e)
        elif any(x[0] in ("out", "call", "phi") for x in (val,) + tuple(lin(val)[1])):
            c = [x for x in self.recs(st, "cont") if x[1] == val]
            self.held(st, val, B, X)
            if c:
                self.filled(st, ins, ctx, B, X, c[0][2:])

    def held(self, st, val, B, X):
        s = {x for x in st.mon[self.name] if not (x[0] == "buf" and (x[1] == val or x[2:] == (B, X)))}
        s.add(("buf", val, B, X))
        st.mon[self.name] = frozenset(s)

    def filled(self, st, ins, ctx, B, X, e):
        side, V, I = e
        if X != I:
            if self.unlike(X, I):
                self.say(st, "staged", ins, "slot %s of the staging list holds segment %s" % (self.number(X), self.number(I)), ctx, ("shift",))
            return self.lose(st, ("fill", B))
        self.staged.add("%s:%s" % (ins.fn.name, ins.line))
        self.step(st, ("fill", B), ins, ctx, V, I)

    def blurred(self, v):
        """v is a descriptor's field read back from a copy of the descriptor that the analysis lost track of"""
        return any(x[0] in ("hv", "join", "wid", "uninit") and len(x) > 1 and x[1] and x[1][0] == "fld" and x[1][2] == GIOV for x in subterms(v))

    def whole(self, st, V, n):
        """n is the segment size of V"""
        if n is not None and self.blurred(n):
            return True
        b = self.field(st, V, "bytes")
        return n == b or (n[0] == "trunc" and n[1] == b)

    def copied(self, eng, st, ins, dst, src, n, ctx, ns=None):
        es, ed = self.elem(src), self.elem(dst)
        if es and not ed and self.kind != "get":
            b = [x for x in self.recs(st, "buf") if x[1] == dst]
            if not b and self.slot(dst):
                b = [("buf", dst) + self.slot(dst)]
            if not b or b[0][3] != es[2] and not self.slot(dst):
                # may be put into the list later
                if es[0] == self.local and any(self.whole(st, es[1], x) for x in (ns or [n])):
                    st.mon[self.name] |= {("cont", dst) + es}
                return
            if es[0] != self.local:
                return self.say(st, "staged", ins, "the staging copy is made from the other side", ctx, ("side",))
            if not any(self.whole(st, es[1], x) for x in (ns or [n])):
                self.say(st, "staged", ins, "a staging copy of another length than the segment's", ctx, ("length",))
            self.filled(st, ins, ctx, b[0][2], b[0][3], es)
        if ed and not es and self.kind == "get":
            s = self.slot(src) or next(((x[2], x[3]) for x in self.recs(st, "buf") if x[1] == src), None)
            if s is None:
                return
            if ed[0] != self.local:
                return self.say(st, "staged", ins, "fetched data is copied to the other side", ctx, ("side",))
            if not self.whole(st, ed[1], n):
                self.say(st, "staged", ins, "fetched data of another length than the segment's is copied back", ctx, ("length",))
            self.returned(st, ins, ctx, s, ed)

    def returned(self, st, ins, ctx, s, e):
        B, X = s
        if X != e[2]:
            if self.unlike(X, e[2]):
                self.say(st, "staged", ins, "segment %s receives what was fetched for segment %s" % (self.number(e[2]), self.number(X)), ctx, ("shift",))
            return self.lose(st, ("back", B))
        self.staged.add("%s:%s" % (ins.fn.name, ins.line))
        self.step(st, ("back", B), ins, ctx, e[1], e[2])

    def branch(self, eng, st, ins, cond, truth, ctx):
        if cond[0] == "b":
            # the merge of two ways past an empty descriptor must not forget that it is empty
            for x in subterms(cond[3]):
                if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == GIOV and x[1][3] in (self.f["ptr_array_len"], self.f["bytes"]):
                    V = self.desc(x[1][1])
                    if V is not None and st.decide(cmp_term("sle", x, ZERO)) is True:
                        st.mon[self.name] |= {("empty", V)}
        # orig[i] == staging[i]: nothing to copy back
        if self.kind != "get" or cond[0] != "b" or cond[2] != "eq" or cond[4] != 0 or truth is cond[1]:
            return
        d = lin(cond[3])[1]
        if len(d) == 2 and sorted(d.values()) == [-1, 1]:
            a, b = d
            for x, y in ((a, b), (b, a)):
                e, s = self.elem(x), self.slot(y)
                if e and s and s[1] == e[2]:
                    self.step(st, ("back", s[0]), ins, ctx, e[1], e[2])

    decided = branch

    # ------------------------------------------------------------ operations
    def call(self, eng, st, ins, fn, args, ctx):
        if fn in COPY:
            return self.copied(eng, st, ins, args[0], args[1], args[2], ctx)
        if fn in eng.summ and eng.summ[fn]:
            outs = eng.summ[fn]
            for o in outs:
                for k, a in enumerate(args):
                    if k != o and o < len(args) and self.elem(a):
                        self.copied(eng, st, ins, args[o], a, None, ctx, ns=list(args))
            return
        if fn == "MPI_Alloc_mem":
            s = self.split(args[2])
            if s and s[0][0] == "call" and s[0][1] in ("malloc", "calloc"):
                v = ("out", fn, eng.ins_uid(ins), 2, ctx)
                self.held(st, v, *s)
                if self.kind == "get":
                    w = [x for x in self.recs(st, "w") if x[1] == ("fill", s[0])]
                    V = w[0][2] if w else None
                    if V is None:
                        # the descriptor is not named by an allocation: the first one decides
                        V = next((e[1] for e in [self.sized(args[0])] if e), None)
                    if V is not None:
                        self.filled(st, ins, ctx, s[0], s[1], (self.local, V, s[1]))
                else:
                    t = ("fill", s[0])
                    for w in self.recs(st, "w"):
                        if w[1] == t and not w[4] and self.tr(s[1], w[5]) == w[3]:
                            # the slot filled in this pass gets a fresh, empty buffer
                            self.swap(st, w, w[:3] + (add(w[3], ONE, -1),) + w[4:])
            return
        if fn == "free":
            for t in ("fill", "back"):
                tag = (t, args[0])
                for w in self.recs(st, "w"):
                    if w[1] == tag:
                        self.judge(st, w, ins, ctx)
            if self.kind == "get" and ("used", args[0]) in st.mon[self.name] and not self.lost(st, ("back", args[0])) and \
                    not any(x[1] == ("back", args[0]) for x in self.recs(st, "done")):
                self.say(st, "staged", ins, "the staging list is released although nothing was copied back", ctx, ("nothing",))
            st.mon[self.name] = frozenset(x for x in st.mon[self.name] if not (
                x[0] in ("w", "done", "lost") and len(x[1]) == 2 and x[1][1] == args[0] or x[0] == "used" and x[1] == args[0] or
                x[0] == "buf" and x[2] == args[0]))
            return
        if fn in FLUSH:
            s = st.mon[self.name]
            st.mon[self.name] = frozenset(x for x in s if x[0] != "since")
            return
        if fn in RMA and RMA[fn]["kind"] in ("put", "get", "acc", "gacc"):
            return self.transfer(eng, st, ins, fn, args, ctx)

    def sized(self, n):
        for x in subterms(n):
            if x[0] == "ld" and x[1][0] == "fld" and x[1][2] == GIOV:
                V = self.desc(x[1][1])
                if V is not None:
                    return (None, V)
        return None

    def transfer(self, eng, st, ins, fn, a, ctx):
        t = RMA[fn]
        site = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        key = "r" if self.kind == "get" else "o"
        if key not in t:
            return
        buf, cnt = a[t[key]], a[t[key + "c"]]
        le = self.elem(buf)
        if le is None:
            s = self.slot(buf) or next(((x[2], x[3]) for x in self.recs(st, "buf") if x[1] == buf), None)
            if s is None:
                return self.lose(st, ("op",))
            B, X = s
            for w in self.recs(st, "w"):
                if w[1] == ("fill", B):
                    self.judge(st, w, ins, ctx)
            fd = [x for x in self.recs(st, "done") if x[1] == ("fill", B)]
            if not fd:
                if not self.lost(st, ("fill", B)):
                    self.say(st, "staged", ins, "the staging list is used before it is filled", ctx, ("unfilled",))
                return self.lose(st, ("op",))
            st.mon[self.name] |= {("used", B)}
            le = (self.local, fd[0][2], X)
        if le[0] != self.local:
            self.say(st, "paired", ins, "the local address of a transfer is taken from the remote list", ctx, ("side", "local"))
            return self.lose(st, ("op",))
        _, V, I = le
        D = a[t["disp"]]
        rem = [e for e in (self.elem(x) for x, k in lin(D)[1].items() if k == 1) if e]
        if len(rem) == 1:
            r = rem[0]
            if r[0] != self.remote:
                self.say(st, "paired", ins, "the remote address of a transfer is taken from the local list", ctx, ("side", "remote"))
            elif r[1] != V:
                if self.unlike(r[1], V):
                    self.say(st, "paired", ins, "the two sides of a transfer belong to different descriptors", ctx, ("desc",))
            elif r[2] != I:
                if self.unlike(r[2], I):
                    self.say(st, "paired", ins, "segment number %s is transferred to the address of number %s" % (show(I, eng.m), show(r[2], eng.m)), ctx, ("number",))
            else:
                self.pairs.add(site)
        for c in (cnt, a[t["tc"]]):
            b = self.field(st, V, "bytes")
            if not (c == b or c[0] == "op" and c[1] == "sdiv" and c[2] == b):
                if c[0] != "phi" and not any(x[0] in ("join", "wid", "hv") for x in subterms(c)):
                    self.say(st, "paired", ins, "a segment is transferred with another length than its descriptor's", ctx, ("length",))
        self.conflict(eng, st, ins, V, I, rem[0] if len(rem) == 1 else None, a[t["win"]], ctx, site)
        self.step(st, ("op",), ins, ctx, V, I)
        st.mon[self.name] |= {("since",)}

    # ------------------------------------------------------------ conflicting segments
    def result(self, st, name, V, side, more):
        """outcome of a check of descriptor V: True, False or None (not known)"""
        t = ("pure", name, self.field(st, V, side + "_ptr_array"), self.field(st, V, "ptr_array_len"), more)
        return st.decide(cmp_term("ne", t, ZERO))

    def conflict(self, eng, st, ins, V, I, r, W, ctx, site):
        gs = ("g", "ARMCII_GLOBAL_STATE")
        ck = [t for t, fs in eng.m.fields.items() if "iov_checks" in fs]
        off = ck and st.decide(cmp_term("eq", ("ld", ("fld", gs, ck[0], eng.m.fields[ck[0]].index("iov_checks"))), ZERO)) is True
        same = off or self.result(st, SAME, V, self.remote, self.proc) is True
        apart = off or self.result(st, OVERLAP, V, "dst", self.field(st, V, "bytes")) is False
        W = unold(W)
        look = next((x for x in subterms(W) if x[:2] == ("pure", "gmr_lookup")), None)
        w = [x for x in self.recs(st, "w") if x[1] == ("op",)]
        if look is None and w:
            # found in an earlier pass
            look = next((x for x in subterms(self.tr(W, w[0][5])) if x[:2] == ("pure", "gmr_lookup")), None)
            if look is not None and r is not None:
                r = (r[0], self.tr(r[1], w[0][5]), self.tr(r[2], w[0][5]))
                V = self.tr(V, w[0][5])
        if look is not None and r is not None:
            e = self.elem(look[2])
            if e is not None and e[0] != r[0]:
                self.say(st, "own", ins, "the allocation is looked up with an address of the other list", ctx, ("list",))
            elif e is not None and e[1] != V and add(e[1], V, -1)[0] == "c":
                self.say(st, "own", ins, "the allocation is looked up with an address of another descriptor", ctx, ("olddesc",))
            elif not same and (e is None or e[1:] != (V, r[2])) and not any(x[0] in ("join", "wid", "hv") for x in subterms(look[2])):
                self.say(st, "own", ins, "segments that may lie in several allocations are all sent to the allocation of one of them", ctx, ("one",))
            else:
                self.own.add(site + (" shared" if same else " own"))
        if not (same and apart):
            if ("since",) in st.mon[self.name] and [x for x in self.recs(st, "w") if x[1] == ("op",)]:
                self.say(st, "serial", ins, "a segment that may conflict with the one before is issued although that one is not complete", ctx, ("serial",))
            else:
                self.own.add(site + " serial")

    # ------------------------------------------------------------ the end
    def exit(self, eng, st, fn, ret):
        if self.lost(st, ("all",)) or self.lost(st, ("op",)):
            return
        if ret is not None and ret[0] == "c" and ret != ZERO:
            return
        self.judge_all(st, None, 0, ("op", "fill", "back"))
        d = self.recs(st, "d")
        w = [x for x in self.recs(st, "done") if x[1] == ("op",)]
        if w:
            last, s, maps = w[0][2], self.turn(st, w[0][2]), ()
        elif d:
            last, s, maps = d[0][1], d[0][2], d[0][3]
        else:
            last, s, maps = ("c", -self.size), 1, ()
        if s is None:
            return
        if s > 0:
            end = scale(self.n, self.size)
            at = add(last, ("c", self.size))
            ok = self.dec(st, "sge", at, end, maps)
            for n, val in maps:
                # a pointer that walks the list, compared with the address behind it
                k = add(self.tr(n, maps), add(self.iov, at), -1)
                if ok is not True and k[0] == "c":
                    ok = st.decide(cmp_term("sge", n, add(self.eng.index(self.iov, self.n, self.size), k)))
            if ok is not True:
                ok = self.dec(st, "sge", self.units(at), self.n, maps)
        else:
            ok = self.dec(st, "sle", last, ZERO, maps)
            if ok is not True:
                ok = self.dec(st, "sle", self.units(last), ZERO, maps)
        if ok is not True:
            return self.say(st, "every", None, "returns before the last descriptor was handled", 0, ("last",), fn=fn)
        self.walks.add("all descriptors")
