"""Strided transfers: the address lists, the packed copies and the MPI datatypes built from a strided description.

Everything is decided for a fixed number of stride levels and arbitrary strides and (positive) counts.  An address list is judged
inductively: the first element is the base address, and each further one must be that of the next index tuple, given that the one before
is inside the counts; when the list is used, the last tuple must be the last one of the description.
"""
import itertools
from interp import Monitor, subst, cmp_term, root, lin, mk, add, scale, subterms
from mpi import RMA, COPY

SIZES = {"ompi_mpi_byte": 1, "ompi_mpi_char": 1, "ompi_mpi_int": 4, "ompi_mpi_float": 4, "ompi_mpi_double": 8, "ompi_mpi_long": 8,
         "ompi_mpi_c_complex": 8, "ompi_mpi_cplex": 8, "ompi_mpi_c_float_complex": 8, "ompi_mpi_c_double_complex": 16, "ompi_mpi_dblcplex": 16}
GIOV = "%struct.armci_giov_t"


class Desc:
    """where the strided description sits among an entry's parameters"""

    def __init__(self, o=0, kind=None, nb=False, packed=None):
        self.o, self.kind, self.nb, self.packed = o, kind, nb, packed
        if packed:
            self.src = self.dst = 0
            self.L, self.ss, self.cnt, self.buf = 1, 2, 3, 4
            self.ds = 2
        else:
            self.src, self.ss, self.dst, self.ds, self.cnt, self.L, self.proc = [o + i for i in range(7)]
            self.hdl = o + 7 if nb else None


class Strided(Monitor):
    name = "sx"

    def __init__(self, d):
        self.d = d
        self.enum, self.hand, self.pack, self.lay = set(), set(), set(), set()
        self.site, self.where = {}, {}

    def collect(self):
        return dict(enum=self.enum, hand=self.hand, pack=self.pack, lay=self.lay)

    def finish(self, eng):
        pass

    def begin(self, eng, st, args, L):
        """called by the set-up: the number of levels is fixed, the counts are positive"""
        d = self.d
        self.L = L
        args[d.L] = ("c", L)
        A = self.args = list(args)
        self.entry = eng.entry_name
        self.count = [("ld", A[d.cnt])] + [("ld", eng.index(A[d.cnt], ("c", k), 4)) for k in range(1, self.L + 1)]
        self.sld = {A[d.ss]: [("ld", eng.index(A[d.ss], ("c", k), 4)) for k in range(self.L)],
                    A[d.ds]: [("ld", eng.index(A[d.ds], ("c", k), 4)) for k in range(self.L)]}
        self.kinds = {A[d.src]: ("source", A[d.ss]), A[d.dst]: ("destination", A[d.ds])} if not d.packed else {A[0]: ("strided", A[d.ss])}
        self.orders = frozenset(itertools.permutations(range(self.L)) if self.L <= 3 else [tuple(range(self.L)), tuple(reversed(range(self.L)))])
        for c in self.count:
            st.assume(cmp_term("sge", c, ("c", 1)), True)
        self.gf = {n: i for i, n in enumerate(eng.m.fields[GIOV])}

    # ------------------------------------------------------------ small tools
    def recs(self, st, tag):
        return [x for x in st.mon[self.name] if x[0] == tag]

    def swap(self, st, old, new):
        s = set(st.mon[self.name])
        s.discard(old)
        if new is not None:
            s.add(new)
        st.mon[self.name] = frozenset(s)

    def say(self, eng, rule, ins, msg, st, ctx, key=None, fn=None):
        if self.dead(st):
            return
        # products of positive counts are positive, which the interval domain does not know
        for L, f in st.facts.items():
            if f[1] is not None and f[1] <= 0:
                for v in (L, mk(*lin(L))):
                    k, fs = self.value(st, v)
                    if k > 0 and all(self.iscount(x) for x in fs):
                        return
        eng.report(rule, ins, msg, st, ctx, key=key, fn=fn)

    def dead(self, st):
        return ("dead",) in st.mon[self.name]

    @staticmethod
    def tr(v, maps):
        for _ in range(4):
            o = v
            for n, val in maps:
                v = subst(v, n, val, {})
            v = mk(*lin(v))
            if v == o:
                break
        return v

    def dec(self, st, p, a, b, maps=()):
        """decide a p b, trying the names the loop has given to a since"""
        r = st.decide(cmp_term(p, a, b))
        if r is None:
            for n, val in maps:
                # n == val: a == n + (a - val)
                k = add(a, self.tr(n, maps), -1)
                if k[0] == "c":
                    r = st.decide(cmp_term(p, add(n, k), b))
                    if r is not None:
                        break
        return r

    def fac(self, v):
        """a product as (constant, sorted factors)"""
        t = v[0]
        if t == "c":
            return v[1], []
        if t == "trunc":
            return self.fac(v[1])
        if t == "mul":
            a, b = self.fac(v[1]), self.fac(v[2])
            return a[0] * b[0], sorted(a[1] + b[1], key=repr)
        if t == "lin" and v[1] == 0 and len(v[2]) == 1:
            (a, k), = v[2]
            x = self.fac(a)
            return x[0] * k, x[1]
        if t == "pure" and v[1] == "MPI_Type_size" and len(v) == 3 and v[2][0] == "g" and v[2][1] in SIZES:
            return SIZES[v[2][1]], []
        return 1, [v]

    def value(self, st, v):
        """a product in normal form: exact divisions are undone"""
        k, fs = self.fac(v)
        out = []
        divs = []
        for f in fs:
            if f[0] == "op" and f[1] == "sdiv":
                divs.append(f)
            else:
                out.append(f)
        for f in divs:
            dk, df = self.fac(f[3])
            rest = list(out)
            ok = k % dk == 0 if dk else False
            for x in df:
                if x in rest:
                    rest.remove(x)
                else:
                    ok = False
            exact = (dk == 1 and not df) or f[2] == self.count[0] and self.d.kind == "acc" or \
                st.decide(cmp_term("eq", ("op", "srem", f[2], f[3]), ("c", 0))) is True
            if ok and exact:
                nk, nf = self.fac(f[2])
                k = k // dk * nk
                out = sorted(rest + nf, key=repr)
            else:
                out.append(f)
        one = [f for f in out if not (self.iscount(f) and st.decide(cmp_term("eq", f, ("c", 1))) is True)]
        return k, tuple(sorted(one, key=repr))

    def iscount(self, f):
        return f in self.count

    def total(self, st, lo=0):
        k, out = 1, []
        for c in self.count[lo:]:
            if st.decide(cmp_term("eq", c, ("c", 1))) is not True:
                out.append(c)
        return k, tuple(sorted(out, key=repr))

    def same(self, st, a, b):
        """equality of normalised products, up to factors whose value is known"""
        def num(x):
            k, o = x[0], []
            for f in x[1]:
                n = st.known_const(f)
                if n is None:
                    o.append(f)
                else:
                    k *= n
            return k, o
        return a == b or num(a) == num(b)

    # ------------------------------------------------------------ address lists
    def kind_of(self, v):
        r = v
        while r[0] == "idx":
            r = r[1]
        if r in self.kinds:
            return r
        c, d = lin(v)
        for a in d:
            if a in self.kinds and d[a] == 1:
                return a
        return None

    def tuple_of(self, eng, st, ins, ctx, v, base):
        """index tuple of the address v = base + sum stride[k]*T[k], or None"""
        c, d = lin(add(v, base, -1))
        sname, sarr = self.kinds[base]
        mine, other = self.sld[sarr], [x for s, l in self.sld.items() if s != sarr for x in l]
        T = [("c", 0)] * self.L
        odd = None
        if c:
            self.say(eng, "enumerated", ins, "the %s address list holds an address %+d bytes off" % (sname, c), st, ctx, key=("off", ins.fn.name))
            return None
        def add_term(x, k):
            nonlocal odd
            if x in mine:
                j = mine.index(x)
                T[j] = add(T[j], ("c", k))
                return
            if x[0] == "mul":
                for s, t in ((x[1], x[2]), (x[2], x[1])):
                    if s in mine:
                        j = mine.index(s)
                        T[j] = add(T[j], scale(t, k))
                        return
                for s, t in ((x[1], x[2]), (x[2], x[1])):
                    if s in other:
                        odd = "uses the stride of the other side"
                        return
            if x in other:
                odd = "uses the stride of the other side"
                return
            if x[0] == "trunc" and any(s in mine or s in other for s in subterms(x)):
                odd = "is computed in 32 bits and wraps for distances beyond 2 GB"
                return
            if any(s in mine for s in subterms(x)) or any(s[0] == "ld" and root(s[1]) == root(sarr) for s in subterms(x)):
                odd = odd or "is not the sum of strides times indices"
                return
            odd = odd or "?"
        for x, k in d.items():
            add_term(x, k)
        if odd == "?":
            return None
        if odd:
            self.say(eng, "enumerated", ins, "the displacement of a %s block %s" % (sname, odd), st, ctx, key=("disp", sname, odd, ins.fn.name))
            return None
        return tuple(T)

    def store(self, eng, st, ins, addr, val, ctx):
        if self.dead(st) or ins.ty == "i32":
            return
        r = root(addr)
        if not (r[0] == "call" or r[0] == "out"):
            return
        k = self.kind_of(val)
        if k is None:
            if ins.ty == "ptr" and ("lost", r) not in st.mon[self.name]:
                self.lose(st, r)
            return
        c, d = lin(addr)
        X = add(addr, r, -1)
        c, d = lin(X)
        if c % 8 or any(v % 8 for v in d.values()):
            return self.lose(st, r)
        X = mk(c // 8, {a: v // 8 for a, v in d.items()})
        if any(x[0] in ("lost", "done") and x[1] == r for x in st.mon[self.name]):
            return
        T = self.tuple_of(eng, st, ins, ctx, val, k)
        if T is None:
            return self.lose(st, r)
        self.site[r], self.where[r] = ins, ctx
        it = [x for x in self.recs(st, "it") if x[1] == r]
        nm = self.kinds[k][0]
        if not it:
            if X[0] != "c" or any(t[0] != "c" for t in T):
                return self.lose(st, r)
            if X != ("c", 0) or any(t != ("c", 0) for t in T):
                self.say(eng, "enumerated", ins, "the first %s address stored is element %s, index %s" % (nm, X[1], [t[1] for t in T]), st, ctx,
                           key=("first", nm, ins.fn.name))
                return self.lose(st, r)
            self.swap(st, None, ("it", r, k, X, T, self.orders, (), ()))
            self.enum.add("%s list first" % nm)
            return
        it, = it
        _, _, k0, X0, T0, orders, maps, hdr = it
        if k0 != k:
            self.say(eng, "enumerated", ins, "source and destination addresses in one list", st, ctx, key=("mixed", ins.fn.name))
            return self.lose(st, r)
        X1, T1 = self.tr(X, maps), tuple(self.tr(t, maps) for t in T)
        if X1 == X0 and T1 == T0:
            return
        if add(X1, X0, -1) != ("c", 1):
            if add(X1, X0, -1)[0] == "c":
                self.say(eng, "enumerated", ins, "the %s list is not filled one element after the other" % nm, st, ctx, key=("gap", nm, ins.fn.name))
            return self.lose(st, r)
        why = "the next %s address is not that of the next block" % nm
        good = set()
        for o in orders:
            w = self.succ(st, o, T0, T1, T, X, maps)
            if w is None:
                good.add(o)
            elif w != "?":
                why = "the %s list %s" % (nm, w)
        if not good and all(self.dec(st, "sge", add(T0[j], ("c", 1)), self.count[j + 1], maps) is True for j in range(self.L)) and self.xknown(st, X):
            st.mon[self.name] |= {("dead",)}      # the list was complete: the element number rules this pass out
            return
        if not good:
            self.say(eng, "enumerated", ins, why, st, ctx, key=("next", nm, ins.fn.name))
            return self.lose(st, r)
        self.enum.add("%s list, step of %d levels" % (nm, self.L))
        for j in range(self.L):
            if not st.assume(cmp_term("slt", T[j], self.count[j + 1]), True):
                st.mon[self.name] |= {("dead",)}
                return
        self.swap(st, it, ("it", r, k, X, T, frozenset(good), (), ()))

    def succ(self, st, o, T0, T1, T, X, maps):
        """None if T1 follows T0 in the order o (o[0] runs fastest), else what is wrong"""
        for c in range(self.L):
            j = o[c]
            if T1[j] != add(T0[j], ("c", 1)):
                continue
            low, same = True, all(T1[o[x]] == T0[o[x]] for x in range(c + 1, self.L))
            if not same:
                continue
            why = None
            for x in range(c):
                q = o[x]
                if T1[q] != ("c", 0):
                    why = "does not start over in level %d when level %d advances" % (q + 1, j + 1)
                elif self.dec(st, "sge", add(T0[q], ("c", 1)), self.count[q + 1], maps) is not True:
                    why = "advances level %d before level %d is at its end" % (j + 1, q + 1)
            if why:
                return why
            if self.dec(st, "slt", T1[j], self.count[j + 1], maps) is True or self.dec(st, "slt", T[j], self.count[j + 1]) is True:
                return None
            if c == self.L - 1 and self.xknown(st, X):
                return None
            return "may go past the count of level %d" % (j + 1)
        return "?"

    def xknown(self, st, X):
        """the element number is known to be inside the product of the counts"""
        want = self.total(st, 1)
        for L in st.facts:
            for a, k in (L[2] if L[0] == "lin" else ()):
                if a in [y for y, _ in lin(X)[1].items()] or a == X:
                    for b, kb in L[2]:
                        if b != a and self.same(st, self.value(st, b), want) and st.decide(cmp_term("slt", X, b)) is True:
                            return self.bounded(X)
        return False

    byx = None

    def bounded(self, X):
        return bool(self.byx) and any(a in self.byx for a in lin(X)[1])

    def branch(self, eng, st, ins, cond, truth, ctx):
        # a loop bounded by the element number itself (not an assertion about it)
        if ins.block.name not in ins.fn.loops or cond[0] != "b":
            return
        for s in ins.extra[:2]:
            b = ins.fn.blocks.get(s)
            if b is not None and any(i.op == "call" and i.extra[0][0] == "g" and i.extra[0][1] in eng.noret for i in b.ins):
                return
        if self.byx is None:
            self.byx = set()
        self.byx |= {a for a in lin(cond[3])[1] if a[0] == "phi"}

    def lose(self, st, r):
        s = {x for x in st.mon[self.name] if not (x[0] in ("it", "cp") and x[1] == r)}
        s.add(("lost", r))
        st.mon[self.name] = frozenset(s)

    def names(self, st, pairs):
        s = set()
        for x in st.mon[self.name]:
            if x[0] in ("it", "cp"):
                x = x[:-2] + (x[-2] + tuple((n, v) for v, n in pairs), x[-1])
            s.add(x)
        st.mon[self.name] = frozenset(s)

    def rebind(self, eng, st, pairs):
        self.names(st, pairs)

    def widen(self, eng, st, pairs):
        self.names(st, pairs)

    def back_edge(self, eng, st, fn, header, ctx, phis):
        for x in list(st.mon[self.name]):
            if x[0] not in ("it", "cp"):
                continue
            ins = self.site[x[1]]
            h = (fn.name, header, ctx)
            inside = any(i.fn is fn and c == ctx and i.block.name in fn.loops.get(header, ()) for c, i in self.frames(eng, x[1]))
            if not inside:
                self.judge(eng, st, x, ins, ctx)
            elif x[-1] == h:
                self.say(eng, "enumerated" if x[0] == "it" else "packed", ins, "a pass of the loop handles no block", st, ctx, key=("skip", ins.fn.name))
                self.lose(st, x[1])
            elif x[-1]:
                self.lose(st, x[1])
            else:
                self.swap(st, x, x[:-1] + (h,))

    def judge(self, eng, st, x, ins, ctx):
        """the list (or the packed copy) is used or left: is it complete?"""
        if self.dead(st):
            return
        if x[0] == "cp":
            return self.judge_copy(eng, st, x, ctx)
        _, r, k, X, T, orders, maps, hdr = x
        nm = self.kinds[k][0]
        site = self.site[r]
        left = [j for j in range(self.L) if self.dec(st, "sge", add(T[j], ("c", 1)), self.count[j + 1], maps) is not True]
        if left:
            want = self.total(st, 1)
            X1 = add(X, ("c", 1))
            cand = [X1] + [add(n, add(X1, self.tr(n, maps), -1)) for n, _ in maps if add(X1, self.tr(n, maps), -1)[0] == "c"]
            whole = False
            for n in cand:
                for L in list(st.facts):
                    for b, kb in (L[2] if L[0] == "lin" else ()):
                        if self.same(st, self.value(st, b), want) and st.decide(cmp_term("sge", n, b)) is True and (n[0] == "c" or self.bounded(n)):
                            whole = True
                kc = n[1] if n[0] == "c" else None
                if kc is not None:
                    for L, f in list(st.facts.items()):
                        if self.same(st, self.value(st, L), want) and f[1] is not None and f[1] <= kc and self.byx is not None:
                            whole = True
            if not whole:
                self.say(eng, "enumerated", site, "the %s list may end before level %d has reached its count" % (nm, left[0] + 1), st, ctx,
                           key=("short", nm, site.fn.name))
                return self.lose(st, r)
        self.enum.add("%s list complete, %d levels" % (nm, self.L))
        self.swap(st, x, ("done", r, k))

    def settle(self, eng, st, ins, ctx):
        for x in list(st.mon[self.name]):
            if x[0] in ("it", "cp"):
                self.judge(eng, st, x, ins, ctx)

    def frame_exit(self, eng, st, fn, ctx, ret):
        for x in list(st.mon[self.name]):
            if x[0] in ("it", "cp") and any(i.fn is fn and c == ctx and any(i.block.name in b for b in fn.loops.values()) for c, i in self.frames(eng, x[1])):
                self.judge(eng, st, x, self.site[x[1]], ctx)

    def frames(self, eng, r):
        """the active frames at the place that stores into r: (context, instruction)"""
        c, i = self.where[r], self.site[r]
        while True:
            yield c, i
            if not c:
                return
            c, i = eng.ctxl[c]

    # ------------------------------------------------------------ packed copies
    def element(self, st, v):
        """(kind, element number) of an address taken from a complete list"""
        done = {x[1]: x[2] for x in self.recs(st, "done")}
        a = None
        if v[0] == "ld" or v[0] == "wid":
            a = v[1]
        if a is not None and root(a) in done:
            c, d = lin(add(a, root(a), -1))
            if c % 8 == 0 and all(k % 8 == 0 for k in d.values()):
                return done[root(a)], mk(c // 8, {x: k // 8 for x, k in d.items()})
        if v in self.kinds and (v in done.values() or self.L == 0):
            return v, ("c", 0)
        return None

    def buffer(self, B):
        """the buffer an address points into"""
        while B[0] == "idx":
            B = B[1]
        if B[0] == "lin":
            ps = [a for a in lin(B)[1] if a[0] in ("arg", "out", "call", "al")]
            if len(ps) != 1:
                return None
            B = ps[0]
        return B if B[0] in ("arg", "out", "call") else None

    def copy(self, eng, st, ins, dst, src, n, ctx, what):
        if self.dead(st):
            return
        ed, es = self.element(st, dst), self.element(st, src)
        if ed is None and es is None or ed and es:
            for v in (dst, src):
                r = self.buffer(v)
                if r is not None and not any(x[0] in ("packed", "lost") and x[1] == r for x in st.mon[self.name]):
                    self.lose(st, r)
            return
        (k, i), buf, way = (ed, src, "unpack") if ed else (es, dst, "pack")
        B, step = self.buffer(buf), False
        if B is None or off_walks(add(buf, B, -1), i):
            # a pointer (or offset) that walks along: compared with where it was for the block before
            for x in self.recs(st, "cp"):
                d = add(self.tr(buf, x[5]), x[4], -1)
                if x[2] != way or any(a[0] in ("arg", "out", "call", "phi", "wid", "al", "old", "hv") and not self.iscount(a) for a in lin(d)[1]):
                    continue
                B = x[1]
                if d != self.count[0]:
                    self.say(eng, "packed", ins, "the packed copy does not go on by one block after each", st, ctx, key=("step", ins.fn.name))
                    return self.lose(st, B)
                step = True
        if B is None or not step and off_walks(add(buf, B, -1), i):
            for x in self.recs(st, "cp"):
                self.lose(st, x[1])
            st.mon[self.name] |= {("vague",)}
            return
        if ("lost", B) in st.mon[self.name]:
            return
        off = add(buf, B, -1)
        self.site[B], self.where[B] = ins, ctx
        if not step and (off != ("c", 0) or i != ("c", 0)):
            ki, fi = self.fac(i)
            got = self.value(st, off)
            want = (ki, tuple(sorted(fi + [self.count[0]], key=repr)))
            kc = self.value(st, ("mul", i, self.count[0])) if i[0] != "c" else self.value(st, scale(self.count[0], i[1]))
            if not self.same(st, got, kc) and got != want:
                self.say(eng, "packed", ins, "block %s is %s at an offset other than that many blocks" % ("i", way + "ed"), st, ctx, key=("offset", ins.fn.name))
                return self.lose(st, B)
        if not self.same(st, self.value(st, n), self.value(st, self.count[0])):
            self.say(eng, "packed", ins, "a block is %sed with a length other than the block size" % way, st, ctx, key=("length", ins.fn.name))
            return self.lose(st, B)
        cp = [x for x in self.recs(st, "cp") if x[1] == B]
        if not cp:
            if i != ("c", 0):
                if i[0] == "c":
                    self.say(eng, "packed", ins, "packing starts at block %d" % i[1], st, ctx, key=("first", ins.fn.name))
                return self.lose(st, B)
            self.swap(st, None, ("cp", B, way, i, buf, (), ()))
            self.pack.add("%s first block" % what)
            return
        cp, = cp
        i1 = self.tr(i, cp[5])
        if i1 == cp[3]:
            return
        if add(i1, cp[3], -1) != ("c", 1):
            self.say(eng, "packed", ins, "packing does not go on with the next block", st, ctx, key=("next", ins.fn.name))
            return self.lose(st, B)
        self.pack.add("%s next block" % what)
        self.swap(st, cp, ("cp", B, way, i, buf, (), ()))

    def judge_copy(self, eng, st, x, ctx):
        _, B, way, i, buf, maps, hdr = x
        want = self.total(st, 1)
        i1 = add(i, ("c", 1))
        ok = want == (1, ())
        cand = [i1] + [add(n, add(i1, self.tr(n, maps), -1)) for n, _ in maps if add(i1, self.tr(n, maps), -1)[0] == "c"]
        for n in cand:
            for L, f in list(st.facts.items()):
                for b in [L] + [a for a, _ in (L[2] if L[0] == "lin" else ())]:
                    if self.same(st, self.value(st, b), want) and st.decide(cmp_term("sge", n, b)) is True:
                        ok = True
            if not ok and self.L == 1 and self.dec(st, "sge", n, self.count[1], maps) is True:
                ok = True
        if not ok:
            ins = self.site[B]
            self.say(eng, "packed", ins, "%sing may end before the last block" % way, st, ctx, key=("short", ins.fn.name))
            return self.lose(st, B)
        self.pack.add("%s complete, %d levels" % (way, self.L))
        self.swap(st, x, ("packed", B, way))

    # ------------------------------------------------------------ datatypes
    def tsize(self, st, h):
        """(bytes as product, dims) of a type handle, or None"""
        if h[0] == "g" and h[1] in SIZES:
            return (SIZES[h[1]], ()), ()
        t = [x for x in self.recs(st, "ty") if x[1] == h]
        return t[0][2:] if len(t) == 1 else None

    def prod(self, st, *vs):
        k, fs = 1, []
        for v in vs:
            if isinstance(v[0], int):
                k *= v[0]
                fs += list(v[1])
            else:
                a, b = self.fac(v)
                k *= a
                fs += b
        t = ("c", k)
        for f in fs:
            t = ("mul", t, f)
        return self.value(st, t)

    def newtype(self, eng, st, ins, h, bytes_, dims):
        s = {x for x in st.mon[self.name] if not (x[0] == "ty" and x[1] == h)}
        if bytes_ is not None:
            s.add(("ty", h, bytes_, dims))
        st.mon[self.name] = frozenset(s)

    def one(self, st, n):
        return n == ("c", 1) or st.decide(cmp_term("eq", n, ("c", 1))) is True

    def typecall(self, eng, st, ins, fn, a, ctx):
        outs = {"MPI_Type_contiguous": 2, "MPI_Type_vector": 4, "MPI_Type_create_hvector": 4, "MPI_Type_hvector": 4, "MPI_Type_create_subarray": 6,
                "MPI_Type_dup": 1}
        if fn == "MPI_Type_free":
            h = eng.rd(st, a[0])
            st.mon[self.name] = frozenset(x for x in st.mon[self.name] if not (x[0] == "ty" and x[1] == h))
        if fn not in outs:
            return
        h = ("out", fn, eng.ins_uid(ins), outs[fn], ctx)
        b = dims = None
        if fn == "MPI_Type_contiguous":
            t = self.tsize(st, a[1])
            if t and not t[1]:
                b, dims = self.prod(st, t[0], a[0]), ()
        elif fn == "MPI_Type_dup":
            t = self.tsize(st, a[0])
            if t:
                b, dims = t
        elif fn in ("MPI_Type_create_hvector", "MPI_Type_hvector", "MPI_Type_vector"):
            t = self.tsize(st, a[3])
            if t and (self.one(st, a[1]) or not t[1]):
                b = t[0] if self.one(st, a[1]) else self.prod(st, t[0], a[1])
                stride = self.value(st, a[2])
                if fn == "MPI_Type_vector":
                    stride = self.prod(st, a[2], t[0]) if not t[1] else None
                if stride is None:
                    b = None
                else:
                    dims = t[1] + (((self.value(st, a[0]), a[0]), stride),) if not self.one(st, a[0]) else t[1]
        elif fn == "MPI_Type_create_subarray" and a[0][0] == "c":
            t = self.tsize(st, a[5])
            n = a[0][1]
            rd = lambda p, k: eng.rd(st, eng.index(p, ("c", k), 4))
            sizes, subs, starts = [[rd(a[q], k) for k in range(n)] for q in (1, 2, 3)]
            if t and not t[1] and all(x == ("c", 0) for x in starts) and a[4] == ("c", 0):
                b = self.prod(st, t[0], subs[-1])
                stride = t[0]
                dims = ()
                for k in range(n - 2, -1, -1):
                    stride = self.prod(st, stride, sizes[k + 1])
                    if not self.one(st, subs[k]):
                        dims += (((self.value(st, subs[k]), subs[k]), stride),)
        self.newtype(eng, st, ins, h, b, dims)

    def want(self, st, sarr):
        dims = []
        for k in range(self.L):
            if not self.one(st, self.count[k + 1]):
                dims.append((self.value(st, self.count[k + 1]), self.value(st, self.sld[sarr][k])))
        return self.value(st, self.count[0]), dims

    def layout(self, eng, st, ins, ctx, side, h, n, sarr, whole):
        """the type h must describe the strided block (sarr) or a packed one (whole)"""
        t = self.tsize(st, h)
        if t is None or not self.one(st, n):
            if t is None or t[1]:
                return
            t = (self.prod(st, t[0], n), ())
        b, dims = t
        dims = [(x[0][0], x[1]) for x in dims]
        if whole:
            ok = not dims and self.same(st, b, self.total(st))
            if not ok:
                self.say(eng, "layout", ins, "the packed copy is transferred with a type that does not describe all of it", st, ctx, key=("whole", side, ins.fn.name))
            else:
                self.lay.add("%s packed, %d levels" % (side, self.L))
            return
        wb, wd = self.want(st, sarr)
        if not self.same(st, b, wb):
            self.say(eng, "layout", ins, "the %s type's block is not the block size" % side, st, ctx, key=("block", side))
        elif len(dims) != len(wd):
            self.say(eng, "layout", ins, "the %s type has %d level(s) where the description has %d" % (side, len(dims), len(wd)), st, ctx, key=("levels", side))
        else:
            for i, (x, y) in enumerate(zip(dims, wd)):
                if not self.same(st, x[0], y[0]):
                    self.say(eng, "layout", ins, "level %d of the %s type repeats another number of times than the count" % (i + 1, side), st, ctx, key=("count", side))
                    return
                if not self.same(st, x[1], y[1]):
                    self.say(eng, "layout", ins, "level %d of the %s type is not spaced by the caller's stride" % (i + 1, side), st, ctx, key=("stride", side))
                    return
            self.lay.add("%s layout, %d levels" % (side, self.L))

    def transfer(self, eng, st, ins, fn, a, ctx):
        t = RMA[fn]
        d = self.d
        A = self.args
        if t["kind"] not in ("put", "get", "acc", "gacc") or d.packed or d.kind == "flag":
            return
        if ("moved",) in st.mon[self.name]:
            self.say(eng, "handed", ins, "the same call transfers the data twice", st, ctx, key=("twice",))
            return
        st.mon[self.name] |= {("moved",)}
        get = d.kind == "get"
        side, ptr, sarr = ("destination", A[d.dst], A[d.ds]) if get else ("source", A[d.src], A[d.ss])
        o = "r" if "r" in t and get else "o"
        buf, n, ty = a[t[o]], a[t[o + "c"]], a[t[o + "t"]]
        if buf == ptr:
            self.layout(eng, st, ins, ctx, side, ty, n, sarr, False)
        elif buf[0] in ("out", "call"):
            self.layout(eng, st, ins, ctx, side, ty, n, sarr, True)
            if not get:
                self.settle(eng, st, ins, ctx)
                if not any(x[0] in ("lost", "vague") or x[0] == "packed" and x[1] == buf for x in st.mon[self.name]):
                    self.say(eng, "packed", ins, "the staging buffer is sent without the caller's data in it", st, ctx, key=("empty",))
            else:
                st.mon[self.name] |= {("staged", buf)}
        elif self.kind_of(buf) is not None:
            self.say(eng, "layout", ins, "the %s side of the transfer does not start at the caller's address" % side, st, ctx, key=("start", side))
        rsarr = A[d.ss] if get else A[d.ds]
        self.layout(eng, st, ins, ctx, "source" if get else "destination", a[t["tt"]], a[t["tc"]], rsarr, False)

    # ------------------------------------------------------------ calls
    def call(self, eng, st, ins, fn, args, ctx):
        if self.dead(st):
            return
        d, A = self.d, self.args
        if fn in COPY:
            return self.copy(eng, st, ins, args[0], args[1], args[2], ctx, "copy")
        if fn == "ARMCII_Buf_acc_scale":
            return self.copy(eng, st, ins, args[1], args[0], args[2], ctx, "scaled copy")
        if fn in RMA:
            return self.transfer(eng, st, ins, fn, args, ctx)
        if fn.startswith("MPI_Type_"):
            return self.typecall(eng, st, ins, fn, args, ctx)
        if fn in ("armci_write_strided", "armci_read_strided"):
            if d.packed:
                return
            w = fn == "armci_write_strided"
            ptr, sarr = (A[d.src], A[d.ss]) if w else (A[d.dst], A[d.ds])
            bad = [n for n, x, y in (("address", args[0], ptr), ("strides", args[2], sarr), ("counts", args[3], A[d.cnt]), ("levels", args[1], A[d.L])) if x != y]
            if bad:
                self.say(eng, "packed", ins, "the staging buffer is %s with other %s than the caller's" % ("filled" if w else "emptied", bad[0]), st, ctx,
                           key=("args", fn, bad[0]))
            self.pack.add("%s: call of %s" % (ins.fn.name, fn))
            st.mon[self.name] |= {("packed", args[4], "pack" if w else "unpack")}
            return
        if fn in VEC and not d.packed:
            return self.vector(eng, st, ins, fn, args, ctx)
        if fn in PLAIN and d.kind == "flag":
            o = self.d.o
            bad = [i for i in range(7) if args[i] != (A[i] if i < 6 else A[d.L + 3])]
            self.hand.add("%s: %s" % (self.entry, fn))
            if bad:
                self.say(eng, "handed", ins, "the strided put gets another %s than the caller's" % NAMES[bad[0]], st, ctx, key=("plain", bad[0]))
            st.mon[self.name] |= {("moved",)}

    def vector(self, eng, st, ins, fn, args, ctx):
        d, A = self.d, self.args
        o = 2 if "Acc" in fn else 0
        self.hand.add("%s: %s" % (self.entry, fn))
        rep = lambda what: self.say(eng, "handed", ins, what, st, ctx, key=(what,))
        kind = {"Put": "put", "Get": "get", "Acc": "acc"}[[k for k in ("Put", "Get", "Acc") if k in fn][0]]
        if ("moved",) in st.mon[self.name]:
            rep("the same call transfers the data twice")
        st.mon[self.name] |= {("moved",)}
        if kind != d.kind:
            return rep("the transfer is handed on as another operation")
        if o:
            if args[0] != A[0]:
                rep("the accumulate is handed on with another data type")
            if args[1] != A[1]:
                rep("the accumulate is handed on with another scale factor")
        if args[o + 1] != ("c", 1):
            rep("not exactly one list is handed on")
        if args[o + 2] != A[d.proc]:
            rep("the transfer is handed on for another process")
        if "Nb" in fn and d.hdl is not None and args[o + 3] != A[d.hdl]:
            rep("the transfer is handed on with another handle")
        self.settle(eng, st, ins, ctx)
        io = args[o]
        get = lambda f: eng.rd(st, ("fld", io, GIOV, self.gf[f]))
        done = {x[1]: x[2] for x in self.recs(st, "done")}
        for f, k, nm in (("src_ptr_array", A[d.src], "source"), ("dst_ptr_array", A[d.dst], "destination")):
            p = get(f)
            if p in done and done[p] != k:
                rep("the %s list of the vector call holds the other side's addresses" % nm)
            elif p not in done and ("lost", p) not in st.mon[self.name] and p[0] in ("call", "out"):
                rep("the %s list of the vector call is not filled" % nm)
        b = get("bytes")
        if not self.same(st, self.value(st, b), self.value(st, self.count[0])):
            rep("the block size of the vector call is not that of the description")
        n = get("ptr_array_len")
        if not self.same(st, self.value(st, n), self.total(st, 1)):
            rep("the number of blocks of the vector call is not the product of the counts")

    def exit(self, eng, st, fn, ret):
        if self.dead(st):
            return
        self.settle(eng, st, None, 0)
        m = st.mon[self.name]
        if not self.d.packed and ("moved",) not in m:
            self.say(eng, "handed", None, "a path returns without transferring anything", st, 0, key=("none",), fn=fn)
        if self.d.packed and not any(x[0] in ("lost", "vague") or x[0] == "packed" and x[1] == self.args[self.d.buf] for x in m):
            self.say(eng, "packed", None, "a path returns without moving anything", st, 0, key=("none",), fn=fn)
        for x in m:
            if x[0] == "staged" and not any(y[0] in ("lost", "vague") or y[0] == "packed" and y[1] == x[1] for y in m):
                self.say(eng, "packed", None, "the data read into the staging buffer does not reach the caller's memory", st, 0, key=("unread",), fn=fn)


def off_walks(off, i):
    return any(x[0] in ("phi", "wid", "hv", "join") for x in subterms(off)) and not any(x in subterms(off) for x in lin(i)[1])


def fix(L, *more, datatype=None):
    """set-up function: L levels"""
    def setup(eng, st, args):
        if datatype is not None:
            args[0] = ("c", datatype)
        eng.mons[0].begin(eng, st, args, L)
        for f in more:
            f(eng, st, args)
    setup.label = ",".join(["levels=%d" % L] + ([] if datatype is None else ["datatype=%d" % datatype]) + [getattr(f, "label", "") for f in more])
    return setup


VEC = {"PARMCI_PutV", "PARMCI_GetV", "PARMCI_AccV", "PARMCI_NbPutV", "PARMCI_NbGetV", "PARMCI_NbAccV"}
PLAIN = {"PARMCI_PutS", "PARMCI_NbPutS"}
NAMES = ["source address", "source strides", "destination address", "destination strides", "counts", "levels", "process"]
ENTRIES = {"PARMCI_PutS": Desc(0, "put"), "PARMCI_GetS": Desc(0, "get"), "PARMCI_AccS": Desc(2, "acc"),
           "PARMCI_NbPutS": Desc(0, "put", True), "PARMCI_NbGetS": Desc(0, "get", True), "PARMCI_NbAccS": Desc(2, "acc", True)}
PACKED = {"armci_write_strided": Desc(packed="pack"), "armci_read_strided": Desc(packed="unpack")}
FLAG = {"PARMCI_PutS_flag": Desc(0, "flag")}
