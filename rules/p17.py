"""Global operations hand MPI the caller's data, operator, type and processes, and give back what MPI returned."""
import base
from interp import Monitor, subterms, add, scale, mul, cmp_term, root
from mpi import COPY
from profiles import gs_field, nonnull, both, pin
from ir import AnalysisBroken
from fill import Fill

EXPLANATION = ("Path-sensitive analysis of every global operation, once per operator name, element type and scope, with and without buffer copying: the data, count, "
               "type, operator and communicator of the reduction, and where its result goes.  The user-defined operators are checked element by element over the "
               "finite set of order types of two numbers and their negations (not-a-number excepted).")
ASSUMPTIONS = ["MPI's predefined operators compute what the MPI standard says", "operator names are those the interface documents", "values are not NaN, and not the most negative integer"]
OPS = {"+": "ompi_mpi_op_sum", "*": "ompi_mpi_op_prod", "max": "ompi_mpi_op_max", "min": "ompi_mpi_op_min", "or": "ompi_mpi_op_bor",
       "absmax": "absmax", "absmin": "absmin", "land": "ompi_mpi_op_land", "&&": "ompi_mpi_op_land", "lor": "ompi_mpi_op_lor", "||": "ompi_mpi_op_lor",
       "band": "ompi_mpi_op_band", "&": "ompi_mpi_op_band", "bor": "ompi_mpi_op_bor", "|": "ompi_mpi_op_bor"}
TYPES = {"ARMCI_INT": ("ompi_mpi_int", 4), "ARMCI_LONG": ("ompi_mpi_long", 8), "ARMCI_LONG_LONG": ("ompi_mpi_long_long_int", 8),
         "ARMCI_FLOAT": ("ompi_mpi_float", 4), "ARMCI_DOUBLE": ("ompi_mpi_double", 8)}
LETTER = {"i": "ARMCI_INT", "l": "ARMCI_LONG", "ll": "ARMCI_LONG_LONG", "f": "ARMCI_FLOAT", "d": "ARMCI_DOUBLE"}
SELF = ("g", "ompi_mpi_comm_self")
WORLD = ("g", "ARMCI_GROUP_WORLD")


# ---- the finite domain of order types
class Unknown(Exception):
    pass


def ev(t, env):
    """value of a term for numbers in place of its elements; exact, because every number involved is a small integer or a half"""
    if t in env:
        return env[t]
    k = t[0]
    if k in ("c", "f"):
        return t[1]
    if k == "lin":
        return t[1] + sum(c * ev(a, env) for a, c in t[2])
    if k == "b":
        L = ev(t[3], env)
        r = L < t[4] if t[2] == "lt" else L == t[4] if t[2] == "eq" else None
        if r is None:
            raise Unknown
        return r != t[1]
    if k == "pure" and "abs" in t[1]:
        return abs(ev(t[2], env))
    if k == "op":
        a = [ev(x, env) for x in t[3:]]
        if t[1] in ("fpext", "fptrunc", "sext", "zext", "trunc", "sitofp"):
            return a[0]
        if t[1] == "fneg":
            return -a[0]
        if t[1] in ("fsub", "sub"):
            return a[0] - a[1]
        if t[1] in ("fadd", "add"):
            return a[0] + a[1]
        if t[1] == "fcmp":
            p = t[2][1:]
            return {"lt": a[0] < a[1], "le": a[0] <= a[1], "gt": a[0] > a[1], "ge": a[0] >= a[1], "eq": a[0] == a[1], "ne": a[0] != a[1]}[p]
        if t[1] == "select":
            return a[1] if a[0] else a[2]
    raise Unknown


NUMS = (-3, -2, -1, 0, 1, 2, 3)
PAIRS = frozenset((a, b) for a in NUMS for b in NUMS)
WANT = {"absmin": lambda a, b: min(abs(a), abs(b)), "absmax": lambda a, b: max(abs(a), abs(b)), "abs": lambda a, b: abs(a)}


class Elem(Monitor):
    """an operator applied to vectors of numbers: every element of the result, as a function of the two inputs"""
    name = "elem"

    def __init__(self, fn, what, size, n):
        self.fn, self.what, self.size, self.n = fn, WANT[what], size, n
        self.text = what
        self.sites = set()
        self.fill = Fill("done")

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.a = ("arg", 0, entry.params[0][1])
        self.b = ("arg", 1, entry.params[1][1])
        self.count = ("ld", ("arg", 2, entry.params[2][1]))
        st.mon[self.name] = frozenset()

    def pos(self, addr):
        for w, p in (("a", self.a), ("b", self.b)):
            if addr == p:
                return w, ("c", 0), self.size
            if addr[0] == "idx" and addr[1] == p:
                return w, addr[2], addr[3]
        return None

    def env(self, i, pair):
        e = {}
        for p, v in zip((self.a, self.b), pair):
            e[("ld", p if i == ("c", 0) else ("idx", p, i, self.size))] = v
        return e

    def feas(self, st, i):
        for x in st.mon[self.name]:
            if x[0] == "f" and x[1] == i:
                return x[2]
        return PAIRS

    def branch(self, eng, st, ins, cond, truth, ctx):
        it = {self.pos(t[1])[1] for t in subterms(cond) if t[0] == "ld" and self.pos(t[1])}
        if len(it) != 1:
            st.mon[self.name] = self.fill.branch(st, st.mon[self.name], ins, truth, [self.count])
            if self.fill.short:
                eng.report("operator", self.fill.short[1], "the loop stops %d short of the number of elements" % self.fill.short[0], st, ctx, key="short")
            return
        i = it.pop()
        try:
            ok = frozenset(p for p in self.feas(st, i) if bool(ev(cond, self.env(i, p))) == truth)
        except Unknown:
            return
        st.mon[self.name] = frozenset(x for x in st.mon[self.name] if x[:2] != ("f", i)) | {("f", i, ok)}

    def store(self, eng, st, ins, addr, val, ctx):
        p = self.pos(addr)
        if p is None:
            if root(addr)[0] == "arg":
                eng.report("operator", ins, "something other than the result vector is written", st, ctx, key="other")
            return
        w, i, size = p
        if w != "b" or size != self.size:
            return eng.report("operator", ins, "the %s is written with elements of %d bytes" % ("input" if w == "a" else "result", size), st, ctx, key="write")
        self.sites.add("%s:%s" % (ins.fn.name, ins.line))
        its = st.mon[self.name]
        if ("done", i) in its:
            eng.report("operator", ins, "an element is written twice", st, ctx, key="twice")
        try:
            bad = [q for q in sorted(self.feas(st, i)) if ev(val, self.env(i, q)) != self.what(*q)]
        except Unknown:
            return eng.report("operator", ins, "the element stored is not made of the two elements at its own place", st, ctx, key="terms")
        if bad:
            eng.report("operator", ins, "for elements ordered like %s and %s the %s is not what is stored" % (bad[0] + (self.text,)), st, ctx, key="value")
        st.mon[self.name] = self.fill.add(its, i, ins)

    def back_edge(self, eng, st, fn, header, ctx, phis):
        its = st.mon[self.name]
        # the symbolic place names another element in the next iteration
        if any(x[0] == "f" and ("done", x[1]) not in its for x in its):
            eng.report("operator", None, "an iteration ends without a result for its element", st, ctx, key="skip", fn=fn)
        st.mon[self.name] = frozenset(x for x in its if x[0] == "done" and (x[1] == "ended" or x[1][0] == "c"))

    def exit(self, eng, st, fn, ret):
        o = self.fill.owed(st, st.mon[self.name], self.count)
        if o:
            eng.report("operator", None, "the result " + o, st, 0, key="owed", fn=fn)


class Copied(Monitor):
    """a selection operator: whether the second record is replaced by the first"""
    name = "sel"

    def __init__(self, what, off, width, ty):
        self.less = what == "min"
        self.ty, self.w = ty, width
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.p = [("arg", k, entry.params[k][1]) for k in (0, 1)]
        self.dt = ("arg", 3, entry.params[3][1])
        st.mon[self.name] = frozenset([("f", frozenset((c, d, x, y) for c in (0, 1) for d in (0, 1) for x in (1, 2, 3) for y in (1, 2, 3)))])

    def atom(self, t):
        """('contribute' or 'data' of record 0 or 1)"""
        if t[0] != "ld":
            return None
        r = root(t[1])
        if r not in self.p:
            return None
        k = self.p.index(r)
        a = t[1]
        if a == r or a[0] == "fld" and a[1] == r and a[3] == 0:
            return k            # the leading field
        if a[0] == "fld" and a[1] == r and a[3] == 2:
            return 2 + k
        return -1

    def branch(self, eng, st, ins, cond, truth, ctx):
        at = {t: self.atom(t) for t in subterms(cond) if self.atom(t) is not None}
        if not at:
            return
        f = [x[1] for x in st.mon[self.name] if x[0] == "f"][0]
        if -1 in at.values():
            return
        try:
            ok = frozenset(q for q in f if bool(ev(cond, {t: q[k] for t, k in at.items()})) == truth)
        except Unknown:
            return
        st.mon[self.name] = frozenset(x for x in st.mon[self.name] if x[0] != "f") | {("f", ok)}

    def load(self, eng, st, ins, addr, val, ctx):
        if addr[0] == "fld" and addr[1] in self.p and addr[3] == 2 and ins.ty not in ("ptr", self.ty):
            eng.report("selection", ins, "the value is compared as %s instead of %s" % (ins.ty, self.ty), st, ctx, key="type")

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in COPY and root(args[1]) in self.p and args[0] not in self.p[:0]:
            self.sites.add("%s:%s" % (ins.fn.name, ins.line))
            if args[1] != self.p[0] or args[0] != self.p[1]:
                eng.report("selection", ins, "the copy is not of the whole first record over the second", st, ctx, key="copy")
            n = args[2]
            ok = ("pure", "MPI_Type_size", ("ld", self.dt)) in subterms(n)
            if not ok:
                eng.report("selection", ins, "the number of bytes copied is not the size of the record", st, ctx, key="len")
            st.mon[self.name] = st.mon[self.name] | {("copied",)}

    def exit(self, eng, st, fn, ret):
        its = st.mon[self.name]
        f = [x[1] for x in its if x[0] == "f"][0]
        cp = ("copied",) in its
        for c, d, x, y in sorted(f):
            if not c and not d or c and d and x == y:
                continue
            want = c and (not d or (x < y if self.less else x > y))
            if bool(want) != cp:
                eng.report("selection", None, "with %s contributing %s the second record is%s replaced" % (
                    "both" if c and d else "only the first" if c else "only the second", "" if not (c and d) else "and the first value %s" % ("less" if x < y else "greater"),
                    "" if cp else " not"), st, 0, key="sel%d%d%d" % (c, d, cp), fn=fn)
                break


# ---- what the global operations do with the data
class Gop(Monitor):
    name = "gop"
    RULES = ("reduction", "result")

    def __init__(self, m, x, n, op, ty, comm, ops, absfns):
        self.m, self.x, self.n, self.op, self.ty, self.comm, self.ops, self.absfns = m, x, n, op, ty, comm, ops, absfns
        self.mty, self.size = TYPES[ty]
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.X = ("arg", self.x, entry.params[self.x][1])
        self.N = ("arg", self.n, entry.params[self.n][1])
        st.mon[self.name] = frozenset()

    def content(self, st, p):
        for k, v in st.mon[self.name]:
            if k == p:
                return v
        return ("user",) if p == self.X else None

    def set(self, st, p, v):
        st.mon[self.name] = frozenset(x for x in st.mon[self.name] if x[0] != p) | {(p, v)}

    def full(self, n):
        if n == scale(self.N, self.size):
            return True
        c = mul(self.N, ("pure", "MPI_Type_size", ("g", self.mty)))
        return n == c

    def enter(self, eng, st, ins, fn, args, ctx):
        if fn in self.absfns:
            self.call(eng, st, ins, fn, args, ctx)

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in COPY:
            c = self.content(st, args[1])
            if c is not None or args[0] == self.X:
                if not self.full(args[2]):
                    eng.report("result", ins, "the copy does not cover the vector", st, ctx, key="copy")
                self.set(st, args[0], c or ("other",))
            return
        if fn in self.absfns:
            cnt, t = eng.rd(st, args[2]), eng.rd(st, args[3])
            if cnt != self.N or t != ("g", self.mty):
                eng.report("reduction", ins, "absolute values of another count or type are taken", st, ctx, key="abs")
            if self.comm != SELF and st.decide(cmp_term("eq", self.comm, SELF)) is not True and st.decide(cmp_term("eq", self.gsize(eng, st), ("c", 1))) is not True:
                eng.report("reduction", ins, "absolute values replace the reduction in a group that may have several members", st, ctx, key="absn")
            if not self.op.startswith("abs"):
                eng.report("reduction", ins, "absolute values are taken for operator %s" % self.op, st, ctx, key="absop")
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            self.set(st, args[1], ("red", self.content(st, args[0])))
            return
        if fn in ("MPI_Allreduce", "MPI_Reduce", "MPI_Scan", "MPI_Exscan", "MPI_Bcast", "MPI_Allgather"):
            if fn != "MPI_Allreduce":
                return eng.report("reduction", ins, "%s does not give every process the result" % fn, st, ctx, key=fn)
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            i, o, n, t, op, comm = args[:6]
            src = o if i == ("c", 1) else i
            if n != self.N:
                eng.report("reduction", ins, "the reduction is not over the caller's number of elements", st, ctx, key="count")
            if t != ("g", self.mty):
                eng.report("reduction", ins, "the reduction of %s elements uses %s" % (self.ty, t[1] if t[0] == "g" else "another type"), st, ctx, key="type")
            want = self.ops.get(OPS[self.op], ("g", OPS[self.op]))
            if op != want:
                eng.report("reduction", ins, "operator %s is reduced with %s" % (self.op, op[1] if op[0] == "g" else op[1][1] if op[0] == "ld" else "something else"), st, ctx, key="op")
            if comm != self.comm:
                eng.report("reduction", ins, "the reduction is over other processes than the scope and group name", st, ctx, key="comm")
            if self.op.startswith("abs") and (comm == SELF or st.decide(cmp_term("eq", self.gsize(eng, st), ("c", 1))) is True):
                eng.report("reduction", ins, "a reduction of a single process does not apply the operator, so the absolute value is not taken", st, ctx, key="single")
            self.set(st, o, ("red", self.content(st, src)))

    def gsize(self, eng, st):
        g = root(self.comm[1]) if self.comm[0] == "ld" else None
        for t in self.m.fields:
            if "size" in self.m.fields[t] and "comm" in self.m.fields[t] and g is not None:
                return eng.rd(st, ("fld", g, t, self.m.fields[t].index("size")))
        return ("undef",)

    def exit(self, eng, st, fn, ret):
        c = self.content(st, self.X)
        if c == ("red", ("user",)):
            return
        if st.decide(cmp_term("sle", self.N, ("c", 0))) is True:
            return
        eng.report("result", None, "the vector holds %s on return" % ("what the caller put there" if c == ("user",) else
                   "the reduction of something else than the caller's data" if c and c[0] == "red" else "a stale or unrelated copy"), st, 0, key=str(c), fn=fn)


class Sel(Gop):
    """selection: the record that is reduced is the caller's"""
    name = "gop"

    def __init__(self, m, op, comm, ops, args):
        self.m, self.op, self.comm, self.ops = m, op, comm, ops
        self.x, self.n, self.t, self.c = args
        self.sites = set()
        self.size = 1
        self.mty = "ompi_mpi_byte"
        self.absfns = ()
        self.hdr = m.sizeof("%struct.sel_data_t") if "%struct.sel_data_t" in m.types else None

    def start(self, eng, st, entry):
        Gop.start(self, eng, st, entry)
        self.T = ("arg", self.t, entry.params[self.t][1])
        self.C = ("arg", self.c, entry.params[self.c][1])

    def content(self, st, p):
        for k, v in st.mon[self.name]:
            if k == p:
                return v
        return ("user",) if p == self.X else None

    def call(self, eng, st, ins, fn, args, ctx):
        if fn == "MPI_Type_contiguous":
            self.set(st, ("type", ("out", fn, eng.ins_uid(ins), 2, ctx)), (args[0], args[1]))
            return
        if fn in COPY:
            return Gop.call(self, eng, st, ins, fn, args, ctx)
        if fn != "MPI_Allreduce":
            return
        self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
        i, o, n, t, op, comm = args[:6]
        rec = self.content(st, ("type", t))
        if rec is None:
            if n != ("c", 1):
                eng.report("reduction", ins, "the records are handed over as separate bytes, which MPI may reduce piece by piece", st, ctx, key="pieces")
            rec = (n, t)
        elif n != ("c", 1):
            eng.report("reduction", ins, "the reduction is not of one record", st, ctx, key="count")
        d = rec[0]
        while d[0] in ("trunc", "sext", "zext"):
            d = d[1]
        d = add(d, self.N, -1)
        if d[0] != "c" or d[1] < 8 or rec[1] not in (("g", "ompi_mpi_byte"), ("g", "ompi_mpi_char")):
            eng.report("reduction", ins, "the record reduced is not as long as the caller's data and its description", st, ctx, key="bytes")
        want = self.ops.get(self.op)
        if op != want:
            eng.report("reduction", ins, "selection %s uses another operator" % self.op, st, ctx, key="op")
        if comm != self.comm:
            eng.report("reduction", ins, "the selection is over other processes than the scope names", st, ctx, key="comm")
        f = {}
        for a, v in list(st.mem.items()):
            if a == i or a[0] == "fld" and a[1] == i:
                f[0 if a == i else a[3]] = v
        if f.get(0) != self.C:
            eng.report("reduction", ins, "the record does not say whether the caller contributes", st, ctx, key="contribute")
        if f.get(1) != self.T:
            eng.report("reduction", ins, "the record does not carry the caller's type", st, ctx, key="ty")
        data = None
        for k, v in st.mon[self.name]:
            if k[0] == "fld" and k[1] == i and k[3] == 2:
                data = v
        if data != ("user",) and st.decide(cmp_term("eq", self.C, ("c", 0))) is not True:
            eng.report("reduction", ins, "the record does not carry the caller's data although the caller contributes", st, ctx, key="data")
        ty = [t for t in self.m.types if "sel_data" in t]
        self.set(st, ("fld", o, ty[0] if ty else "?", 2), ("red", ("user",)))


def opnames(c):
    """operator globals by what their functions compute: name -> ('ld', global)"""
    m = c.m
    out = {}
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op == "call" and i.extra[0] == ("g", "MPI_Op_create"):
                a = i.ops[0:]
                fnp, opg = [x for x in a if x[0] == "g"][:2]
                out[opg[1]] = m.resolve(fnp[1])
    return out


def setop(m, s, i):
    def setup(eng, st, args):
        for k, ch in enumerate(s + "\0"):
            st.mem[eng.index(args[i], ("c", k), 1)] = ("c", ord(ch))
    setup.label = "op=" + s
    return setup


def setarg(i, v, label):
    def setup(eng, st, args):
        args[i] = ("c", v)
    setup.label = label
    return setup


def run(c):
    c.rule("reduction", "a global operation reduces the caller's vector with the named operator, in the named type and count, over the processes of the named scope and group")
    c.rule("result", "the caller's vector holds the result of that reduction on return, and nothing stale")
    c.rule("operator", "the minimum and maximum of absolute values, and the absolute value, are right for every element of the vector and every order of the two values")
    c.rule("selection", "selection keeps the contributed record with the smaller (larger) value, whole")
    m = c.m
    en = m.enums
    opf = opnames(c)
    c.need(len(opf) >= 4, "only %d user-defined operators are created" % len(opf))
    ops, selops = {}, {}
    for g, f in opf.items():
        k = g.lower()
        w = "absmin" if "absmin" in k else "absmax" if "absmax" in k else None
        if w:
            ops[w] = ("g", "operator " + g)
            for t, (mt, size) in TYPES.items():
                elem(c, f, w, mt, size)
        elif "sel" in k:
            w = "min" if "min" in k else "max"
            selops[w] = ("g", "operator " + g)
            for t, (mt, size) in TYPES.items():
                select(c, f, w, t, en[t], {"ARMCI_INT": "i32", "ARMCI_LONG": "i64", "ARMCI_LONG_LONG": "i64", "ARMCI_FLOAT": "float", "ARMCI_DOUBLE": "double"}[t])
    c.need(len(ops) == 2 and len(selops) == 2, "the user-defined operators are not recognised")
    absf = [f.name for f in m.funcs.values() if len(f.params) == 4 and f.name not in opf.values() and
            any(i.op == "call" and i.extra[0] == ("g", f.name) and len(i.ops) >= 4 for g in m.funcs.values() for i in g.instrs()) and vecop(m, f)]
    for f in absf:
        for t, (mt, size) in TYPES.items():
            elem(c, f, "abs", mt, size)
    # the operations themselves
    sb = sorted(v for k, v in en.items() if k.startswith("ARMCII_SHR_BUF_"))
    G = "armci_msg_group_gop_scope"
    grp = ("arg", 5, m.funcs[G].params[5][1])
    scopes = {k: v for k, v in en.items() if k.startswith("SCOPE_")}
    c.need(len(scopes) == 3, "the scopes are not recognised")
    cells = []
    for s in sb:
        for op in OPS:
            for t in TYPES:
                if t != "ARMCI_INT" and op not in ("+", "absmax"):
                    continue
                for sc in scopes:
                    if sc != "SCOPE_ALL" and op not in ("+", "absmin"):
                        continue
                    cells.append((s, op, t, sc))
    for s, op, t, sc in cells:
        comm = SELF if sc == "SCOPE_NODE" else comm_of(m, grp)
        st = both(pin(shr_buf_method=s), setop(m, op, 3), setarg(4, en[t], t), setarg(0, scopes[sc], sc))
        one(c, G, lambda e, op=op, t=t, comm=comm: [Gop(m, 1, 2, op, t, comm, ops, absf)], st, absf)
    for f in sorted(m.funcs):
        if f.startswith("armci_msg_") and f.endswith("gop") and f != "armci_msg_gop":
            group = f.startswith("armci_msg_group_")
            l = f[len("armci_msg_group_" if group else "armci_msg_"):-3]
            if l not in LETTER:
                continue
            comm = comm_of(m, ("arg", 3, m.funcs[f].params[3][1])) if group else comm_of(m, WORLD)
            one(c, f, lambda e, l=l, comm=comm: [Gop(m, 0, 1, "+", LETTER[l], comm, ops, absf)], both(pin(shr_buf_method=sb[0]), setop(m, "+", 2)), absf)
    for sc in scopes:
        comm = SELF if sc == "SCOPE_NODE" else comm_of(m, WORLD)
        one(c, "armci_msg_gop_scope", lambda e, comm=comm: [Gop(m, 1, 2, "min", "ARMCI_LONG", comm, ops, absf)],
            both(pin(shr_buf_method=sb[0]), setop(m, "min", 3), setarg(4, en["ARMCI_LONG"], ""), setarg(0, scopes[sc], sc)), absf)
        for s in sb:
            for op in ("min", "max"):
                one(c, "armci_msg_sel_scope", lambda e, comm=comm, op=op: [Sel(m, op, comm, selops, (1, 2, 4, 5))],
                    both(pin(shr_buf_method=s), setop(m, op, 3), setarg(0, scopes[sc], sc)), ())
    one(c, "armci_msg_sel", lambda e: [Sel(m, "max", comm_of(m, WORLD), selops, (0, 1, 3, 4))], both(pin(shr_buf_method=sb[0]), setop(m, "max", 2)), ())
    c.floor("reduction", 40)
    c.floor("result", 60)
    c.floor("operator", 8)
    c.floor("selection", 10)


def comm_of(m, g):
    for t in m.fields:
        if "size" in m.fields[t] and "comm" in m.fields[t] and "abs_to_grp" in m.fields[t]:
            k = m.fields[t].index("comm")
            return ("ld", g if g[0] == "g" and not k else ("fld", g, t, k))
    raise AnalysisBroken("the group's communicator is not recognised")


def one(c, f, fac, st, absf):
    def ops(eng, s, args):
        for g in opnames(c):
            s.mem[("g", g)] = ("g", "operator " + g)
    st = both(ops, st)
    for r in c.explore([f], fac, setup=lambda e: st, kw=dict(budget=60000, fold=True, opaque=tuple(absf))):
        c.inst("result", r["entry"] + " " + r["label"])
        for s in r["extra"]["gop"]:
            c.inst("reduction", r["label"] + " " + s)


def vecop(m, f):
    """void f(in, inout, len, datatype): reads a count through its third and a datatype through its fourth argument"""
    if any(t != "ptr" for t, _ in f.params):
        return False
    ld = {i.ops[0] for i in f.instrs() if i.op == "load"}
    return ("r", f.params[2][1]) in ld and ("r", f.params[3][1]) in ld


def elem(c, f, what, mt, size):
    def setup(eng, st, args):
        st.mem[args[3]] = ("g", mt)
    setup.label = mt
    for r in c.explore([f], lambda e: [Elem(f, what, size, None)], setup=lambda e: setup, kw=dict(budget=60000, fold=True)):
        if r["exits"]:
            c.inst("operator", "%s %s" % (f, mt), *["%s %s" % (s, mt) for s in r["extra"]["elem"]])
        else:
            c.fail("operator", "elements of type %s are rejected" % mt, fn=c.m.funcs[f], key=mt)


def select(c, f, what, t, val, ty):
    tn = [x for x in c.m.types if "sel_data" in x]
    c.need(tn, "the selection record is not recognised")

    def setup(eng, st, args):
        for k in (0, 1):
            st.mem[("fld", args[k], tn[0], 1)] = ("c", val)
    setup.label = t
    for r in c.explore([f], lambda e: [Copied(what, None, None, ty)], setup=lambda e: setup, kw=dict(budget=60000, fold=True)):
        if r["exits"] > 1:
            c.inst("selection", "%s %s" % (f, t), *["%s %s" % (s, t) for s in r["extra"]["sel"]])
        else:
            c.fail("selection", "values of type %s are rejected" % t, fn=c.m.funcs[f], key=t)
