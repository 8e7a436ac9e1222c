"""Accumulates add scale*source, element-wise and atomically, in the element type the caller named."""
import base
from interp import Monitor, subterms, cmp_term, root, add
from mpi import RMA, COPY
from rma import okey, allocated
from ir import AnalysisBroken
from profiles import nonnull, both, pin

EXPLANATION = ("Path-sensitive analysis of every accumulate entry point (contiguous, strided, vector; blocking and nonblocking), once per element type and per "
               "combination of transfer methods: the kind, operator and (possibly derived) element type of each MPI operation, and whether its source data "
               "was scaled on every path on which the scale factor is not known to be one.  The scaling loop itself is checked by normalising each stored "
               "value to a polynomial over the source and scale elements.")
ASSUMPTIONS = ["MPI accumulates with the sum operator are atomic per element, as the MPI standard says",
               "a scale factor within the type's epsilon of one counts as one",
               "MPI derived datatypes describe the bytes the MPI standard says they do"]
TYPES = {"ARMCI_ACC_INT": ("int", {"ompi_mpi_int"}), "ARMCI_ACC_LNG": ("long", {"ompi_mpi_long"}), "ARMCI_ACC_FLT": ("float", {"ompi_mpi_float"}),
         "ARMCI_ACC_DBL": ("double", {"ompi_mpi_double"}), "ARMCI_ACC_CPL": ("complex", {"ompi_mpi_float", "ompi_mpi_c_complex", "ompi_mpi_cplex", "ompi_mpi_c_float_complex"}),
         "ARMCI_ACC_DCP": ("double complex", {"ompi_mpi_double", "ompi_mpi_c_double_complex", "ompi_mpi_dblcplex"})}
WIDTH = {"int": "i32", "long": "i64", "float": "float", "double": "double", "complex": "float", "double complex": "double"}
DERIVE = {"MPI_Type_contiguous": (1, 2), "MPI_Type_vector": (3, 4), "MPI_Type_create_hvector": (3, 4), "MPI_Type_hvector": (3, 4), "MPI_Type_indexed": (3, 4),
          "MPI_Type_create_hindexed": (3, 4), "MPI_Type_create_indexed_block": (3, 4), "MPI_Type_create_hindexed_block": (3, 4),
          "MPI_Type_create_subarray": (5, 6), "MPI_Type_create_resized": (0, 3), "MPI_Type_dup": (0, 1)}
ENTRIES = {"PARMCI_Acc": (0, 1, 2), "PARMCI_NbAcc": (0, 1, 2), "PARMCI_AccS": (0, 1, 2), "PARMCI_NbAccS": (0, 1, 2), "PARMCI_AccV": (0, 1, 2), "PARMCI_NbAccV": (0, 1, 2)}


def scale_test(cond, truth, scale, width):
    """which part of the scale factor the branch shows to be that of the identity: 0 (real part is 1), 1 (imaginary part is 0)"""
    neg = False
    while cond[0] == "b" and cond[3][0] != "ld":
        if cond[2] != "eq" or cond[4] not in (0, 1):
            return None
        if (cond[4] == 0) != cond[1]:
            truth = not truth
        cond = cond[3]
    if cond[0] == "b":
        _, n, kind, L, c = cond
        if kind == "eq" and truth != n and L == ("ld", scale) and c == 1:
            return 0
        return None
    if cond[0] != "op" or cond[1] != "fcmp":
        return None
    pred, a, b = cond[2], cond[3], cond[4]
    if pred[1:] in ("gt", "ge"):
        pred, a, b = {"gt": pred[0] + "lt", "ge": pred[0] + "le"}[pred[1:]], b, a

    def which(x, y):
        if y[0] == "f" and x[0] == "ld":
            if x[1] == scale and y[1] == 1.0:
                return 0
            if x[1][0] == "idx" and x[1][1] == scale and x[1][2] == ("c", 1) and y[1] == 0.0:
                return 1
        return None
    if (pred in ("oeq", "ueq") and truth) or (pred in ("one", "une") and not truth):
        r = which(a, b)
        return r if r is not None else which(b, a)
    if pred[1:] in ("lt", "le") and truth and a[0] == "pure" and "fabs" in a[1] and b[0] == "f" and 0 <= b[1] < 1e-6:
        d = a[2]
        if d[0] == "op" and d[1] == "fsub":
            r = which(d[3], d[4])
            return r if r is not None else which(d[4], d[3])
        return which(d, ("f", 0.0))
    return None


class Acc(Monitor):
    name = "acc"

    def __init__(self, dt, sc, src, tyname, mpi, dval):
        self.dt, self.sc, self.srcarg, self.ty, self.mpi, self.dval = dt, sc, src, tyname, mpi, dval
        self.complex = "complex" in tyname
        self.rmas, self.scalers, self.lp = set(), set(), {}

    def collect(self):
        return dict(rmas=sorted(self.rmas), scalers=sorted(self.scalers))

    def start(self, eng, st, entry):
        self.scale = ("arg", self.sc, entry.params[self.sc][1])
        st.mon[self.name] = frozenset()

    def put(self, st, *x):
        st.mon[self.name] = st.mon[self.name] | frozenset(x)

    def branch(self, eng, st, ins, cond, truth, ctx):
        self.decided(eng, st, ins, cond, truth, ctx)
        if cond[0] == "c" or self.scale not in subterms(cond):
            return
        r = scale_test(cond, truth, self.scale, None)
        if r is not None:
            self.put(st, ("id", r))

    def decided(self, eng, st, ins, cond, truth, ctx):
        b = ins.block.name
        if b in self.loops(eng, ins.fn) and ins.extra[0 if truth else 1] not in ins.fn.loops[b]:
            it = ("iter", ins.fn.name, b)
            if it in st.mon[self.name]:
                st.mon[self.name] = st.mon[self.name] - {it}
            else:
                self.put(st, ("empty",))

    def back_edge(self, eng, st, fn, header, ctx, phis):
        if header in self.loops(eng, fn):
            self.put(st, ("iter", fn.name, header))

    def scales(self, eng, name):
        return name in eng.summ and any(i.op == "fmul" for i in eng.m.funcs[name].instrs())

    def loops(self, eng, fn):
        """the headers of the loops that scale something"""
        r = self.lp.get(fn.name)
        if r is None:
            r = self.lp[fn.name] = {h for h, body in fn.loops.items()
                                    if any(i.op == "call" and i.extra[0][0] == "g" and self.scales(eng, eng.m.resolve(i.extra[0][1]))
                                           for b in body for i in fn.blocks[b].ins)}
        return r

    def identity(self, st):
        its = st.mon[self.name]
        return ("id", 0) in its and (not self.complex or ("id", 1) in its)

    def base(self, st, t):
        for _ in range(8):
            if t[0] == "g":
                return t[1]
            n = [x[2] for x in st.mon[self.name] if x[0] == "ty" and x[1] == t]
            if not n:
                return None
            t = n[0]
        return None

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in DERIVE:
            i, o = DERIVE[fn]
            t = ("out", fn, eng.ins_uid(ins), o, ctx)
            st.mon[self.name] = frozenset(x for x in st.mon[self.name] if not (x[0] == "ty" and x[1] == t))
            self.put(st, ("ty", t, args[i]))
            return
        if fn in RMA:
            d = RMA[fn]
            self.rmas.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            if d["kind"] not in ("acc", "gacc") or args[d["op"]] != ("g", "ompi_mpi_op_sum"):
                eng.report("acc-operation", ins, "%s is not an accumulate with the sum operator" % fn, st, ctx, key="op")
                return
            for k in ("ot", "tt"):
                b = self.base(st, args[d[k]])
                if b is not None and b not in self.mpi:
                    eng.report("acc-operation", ins, "the %s element type of an accumulate of type %s is %s" %
                               ("source" if k == "ot" else "target", self.ty, b), st, ctx, key=k + str(b))
                if b is None and args[d[k]][0] in ("arg", "c"):
                    eng.report("acc-operation", ins, "the element type of the accumulate does not come from the caller's type", st, ctx, key=k)
            if not self.identity(st) and ("empty",) not in st.mon[self.name]:
                ok = okey(args[d["o"]])
                its = st.mon[self.name]
                sc = [x[1] for x in its if x[0] == "scaled"]
                hit = ok in sc or (args[d["o"]] == ("c", 0) or ok[0] in ("elt", "at", "ld", "hv", "wid", "join", "phi")) and sc
                if not hit:
                    eng.report("acc-scaled", ins, "the source of the accumulate was not scaled although the scale factor need not be one",
                               st, ctx, key="scaled")
            return
        if fn in eng.summ and self.scale in args:
            outs = eng.summ[fn]
            for n in outs:
                if n < len(args):
                    self.put(st, ("scaled", okey(args[n])))
                    src = [k for k, a in enumerate(args) if k not in outs and k < len(ins.extra[1]) and ins.extra[1][k] == "ptr" and a != self.scale]
                    dts = [k for k, a in enumerate(args) if ins.extra[1][k] == "i32" and a == ("c", self.dval)]
                    self.scalers.add((fn, n, src[0] if src else -1, dts[-1] if dts else -1, args.index(self.scale)))
            return
        if fn in COPY:
            self.copied(st, okey(args[0]), okey(args[1]))

    def copied(self, st, d, s):
        its = st.mon[self.name]
        if ("scaled", s) in its:
            self.put(st, ("scaled", d))
        elif ("scaled", d) in its and d[0] != "elt":
            st.mon[self.name] = its - {("scaled", d)}

    def load(self, eng, st, ins, addr, val, ctx):
        if root(addr) == self.scale and ins.ty != WIDTH[self.ty]:
            eng.report("acc-scaled", ins, "the scale factor of %s data is read as %s" % (self.ty, ins.ty), st, ctx, key="width" + self.ty)

    def store(self, eng, st, ins, addr, val, ctx):
        if self.scale in subterms(val) and val[0] in ("op", "mul"):
            self.put(st, ("scaled", okey(addr)))


def poly(v):
    """term -> {monomial (sorted tuple of atoms): coefficient}"""
    if v[0] == "c" or v[0] == "f":
        return {(): v[1]} if v[1] else {}
    if v[0] == "lin":
        r = {(): v[1]} if v[1] else {}
        for a, k in v[2]:
            for mo, c in poly(a).items():
                r[mo] = r.get(mo, 0) + c * k
        return r

    def prod(x, y):
        r = {}
        for a, c in x.items():
            for b, d in y.items():
                k = tuple(sorted(a + b, key=repr))
                r[k] = r.get(k, 0) + c * d
        return {k: c for k, c in r.items() if c}
    if v[0] == "mul":
        return prod(poly(v[1]), poly(v[2]))
    if v[0] == "op" and v[1] in ("fmul", "fadd", "fsub"):
        a, b = poly(v[3]), poly(v[4])
        if v[1] == "fmul":
            return prod(a, b)
        r = dict(a)
        for k, c in b.items():
            r[k] = r.get(k, 0) + (c if v[1] == "fadd" else -c)
        return {k: c for k, c in r.items() if c}
    if v[0] == "op" and v[1] == "fneg":
        return {k: -c for k, c in poly(v[-1]).items()}
    return {(v,): 1}


class Formula(Monitor):
    name = "formula"

    def __init__(self, ty, out, src, scale):
        self.ty, self.o, self.s, self.c = ty, out, src, scale
        self.kinds = set()
        self.bad = False
        self.starts, self.offs, self.steps, self.stops = set(), {}, {}, {}

    def start(self, eng, st, entry):
        A = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        self.out, self.src, self.scale = A[self.o], A[self.s], A[self.c]
        self.fn = entry
        st.mon[self.name] = frozenset()

    def collect(self):
        return sorted(self.kinds)

    def finish(self, eng):
        def bad(key, msg, line):
            eng.reports[("acc-formula", self.fn.name, self.ty + key)] = dict(
                rule="acc-formula", file=self.fn.file, line=line, function=self.fn.name, entry=eng.entry_name, chain=[], path=[], key=key + self.ty, msg=msg)
        if not self.bad and self.starts and min(self.starts) > 0:
            bad("start", "the scaling loop for %s data starts at element %d" % (self.ty, min(self.starts)), self.fn.line)
        for r, off in self.offs.items():
            if not self.bad and r in self.steps and self.steps[r][0] > len(off):
                bad("step", "the scaling loop for %s data advances by %d elements and writes %d" % (self.ty, self.steps[r][0], len(off)), self.steps[r][1])
            if not self.bad and r in self.stops and self.stops[r][0] > self.steps.get(r, (99, 0))[0]:
                bad("stop", "the scaling loop for %s data stops %d element(s) early" % (self.ty, self.stops[r][0] - self.steps[r][0]), self.stops[r][1])
        need = {"re", "im"} if "complex" in self.ty else {"el"}
        if not self.bad and not need <= self.kinds:
            eng.reports[("acc-formula", self.fn.name, self.ty)] = dict(
                rule="acc-formula", file=self.fn.file, line=self.fn.line, function=self.fn.name, entry=eng.entry_name, chain=[], path=[],
                key="missing " + self.ty, msg="the scaled copy of %s data is never written (%s)" % (self.ty, ", ".join(sorted(need - self.kinds))))

    def index(self, addr):
        return addr[2] if addr[0] == "idx" and addr[1] == self.out else ("c", 0)

    def visit(self, addr):
        """note which elements the loops write: constant ones, and offsets from a loop counter"""
        i = self.index(addr)
        if i[0] == "c":
            self.starts.add(i[1])
            return
        c, at = (i[1], i[2]) if i[0] == "lin" else (0, ((i, 1),))
        ph = [a for a, k in at if a[0] == "phi" and k == 1]
        if len(at) == 1 and ph:
            self.offs.setdefault(ph[0][2], set()).add(c)

    def back_edge(self, eng, st, fn, header, ctx, phis):
        for res, new, old in phis:
            new = eng.val(st, new)
            if new[0] == "lin" and len(new[2]) == 1 and new[2][0][1] == 1 and new[2][0][0] == old:
                self.steps[res] = (new[1], fn.blocks[header].ins[0].line if fn.blocks[header].ins else fn.line)

    def branch(self, eng, st, ins, cond, truth, ctx):
        b = ins.block.name
        if cond[0] != "b" or cond[2] != "lt" or b not in ins.fn.loops or ins.extra[0 if truth else 1] in ins.fn.loops[b]:
            return
        _, neg, kind, L, c = cond
        if L[0] != "lin" or L[1] or (truth == neg):
            return
        ph = [a for a, k in L[2] if a[0] == "phi" and k == -1]
        dv = [a for a, k in L[2] if a[0] == "op" and a[1] in ("sdiv", "udiv") and k == 1]
        if len(L[2]) == 2 and ph and dv:
            self.stops[ph[0][2]] = max(self.stops.get(ph[0][2], (0, 0)), (c, ins.line))

    def el(self, base, addr, other):
        """the element of `other` with the same index as addr in base, shifted by n"""
        e = 8 if WIDTH[self.ty] in ("i64", "double") else 4

        def f(n):
            if addr == base:
                i = ("c", 0)
            elif addr[0] == "idx" and addr[1] == base and addr[3] == e:
                i = addr[2]
            else:
                return None
            i = add(i, ("c", n))
            a = other if i == ("c", 0) else ("idx", other, i, e)
            return ("ld", a)
        return f

    def load(self, eng, st, ins, addr, val, ctx):
        if root(addr) in (self.scale, self.src) and ins.ty != WIDTH[self.ty]:
            self.bad = True
            eng.report("acc-formula", ins, "%s data is scaled with element type %s" % (self.ty, ins.ty), st, ctx, key="width" + self.ty)

    def store(self, eng, st, ins, addr, val, ctx):
        if root(addr) != self.out:
            return
        if ins.ty != WIDTH[self.ty]:
            self.bad = True
            eng.report("acc-formula", ins, "%s data is scaled with element type %s" % (self.ty, ins.ty), st, ctx, key="width" + self.ty)
            return
        self.visit(addr)
        f = self.el(self.out, addr, self.src)
        s0 = ("ld", self.scale)
        e = 8 if WIDTH[self.ty] in ("i64", "double") else 4
        s1 = ("ld", ("idx", self.scale, ("c", 1), e))
        m = lambda *x: tuple(sorted(x, key=repr))
        if f(0) is None:
            self.bad = True
            return eng.report("acc-formula", ins, "scaled %s data is stored at an unexpected place" % self.ty, st, ctx, key="place" + self.ty)
        p = poly(val)
        if "complex" not in self.ty:
            ok = p == {m(f(0), s0): 1}
            kind = "el"
        elif p == {m(f(0), s0): 1, m(f(1), s1): -1}:
            ok, kind = True, "re"
        elif p == {m(f(0), s0): 1, m(f(-1), s1): 1}:
            ok, kind = True, "im"
        else:
            ok = False
        if ok:
            self.kinds.add(kind)
        else:
            self.bad = True
            eng.report("acc-formula", ins, "the value stored is not the product of a %s source element and the scale factor" % self.ty, st, ctx,
                       key="value" + self.ty)


def run(c):
    m = c.m
    c.rule("acc-operation", "an accumulate issues only MPI accumulates with the sum operator, whose element type is the one the caller named")
    c.rule("acc-scaled", "unless the scale factor was found to be one, the data an accumulate sends was scaled")
    c.rule("acc-formula", "scaling multiplies every element (complex: by the complex product) in the element type named")
    prof = base.profiles(m)
    deep = c.tier == "thorough"
    sd, auto = m.enums["ARMCII_STRIDED_DIRECT"], m.enums["ARMCII_IOV_AUTO"]
    keep = tuple(f.name for f in m.funcs.values() if any(i.op == "fcmp" for i in f.instrs()) and not f.loops)
    kw = base.kw(m, fold_names=(), keep=keep, field_lo={**base.FIELD_LO, ("%struct.armci_giov_t", "ptr_array_len"): 1})

    def profs(e, tn):
        """quick: every combination of transfer methods for one simple and one complex type; the others with the copy of shared sources on,
        through the vector methods and the direct strided method"""
        fs = prof(e)
        if deep:
            return fs
        has = lambda f, k, v: ("%s=%s" % (k, v)) in f.label.split(",")
        fs = [f for f in fs if not has(f, "iov_method", auto)]
        if e in base.STRIDED:
            fs = [f for f in fs if not has(f, "iov_method", m.enums["ARMCII_IOV_DIRECT"])]
        if tn not in ("ARMCI_ACC_INT", "ARMCI_ACC_DCP"):
            fs = [f for f in fs if has(f, "shr_buf_method", 0)]
            if e in base.STRIDED:
                fs = [f for f in fs if has(f, "strided_method", sd)]
        return fs
    scalers = {}
    for tn, (ty, mpi) in TYPES.items():
        c.need(tn in m.enums, "element type %s not found" % tn)
        d = m.enums[tn]

        def args(e):
            f = m.funcs[m.resolve(e)]
            return [("c", d) if i == ENTRIES[e][0] else ("arg", i, p[1]) for i, p in enumerate(f.params)]
        for r in c.explore(list(ENTRIES), lambda e: [Acc(*ENTRIES[e], ty, mpi, d)], setup=lambda e: [both(f, nonnull(ENTRIES[e][1])) for f in profs(e, tn)],
                           kw=kw, args=args):
            for s in r["extra"]["acc"]["rmas"]:
                c.inst("acc-operation", "%s %s %s" % (r["entry"], ty, s))
                c.inst("acc-scaled", "%s %s %s" % (r["entry"], ty, s))
            for s in r["extra"]["acc"]["scalers"]:
                scalers.setdefault((ty, d), set()).add(s)
    for (ty, d), ss in sorted(scalers.items()):
        for fn, o, s, dt, sc in sorted(ss):
            if -1 in (s, dt):
                continue

            def args(e):
                return [("c", d) if i == dt else ("arg", i, p[1]) for i, p in enumerate(m.funcs[e].params)]
            for r in c.explore([fn], lambda e: [Formula(ty, o, s, sc)], kw=dict(summarize=False), args=args):
                c.inst("acc-formula", *["%s %s %s" % (fn, ty, k) for k in r["extra"]["formula"]])
    c.floor("acc-operation", 24)
    c.floor("acc-formula", 6)
