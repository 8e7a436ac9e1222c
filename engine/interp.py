"""Flow- and path-sensitive abstract interpretation of the linked program.

A state is (environments of the active frames, abstract memory, branch facts, monitor states).
States are propagated through the CFG to a fixpoint; callees with a body are entered with the
caller's state (context = chain of call sites), callees without a body are modelled by the table
below.  Two states at the same program point with the same key are explored once; when too many
distinct states reach one point those with equal monitor state are merged (facts are joined), so
the domain is finite.  Values are canonical terms; branch facts are intervals / excluded values of
linear terms.  There is no solver and nothing is executed.
"""
import sys, heapq, itertools
from ir import AnalysisBroken
sys.setrecursionlimit(20000)

# ----------------------------------------------------------------------------- terms
C0, C1 = ("c", 0), ("c", 1)
SPECIAL = ("copy", "zero", "hav", "gc")     # bookkeeping keys in the abstract memory


def is_c(v):
    return v[0] == "c"


def lin(v):
    """term -> (const, {atom: coef})"""
    t = v[0]
    if t == "c":
        return v[1], {}
    if t == "lin":
        return v[1], dict(v[2])
    if t == "idx":
        c, d = lin(v[1])
        c2, d2 = lin(v[2])
        s = v[3]
        c += c2 * s
        for a, k in d2.items():
            d[a] = d.get(a, 0) + k * s
            if d[a] == 0:
                del d[a]
        return c, d
    return 0, {v: 1}


def mk(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return ("c", c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    return ("lin", c, tuple(sorted(d.items(), key=repr)))


def add(a, b, s=1):
    if a[0] == "c" and b[0] == "c":
        return ("c", a[1] + s * b[1])
    ca, da = lin(a)
    cb, db = lin(b)
    for x, k in db.items():
        da[x] = da.get(x, 0) + s * k
    return mk(ca + s * cb, da)


def scale(a, k):
    c, d = lin(a)
    return mk(c * k, {x: y * k for x, y in d.items()})


def mul(a, b):
    if a[0] == "c":
        return scale(b, a[1])
    if b[0] == "c":
        return scale(a, b[1])
    # distribute nothing: canonical commutative product
    x, y = sorted((a, b), key=repr)
    return ("mul", x, y)


def neg(b):
    if b[0] == "c":
        return C0 if b[1] else C1
    if b[0] == "b":
        return ("b", not b[1]) + b[2:]
    return ("b", False, "eq", b, 0)


def cmp_term(pred, a, b, ptr=False):
    u = pred[0] == "u" and not ptr
    p = pred[1:] if pred[0] in "us" and pred not in ("une", "ueq") else pred
    if a[0] == "b" or b[0] == "b":
        # comparison of a boolean with a constant
        if b[0] == "b":
            a, b = b, a
        if b[0] == "c" and p in ("eq", "ne"):
            if b[1] not in (0, 1):
                return C0 if p == "eq" else C1
            same = (p == "ne") == (b[1] == 0)
            return a if same else neg(a)
        if b[0] == "c":
            # 0/1 valued: a < c etc.
            f0, f1 = [eval(str(x) + {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}[p] + str(b[1])) for x in (0, 1)]
            if f0 == f1:
                return C1 if f0 else C0
            return a if f1 else neg(a)
    c, d = lin(add(a, b, -1))
    # now: d + c  p  0
    if not d:
        r = {"eq": c == 0, "ne": c != 0, "lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[p]
        return C1 if r else C0
    if u and p == "ge" and b == C0:
        return C1
    if u and p == "lt" and b == C0:
        return C0
    if c == 0 and len(d) == 2 and p in ("eq", "ne") and all(x[0] == "g" and k in (1, -1) for x, k in d.items()):
        return C0 if p == "eq" else C1      # two different objects
    items = sorted(d.items(), key=repr)
    from math import gcd
    g = 0
    for _, k in items:
        g = gcd(g, abs(k))
    kc = -c           # L p kc
    flip = items[0][1] < 0
    if flip:
        d = {x: -k for x, k in d.items()}
        kc = -kc
        p = {"lt": "gt", "gt": "lt", "le": "ge", "ge": "le"}.get(p, p)
    kind = "ult" if u else "lt"
    if g > 1 and p in ("eq", "ne") and kc % g == 0:
        d = {x: k // g for x, k in d.items()}
        kc //= g
    L = mk(0, d)
    if p == "eq":
        return ("b", False, "eq", L, kc)
    if p == "ne":
        return ("b", True, "eq", L, kc)
    if p == "lt":
        return ("b", False, kind, L, kc)
    if p == "le":
        return ("b", False, kind, L, kc + 1)
    if p == "gt":
        return ("b", True, kind, L, kc + 1)
    if p == "ge":
        return ("b", True, kind, L, kc)
    raise AnalysisBroken("pred " + pred)


_sub = {}


def subterms(v):
    """frozenset of all sub-terms of a term (memoised)"""
    r = _sub.get(v)
    if r is None:
        acc = {v}
        for x in v:
            if isinstance(x, tuple) and x:
                acc |= subterms(x)
        r = _sub[v] = frozenset(acc)
    return r


def atoms_in(v, acc=None):
    """all sub-terms"""
    if acc is None:
        acc = set()
    st = [v]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x in acc:
                continue
            acc.add(x)
            st.extend(x)
    return acc


def contains(v, a):
    if v == a:
        return True
    if isinstance(v, tuple):
        for x in v:
            if isinstance(x, tuple) and contains(x, a):
                return True
    return False


def subst(v, a, b, cache):
    if v == a:
        return b
    if not isinstance(v, tuple) or v == b:
        return v
    r = cache.get(v)
    if r is not None:
        return r
    n = tuple(subst(x, a, b, cache) if isinstance(x, tuple) else x for x in v)
    if n == v:
        n = v
    elif n and n[0] == "lin" and len(n) == 3:
        c, d = n[1], {}
        for x, k in n[2]:
            c2, d2 = lin(x) if x[0] in ("c", "lin") else (0, {x: 1})
            c += k * c2
            for y, k2 in d2.items():
                d[y] = d.get(y, 0) + k * k2
        n = mk(c, d)
    cache[v] = n
    return n


def root(addr):
    """base object of an address term"""
    while addr[0] in ("fld", "idx"):
        addr = addr[1]
    return addr


def strip_idx(addr):
    while addr[0] == "idx":
        addr = addr[1]
    return addr


def show(v, m=None, d=0):
    """human-readable rendering of a term"""
    if not isinstance(v, tuple):
        return str(v)
    t = v[0]
    if d > 7:
        return "..."
    r = lambda x: show(x, m, d + 1)
    if t == "c":
        return str(v[1])
    if t == "g":
        return v[1]
    if t == "arg":
        return v[2]
    if t == "al":
        return "&" + v[2]
    if t == "ld":
        a = v[1]
        if a[0] == "fld":
            return "%s->%s" % (r(a[1]), fieldname(m, a))
        if a[0] == "idx":
            return "%s[%s]" % (r(a[1]), r(a[2]))
        if a[0] == "g":
            return a[1]
        return "*" + r(a)
    if t == "fld":
        return "&%s->%s" % (r(v[1]), fieldname(m, v))
    if t == "idx":
        return "&%s[%s]" % (r(v[1]), r(v[2]))
    if t == "lin":
        s = " + ".join(("%s" % r(a) if k == 1 else "%d*%s" % (k, r(a))) for a, k in v[2])
        return "(%s%s)" % (s, " + %d" % v[1] if v[1] else "")
    if t == "call":
        return "%s()" % v[1]
    if t == "out":
        return "out%d(%s)" % (v[4], v[1])
    if t == "phi":
        return "%s" % v[2]
    if t == "old":
        return "prev(%s)" % r(v[1])
    if t in ("hv", "wid"):
        return "%s'" % r(("ld", v[1]))
    if t == "b":
        s = "%s %s %s" % (r(v[3]), {"eq": "==", "lt": "<", "ult": "<u"}[v[2]], v[4])
        return "!(%s)" % s if v[1] else s
    if t == "pure":
        return "%s(%s)" % (v[1], ",".join(r(x) for x in v[2:]))
    return "%s(%s)" % (t, ",".join(r(x) for x in v[1:]))


def fieldname(m, a):
    try:
        return m.fields[a[2]][a[3]]
    except Exception:
        return str(a[3])


# ----------------------------------------------------------------------------- state
class State:
    __slots__ = ("envs", "mem", "facts", "mon", "made", "trail", "snap", "rc")

    def __init__(self):
        self.envs, self.mem, self.facts, self.mon = [], {}, {}, {}
        self.made, self.trail, self.snap = set(), None, {}
        self.rc = set()      # addresses read with their initial ("ld") value

    def fork(self):
        n = State.__new__(State)
        n.envs = self.envs[:-1] + [dict(self.envs[-1])] if self.envs else []
        n.mem, n.facts, n.mon = dict(self.mem), dict(self.facts), dict(self.mon)
        n.made = set(self.made)
        n.trail = self.trail
        n.snap = dict(self.snap)
        n.rc = set(self.rc)
        return n

    def note(self, what, line, fn):
        self.trail = (self.trail, what, line, fn)

    def path(self, limit=40):
        out, t = [], self.trail
        while t is not None and len(out) < limit:
            out.append("%s:%s %s" % (t[3].file.split("/")[-1] if t[3].file else "?", t[2], t[1]))
            t = t[0]
        return list(reversed(out))

    # facts -----------------------------------------------------------------
    def decide(self, b):
        if b[0] == "c":
            return b[1] != 0
        if b[0] != "b":
            b = ("b", True, "eq", b, 0)
        _, n, kind, L, c = b
        r = self._dec(kind, L, c)
        if r is None:
            return None
        return (not r) if n else r

    def bounds(self, L):
        """interval of a linear term: direct fact, else from single-atom facts"""
        f = self.facts.get(L)
        if f:
            return f
        c, d = lin(L)
        if c:
            f = self.facts.get(mk(0, d))
            if f:
                return (None if f[0] is None else f[0] + c, None if f[1] is None else f[1] + c,
                        frozenset(x + c for x in f[2]))
        if len(d) > 1 or any(k != 1 for k in d.values()):
            lo = hi = c
            for a, k in d.items():
                f = self.facts.get(a)
                if not f:
                    return None
                l, h = (f[0], f[1]) if k > 0 else (f[1], f[0])
                lo = None if lo is None or l is None else lo + k * l
                hi = None if hi is None or h is None else hi + k * h
                if lo is None and hi is None:
                    return None
            return (lo, hi, frozenset())
        return None

    def _dec(self, kind, L, c):
        if kind == "ult":
            f = self.facts.get(("u", L))
            if f is None:
                return None
        else:
            f = self.bounds(L)
        if f is None:
            if kind == "eq" and c == 0 and L[0] in ("al", "g", "fn", "fld"):
                return False
            if kind == "eq" and c == 0 and L[0] == "lin" and L[1] == 0 and len(L[2]) == 2 and {k for _, k in L[2]} == {1, -1}:
                a, b = L[2][0][0], L[2][1][0]
                for x, y in ((a, b), (b, a)):
                    # memory allocated during the call is none of the caller's
                    if y[0] == "arg" and (x[0] == "out" and x[1] == "MPI_Alloc_mem" or x[0] == "call" and x[1] in ("malloc", "calloc")):
                        return False
            return None
        lo, hi, ne = f
        if kind == "eq":
            if lo is not None and lo == hi:
                return lo == c
            if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ne:
                return False
            return None
        if hi is not None and hi < c:
            return True
        if lo is not None and lo >= c:
            return False
        return None

    def assume(self, b, truth):
        """add a branch fact; False if contradictory"""
        if b[0] == "c":
            return (b[1] != 0) == truth
        if b[0] != "b":
            b = ("b", True, "eq", b, 0)
        _, n, kind, L, c = b
        if n:
            truth = not truth
        d = self._dec(kind, L, c)
        if d is not None:
            return d == truth
        key = ("u", L) if kind == "ult" else L
        lo, hi, ne = self.facts.get(key, (None, None, frozenset()))
        if kind == "eq":
            if truth:
                lo = hi = c
                ne = frozenset()
            else:
                ne = ne | {c}
                while lo is not None and lo in ne:
                    ne = ne - {lo}; lo += 1
                while hi is not None and hi in ne:
                    ne = ne - {hi}; hi -= 1
        else:
            if truth:
                hi = c - 1 if hi is None else min(hi, c - 1)
            else:
                lo = c if lo is None else max(lo, c)
            while lo is not None and lo in ne:
                ne = ne - {lo}; lo += 1
            while hi is not None and hi in ne:
                ne = ne - {hi}; hi -= 1
            ne = frozenset(x for x in ne if (lo is None or x >= lo) and (hi is None or x <= hi))
        if lo is not None and hi is not None and lo > hi:
            return False
        self.facts[key] = (lo, hi, ne)
        return True

    def known_const(self, v):
        if v[0] == "c":
            return v[1]
        f = self.bounds(v)
        if f and f[0] is not None and f[0] == f[1]:
            return f[0]
        return None

    def rename(self, a, b):
        cache = {}
        envs = []
        for e in self.envs:
            n = {k: subst(v, a, b, cache) for k, v in e.items()}
            envs.append(e if n == e else n)
        self.envs = envs
        self.mem = {subst(k, a, b, cache): subst(v, a, b, cache) for k, v in self.mem.items()}
        nf = {}
        for k, v in self.facts.items():
            if contains(k, b):
                continue        # facts about an older generation are dropped
            nf[subst(k, a, b, cache)] = v
        self.facts = nf
        self.rc = {subst(k, a, b, cache) for k in self.rc}
        self.mon = {k: subst(v, a, b, cache) if isinstance(v, tuple) else
                    (frozenset(subst(x, a, b, cache) for x in v) if isinstance(v, frozenset) else v)
                    for k, v in self.mon.items()}


class Budget(AnalysisBroken):
    """the exploration was cut off; what was reported up to that point stands"""


class Monitor:
    """Base class of the property automata.  State lives in st.mon[self.name] (hashable)."""
    name = "?"
    init = frozenset()

    def start(self, eng, st, entry):
        st.mon[self.name] = self.init

    def call(self, eng, st, ins, fname, args, ctx):
        """external call; may return a list of states to continue with, or None"""

    def enter(self, eng, st, ins, fname, args, ctx):
        """call of a function with a body; return a list of (retval, state) to replace it"""

    def leave(self, eng, st, ins, fname, args, ret, ctx):
        """return from a function with a body"""

    def load(self, eng, st, ins, addr, val, ctx):
        pass

    def store(self, eng, st, ins, addr, val, ctx):
        pass

    def frame_exit(self, eng, st, fn, ctx, ret):
        pass

    def back_edge(self, eng, st, fn, header, ctx, phis):
        pass

    def decided(self, eng, st, ins, cond, truth, ctx):
        """a branch whose outcome the state already determines"""

    def rebind(self, eng, st, pairs):
        """loop back edge: the value v is from now on known by the name n, for (v, n) in pairs"""

    def widen(self, eng, st, pairs):
        """loop back edge: a memory cell that held v is from now on known to hold w, for (v, w) in pairs"""

    def branch(self, eng, st, ins, cond, truth, ctx):
        pass

    def exit(self, eng, st, fn, ret):
        pass


# ----------------------------------------------------------------------------- external models
# pure "query" calls: out argument i receives a function of the input arguments
PURE_OUT = {
    "MPI_Comm_rank": ((0,), (1,)), "MPI_Comm_size": ((0,), (1,)),
    "MPI_Group_rank": ((0,), (1,)), "MPI_Group_size": ((0,), (1,)),
    "MPI_Type_size": ((0,), (1,)), "MPI_Type_get_true_extent": ((0,), (1, 2)),
    "MPI_Type_get_extent": ((0,), (1, 2)), "MPI_Comm_compare": ((0, 1), (2,)),
    "MPI_Group_compare": ((0, 1), (2,)), "MPI_Type_extent": ((0,), (1,)),
    "MPI_Initialized": ((), (0,)), "MPI_Comm_test_inter": ((0,), (1,)),
}
# other external functions: indices of arguments written through
OUTS = {
    "MPI_Win_create": (5,), "MPI_Win_allocate": (4, 5), "MPI_Win_free": (0,), "MPI_Alloc_mem": (2,),
    "MPI_Free_mem": (), "MPI_Info_create": (0,), "MPI_Info_free": (0,), "MPI_Info_set": (),
    "MPI_Comm_group": (1,), "MPI_Group_incl": (3,), "MPI_Group_free": (0,), "MPI_Comm_create": (2,),
    "MPI_Comm_create_group": (3,), "MPI_Comm_dup": (1,), "MPI_Comm_split": (3,), "MPI_Comm_split_type": (4,),
    "MPI_Comm_free": (0,),
    "MPI_Intercomm_create": (5,), "MPI_Intercomm_merge": (2,), "MPI_Op_create": (2,), "MPI_Op_free": (0,),
    "MPI_Type_create_subarray": (6,), "MPI_Type_commit": (), "MPI_Type_free": (0,), "MPI_Type_contiguous": (2,),
    "MPI_Type_create_indexed_block": (4,), "MPI_Type_create_hindexed_block": (4,), "MPI_Type_indexed": (4,),
    "MPI_Type_create_hindexed": (4,), "MPI_Type_vector": (4,), "MPI_Type_create_hvector": (4,),
    "MPI_Type_hvector": (4,), "MPI_Type_create_struct": (4,), "MPI_Type_create_resized": (3,), "MPI_Type_dup": (1,),
    "MPI_Get_address": (1,), "MPI_Win_get_attr": (2, 3), "MPI_Comm_get_attr": (2, 3), "MPI_Query_thread": (0,),
    "MPI_Init_thread": (3,), "MPI_Get_library_version": (0, 1), "MPI_Get_processor_name": (0, 1),
    "MPI_Put": (), "MPI_Get": (), "MPI_Accumulate": (), "MPI_Get_accumulate": (), "MPI_Fetch_and_op": (1,),
    "MPI_Compare_and_swap": (2,),
    "MPI_Rput": (8,), "MPI_Rget": (8,), "MPI_Raccumulate": (9,), "MPI_Rget_accumulate": (12,),
    "MPI_Wait": (0,), "MPI_Waitall": (1,), "MPI_Test": (0, 1), "MPI_Testall": (1, 2), "MPI_Waitany": (1, 2),
    "MPI_Testany": (1, 2, 3), "MPI_Testsome": (1, 2, 3), "MPI_Waitsome": (1, 2, 3),
    "MPI_Iprobe": (3,), "MPI_Probe": (), "MPI_Send": (), "MPI_Recv": (0,), "MPI_Sendrecv": (5,),
    "MPI_Isend": (6,), "MPI_Irecv": (0, 6), "MPI_Request_free": (0,), "MPI_Cancel": (0,),
    "MPI_Bcast": (0,), "MPI_Allreduce": (1,), "MPI_Reduce": (1,), "MPI_Allgather": (3,), "MPI_Gather": (3,),
    "MPI_Alltoall": (3,), "MPI_Exscan": (1,), "MPI_Scan": (1,), "MPI_Allgatherv": (3,), "MPI_Scatter": (3,),
    "MPI_Barrier": (), "MPI_Win_lock_all": (), "MPI_Win_unlock_all": (), "MPI_Win_lock": (), "MPI_Win_unlock": (),
    "MPI_Win_flush": (), "MPI_Win_flush_local": (), "MPI_Win_flush_all": (), "MPI_Win_flush_local_all": (),
    "MPI_Win_sync": (), "MPI_Win_fence": (), "MPI_Abort": (), "MPI_Initialized": (0,), "MPI_Finalized": (0,),
    "MPI_Wtime": (), "MPI_Finalize": (),
    "free": (), "malloc": (), "calloc": (), "strlen": (), "strcmp": (), "strncmp": (), "strcasecmp": (), "strncasecmp": (),
    "printf": (), "fprintf": (), "puts": (), "putchar": (), "fputs": (), "fputc": (), "perror": (), "fflush": (), "snprintf": (0,), "sprintf": (0,),
    "vsnprintf": (0,), "getenv": (), "atoi": (), "atol": (), "atof": (), "strtol": (1,), "strtoll": (1,), "usleep": (), "sleep": (),
    "pthread_mutex_lock": (), "pthread_mutex_unlock": (), "pthread_mutex_trylock": (), "pthread_mutex_init": (0,), "pthread_mutex_destroy": (),
    "pthread_join": (), "pthread_create": (0,), "nanosleep": (), "backtrace": (0,), "backtrace_symbols": (),
    "memcmp": (), "toupper": (), "tolower": (), "abort": (), "exit": (), "strdup": (), "__errno_location": (),
    "llvm.va_start": (), "llvm.va_end": (), "llvm.stacksave.p0": (), "llvm.stackrestore.p0": (), "llvm.fabs.f64": (),
    "llvm.fabs.f32": (), "llvm.fmuladd.f64": (), "llvm.fmuladd.f32": (), "llvm.expect.i64": (), "labs": (), "llabs": (), "abs": (),
    "strncpy": (0,), "strcpy": (0,), "qsort": (0,), "realloc": (), "gethostname": (0,), "sysconf": (), "getpid": (),
    "clock_gettime": (1,), "sched_yield": (), "strstr": (), "strchr": (), "isspace": (), "fabs": (), "fabsf": (),
}
COPYFN = {"memcpy": None, "memmove": None, "llvm.memcpy.p0.p0.i64": None, "llvm.memmove.p0.p0.i64": None}
SETFN = {"memset", "llvm.memset.p0.i64"}
NORETURN = {"MPI_Abort", "abort", "exit", "_exit", "__assert_fail"}


class Engine:
    def __init__(self, module, monitors, soft=8, hard=24, limit=48, opaque=(), keep=(), maxdepth=40, budget=400000,
                 summarize=True, fold=False, fold_names=(), esp=True, field_lo=(), unroll=False, narrow=False, pure=()):
        # pure: functions taken as unknown functions of their arguments that write nothing
        # unroll: loops whose condition is decided run concretely; narrow: products of two 32-bit unknowns are marked as such
        self.unroll, self.narrow = unroll, narrow
        self.field_lo = {}
        for (t, f), lo in dict(field_lo).items():
            if t in module.fields and f in module.fields[t]:
                self.field_lo[(t, module.fields[t].index(f))] = lo
        self.esp = esp
        self.fold, self.fold_names = fold, set(fold_names)
        self.soft, self.hard = soft, hard
        self.m, self.mons, self.limit = module, monitors, limit
        self.opaque = set(opaque)
        self.maxdepth = maxdepth
        self.reports = {}
        self.uid = {}
        self.ctxs = {}
        self.ctxl = [(None, None)]
        self.steps = 0
        self.budget = budget
        self.stats = {"blocks": 0, "calls": 0, "merged": 0, "funcs": set(), "events": 0, "extcalls": {}}
        self.noret = self._noreturn()
        self.summ = {}
        if summarize:
            self.summaries(keep)
        for n in pure:
            if n in module.funcs:
                self.summ[n] = ()
        # the overlap tree (recursive, balanced) is a self-contained container: modelled as external
        for f in module.funcs.values():
            if f.file and f.file.endswith("conflict_tree.c") and f.name not in keep:
                self.opaque.add(f.name)
        self.seq = itertools.count()
        self._indcache = {}
        self._live_after = {}
        self._envk, self._envi = {}, {}
        self.stack = []
        self.singles = set()
        self.subs = {"load": [], "store": [], "branch": [], "frame_exit": [], "back_edge": [], "call": [], "enter": [],
                     "leave": [], "rebind": [], "widen": [], "decided": []}
        for mo in monitors:
            for k in self.subs:
                if getattr(type(mo), k) is not getattr(Monitor, k):
                    self.subs[k].append(mo)

    # -- helpers
    def _noreturn(self):
        """functions with a body that never return (every path reaches a no-return call)"""
        nr = set(NORETURN)
        ch = True
        while ch:
            ch = False
            for f in self.m.funcs.values():
                if f.name in nr:
                    continue
                # can any ret be reached without passing a noreturn call?
                seen, st, ret = set(), [f.order[0]], False
                while st and not ret:
                    b = st.pop()
                    if b in seen:
                        continue
                    seen.add(b)
                    stop = False
                    for i in f.blocks[b].ins:
                        if i.op == "call" and i.extra[0][0] == "g" and self.m.resolve(i.extra[0][1]) in nr:
                            stop = True
                            break
                        if i.op == "ret":
                            ret = True
                    if not stop:
                        st.extend(f.blocks[b].succs)
                if not ret:
                    nr.add(f.name)
                    ch = True
        return nr

    BENIGN = {"printf", "fprintf", "puts", "putchar", "fputs", "fputc", "strcmp", "strncmp", "strlen", "strcasecmp", "strncasecmp", "strstr",
              "strchr", "memcmp", "isspace", "toupper", "tolower", "llvm.expect.i64", "llvm.fabs.f64", "llvm.fabs.f32",
              "llvm.fmuladd.f64", "llvm.fmuladd.f32", "labs", "llabs", "abs", "fabs", "fabsf", "MPI_Type_size", "strtol", "strtoll", "atoi", "atol",
              "__ctype_b_loc", "fflush", "memcpy", "memmove", "memset", "llvm.memcpy.p0.p0.i64", "llvm.memmove.p0.p0.i64", "llvm.memset.p0.i64"}

    QUERY = {"MPI_Comm_group": (1,), "MPI_Group_free": (0,), "MPI_Group_translate_ranks": (4,), "MPI_Comm_rank": (1,),
             "MPI_Comm_size": (1,), "MPI_Group_rank": (1,), "MPI_Group_size": (1,), "vfprintf": (), "vsnprintf": (0,), "snprintf": (0,),
             "llvm.va_start": (), "llvm.va_end": (), "llvm.va_start.p0": (), "llvm.va_end.p0": (), "getenv": ()}

    def summaries(self, keep=()):
        """functions replaced by a summary: they contain a loop or recursion, make no monitored call and
        store only to their own locals or through their pointer parameters (which the summary havocs)"""
        m = self.m

        def store_root(f, defs, v, seen):
            if v[0] == "cgep":
                return store_root(f, defs, v[2][0], seen)
            if v[0] != "r":
                return {"glob"}
            if v[1] in seen:
                return set()
            seen = seen | {v[1]}
            for n, (t, p) in enumerate(f.params):
                if p == v[1]:
                    return {n}
            d = defs.get(v[1])
            if d is None:
                return {"glob"}
            if d.op == "alloca":
                return set()
            if d.op in ("gep", "bitcast", "freeze"):
                return store_root(f, defs, d.ops[0], seen)
            if d.op == "phi":
                r = set()
                for x, _ in d.extra:
                    if x[0] not in ("c", "undef"):
                        r |= store_root(f, defs, x, seen)
                return r
            if d.op == "select":
                return store_root(f, defs, d.ops[1], seen) | store_root(f, defs, d.ops[2], seen)
            return {"glob"}
        local = {}
        for f in m.funcs.values():
            defs = {i.res: i for b in f.blocks.values() for i in b.phis + b.ins if i.res}
            roots, calls, ok = set(), [], True
            for i in f.instrs():
                if i.op == "store":
                    roots |= store_root(f, defs, i.ops[1], frozenset())
                elif i.op == "call":
                    if i.extra[0][0] != "g":
                        ok = False
                        continue
                    n = m.resolve(i.extra[0][1])
                    if n in self.noret:
                        continue
                    if n in m.funcs:
                        calls.append((i, n))
                    elif self.fold and n in self.QUERY:
                        for o in self.QUERY[n]:
                            if o < len(i.ops):
                                roots |= store_root(f, defs, i.ops[o], frozenset())
                    elif n not in self.BENIGN:
                        ok = False
                    elif n in COPYFN or n in SETFN:
                        roots |= store_root(f, defs, i.ops[0], frozenset())
                elif i.op == "opaque":
                    ok = False
            local[f.name] = [ok and "glob" not in roots, roots, calls, defs]
        # transitive
        ch = True
        while ch:
            ch = False
            for n, (ok, roots, calls, defs) in local.items():
                if not ok:
                    continue
                for i, c in calls:
                    if not local[c][0]:
                        local[n][0] = False
                        ch = True
                        break
                    for r in local[c][1]:
                        add_ = store_root(m.funcs[n], defs, i.ops[r], frozenset()) if r != "glob" and r < len(i.ops) else {"glob"}
                        if not add_ <= local[n][1]:
                            local[n][1] |= add_
                            ch = True
                    if "glob" in local[n][1]:
                        local[n][0] = False
                        ch = True
                        break

        def loopy(n, seen=frozenset()):
            if n in seen:
                return True
            if m.funcs[n].loops:
                return True
            return any(loopy(c, seen | {n}) for _, c in local[n][2])
        self.summ = {}
        for n, (ok, roots, calls, defs) in local.items():
            if ok and n not in keep and (loopy(n) or (self.fold and not roots) or n in self.fold_names):
                self.summ[n] = tuple(sorted(r for r in roots if isinstance(r, int)))
        return self.summ

    def ins_uid(self, ins):
        u = self.uid.get(id(ins))
        if u is None:
            u = self.uid[id(ins)] = "%s#%d.%s.%d" % (ins.fn.name, ins.line or 0, ins.block.name, ins.idx)
        return u

    def sub_ctx(self, ctx, ins):
        k = (ctx, id(ins))
        r = self.ctxs.get(k)
        if r is None:
            r = self.ctxs[k] = len(self.ctxl)
            self.ctxl.append((ctx, ins))
        return r

    def chain(self, ctx):
        out = []
        while ctx:
            p, ins = self.ctxl[ctx]
            out.append("%s:%s" % (ins.fn.name, ins.line))
            ctx = p
        return list(reversed(out))

    def in_subtree(self, c, top):
        while c and c > top:
            c = self.ctxl[c][0]
        return c == top

    def report(self, rule, ins, msg, st=None, ctx=0, key=None, fn=None):
        f = fn or (ins.fn if ins is not None else None)
        line = ins.line if ins is not None else (f.line if f else None)
        k = (rule, f.name if f else "?", key if key is not None else msg)
        if k in self.reports:
            return
        self.reports[k] = dict(rule=rule, file=(f.file if f else None), line=line, function=f.name if f else None,
                               entry=self.entry_name, msg=msg, chain=self.chain(ctx), path=st.path() if st else [])

    def fresh(self, st, v):
        """(re)define the name v: an older value of that name becomes old(v)"""
        if v in st.made:
            st.rename(v, ("old", v))
        else:
            st.made.add(v)
        return v

    def val(self, st, v):
        t = v[0]
        if t == "r":
            return st.envs[-1].get(v[1], ("undefreg", v[1]))
        if t == "cgep":
            return self.gep(st, v[1], [self.val(st, x) for x in v[2]])
        if t == "cbin":
            a, b = self.val(st, v[2]), self.val(st, v[3])
            return add(a, b, 1 if v[1] == "add" else -1) if v[1] != "mul" else mul(a, b)
        if t == "g":
            r = self.m.resolve(v[1])
            if r in self.m.funcs or r in self.m.decls:
                return ("fn", r)
            return ("g", r)
        return v

    def gep(self, st, ety, ops):
        base = ops[0]
        ty = ety
        i0 = ops[1]
        if i0 != C0:
            base = self.index(base, i0, self.m.sizeof(ty))
        for x in ops[2:]:
            if ty.startswith("%"):
                body = self.m.types.get(ty, "{ }")
                els = body_elems(self.m, ty)
                k = x[1] if x[0] == "c" else 0
                if k or base[0] != "g":     # the compiler names the first field of a global object by the object
                    base = ("fld", base, ty, k)
                ty = els[k] if k < len(els) else "i8"
            elif ty.startswith("["):
                inner = ty[1:-1].split(" x ", 1)[1]
                if x != C0:
                    base = self.index(base, x, self.m.sizeof(inner))
                ty = inner
            elif ty.startswith("{"):
                from ir import split_top
                els = split_top(ty[1:-1].strip())
                k = x[1] if x[0] == "c" else 0
                base = ("fld", base, ty, k)
                ty = els[k]
            else:
                base = self.index(base, x, 1)
        return base

    def index(self, base, i, size):
        if base[0] == "idx":
            if base[3] == size:
                n = add(base[2], i)
            else:
                # mixed element sizes: fall back to bytes
                n = add(scale(base[2], base[3]), scale(i, size))
                size = 1
            base = base[1]
            if n == C0:
                return base
            return ("idx", base, n, size)
        if base[0] == "c" or base[0] == "lin":
            return add(base, scale(i, size))
        if i == C0:
            return base
        return ("idx", base, i, size)

    # -- memory
    def rd(self, st, addr):
        v = st.mem.get(addr)
        if v is not None:
            return v
        # lazily through structure copies
        a = addr
        chain = []
        while True:
            cp = st.mem.get(("copy", a))
            if cp is not None:
                n = cp
                for c in reversed(chain):
                    n = (c[0], n) + c[2:]
                v = self.rd(st, n)
                st.mem[addr] = v
                return v
            if a[0] in ("fld", "idx"):
                chain.append(a)
                a = a[1]
            else:
                break
        r = root(addr)
        if st.mem.get(("zero", addr[1] if addr[0] == "idx" else addr)) or st.mem.get(("zero", r)):
            v = C0
        elif r[0] == "al":
            if st.mem.get(("hav", r)):
                v = ("ld", addr)
            else:
                v = ("uninit", addr)
        elif r[0] == "g" and r[1] in self.m.strings and (addr == r or addr[0] == "idx" and addr[1] == r and addr[3] == 1 and addr[2][0] == "c"):
            t, k = self.m.strings[r[1]], 0 if addr == r else addr[2][1]
            v = ("c", ord(t[k]) if 0 <= k < len(t) else 0) if k <= len(t) else ("ld", addr)
        else:
            v = ("ld", addr)
        if v[0] == "ld" and v[1] == addr:
            st.rc.add(addr)
            if addr[0] == "fld" and (addr[2], addr[3]) in self.field_lo and v not in st.facts:
                st.facts[v] = (self.field_lo[(addr[2], addr[3])], None, frozenset())
            return v
        st.mem[addr] = v
        return v

    def kill(self, st, addr, uid, ctx):
        """addr was overwritten with an unknown or other value: invalidate may-aliases"""
        r = root(addr)
        dead = []
        for k in st.mem:
            if k[0] in SPECIAL:
                continue
            if k == addr:
                continue
            if self.may_alias(k, addr):
                dead.append(k)
        for k in list(st.rc):
            if k != addr and k not in st.mem and self.may_alias(k, addr):
                dead.append(k)
                st.rc.discard(k)
        self.settle(st, [addr] + dead)
        for k in dead:
            st.mem[k] = self.fresh_hv(st, k, uid, ctx)

    def settle(self, st, addrs):
        """these addresses are about to change: structures copied from there keep the old values"""
        for k in [k for k in st.mem if k[0] == "copy"]:
            src = st.mem[k]
            for a in addrs:
                if a != src and self._under_exact(a, src):
                    n = rebase(a, src, k[1])
                    if n not in st.mem:
                        st.mem[n] = self.rd(st, n)

    def fresh_hv(self, st, k, uid, ctx):
        v = ("hv", k, uid, ctx)
        if v in st.made:
            return v
        st.made.add(v)
        return v

    def may_alias(self, a, b):
        ra, rb = root(a), root(b)
        if ra == rb:
            # same object: compare paths
            if a[0] == "fld" and b[0] == "fld":
                if a[1] == b[1]:
                    return a[2:] == b[2:] or a[2] != b[2]
                return a[2] == b[2] and a[3] == b[3] and self.may_alias_base(a[1], b[1])
            if a[0] == "idx" and b[0] == "idx" and a[1] == b[1]:
                d = add(scale(a[2], a[3]), scale(b[2], b[3]), -1)
                return not (d[0] == "c" and d[1] != 0)
            for x, y in ((a, b), (b, a)):
                if x[0] == "idx" and x[1] == y and x[3] >= 4 and x[2][0] == "c" and x[2][1] != 0:
                    return False        # element n of an array versus its first element
            if a[0] == "fld" and b[0] != "fld" or b[0] == "fld" and a[0] != "fld":
                # struct field versus raw object of another type
                return strip_idx(a) == strip_idx(b)
            return strip_idx(a) == strip_idx(b)
        if fresh_obj(ra) or fresh_obj(rb):
            return False
        if a[0] == "fld" and b[0] == "fld":
            return a[2] == b[2] and a[3] == b[3]
        return False

    def may_alias_base(self, a, b):
        if a == b:
            return True
        if a[0] == "idx" and b[0] == "idx" and a[1] == b[1]:
            d = add(scale(a[2], a[3]), scale(b[2], b[3]), -1)
            return not (d[0] == "c" and d[1] != 0)
        return True

    def wr(self, st, addr, v, ins, ctx):
        uid = self.ins_uid(ins)
        self.kill(st, addr, uid, ctx)
        st.mem[addr] = v

    def havoc_obj(self, st, p, ins, ctx):
        """the object p points at (and everything under it) was written by unknown code"""
        uid = self.ins_uid(ins)
        r = root(p)
        cp = [k for k in st.mem if k[0] == "copy" and st.mem[k] != p and self._under(st.mem[k], p) or k[0] == "copy" and st.mem[k] == p]
        if cp:
            self.settle(st, [k for k in list(st.mem) + list(st.rc) if k[0] not in SPECIAL and (k == p or self._under(k, p))])
            for k in cp:
                st.mem[k] = ("hv", st.mem[k], uid, ctx)
        for k in list(st.mem):
            if k[0] in SPECIAL:
                if k[0] != "hav" and (k[1] == p or root(k[1]) == p):
                    del st.mem[k]
                continue
            if k == p or self._under(k, p):
                st.mem[k] = self.fresh_hv(st, k, uid, ctx)
        for k in list(st.rc):
            if k not in st.mem and (k == p or self._under(k, p)):
                st.rc.discard(k)
                st.mem[k] = self.fresh_hv(st, k, uid, ctx)
        if r[0] == "al":
            st.mem[("hav", r)] = C1

    def _under(self, k, p):
        p0 = strip_idx(p)
        while True:
            if k == p0:
                return True
            if k[0] in ("fld", "idx"):
                k = k[1]
            else:
                return False

    # -- running
    def run_entry(self, name, args=None, setup=None):
        name = self.m.resolve(name)
        f = self.m.funcs.get(name)
        if f is None:
            raise AnalysisBroken("entry %s not found" % name)
        self.entry_name = name
        self.steps = 0
        st = State()
        for mo in self.mons:
            mo.start(self, st, f)
        if args is None:
            args = [("arg", i, p[1]) for i, p in enumerate(f.params)]
        if setup:
            setup(self, st, args)
        outs = self.run(f, [(args, st)], 0)
        for ret, s in outs:
            for mo in self.mons:
                mo.exit(self, s, f, ret)
        return outs

    def run(self, f, starts, ctx):
        """analyse one activation of f for a set of initial (args, state); returns [(retval, state)]"""
        if len(self.stack) > self.maxdepth:
            raise AnalysisBroken("call depth")
        self.stack.append(f.name)
        self.stats["funcs"].add(f.name)
        seen, acc, exits = {}, {}, {}
        outs = {}
        heap = []
        # a point is (block, k): k odd = just before the call at instruction k//2, k even = before instruction k//2
        push = lambda b, k, s, pred: heapq.heappush(heap, (f.rpoidx[b], k, next(self.seq), b, s, pred))
        for args, st in starts:
            env = {}
            for (ty, nm), a in zip(f.params, args):
                env[nm] = a
            st.envs = st.envs + [env]
            st.snap[(ctx, "start")] = next(self.seq)
            push(f.order[0], 0, st, None)
        while heap:
            pri, k0, _, b, s, pred = heapq.heappop(heap)
            batch = [(s, pred)]
            while heap and heap[0][0] == pri and heap[0][1] == k0:
                x = heapq.heappop(heap)
                batch.append((x[4], x[5]))
            blk = f.blocks[b]
            kp, atcall = k0 // 2, k0 & 1
            if k0 == 0:
                live = f.livein[b] | set(i.res for i in blk.phis)
            elif kp == 0:
                live = f.livein[b] | set(i.res for i in blk.phis)
            else:
                live = self.live_after(f, blk, kp - 1)
            sts, viaback = {}, set()
            for s, pred in batch:
                if k0 == 0 and pred is not None:
                    self.do_phis(f, blk, s, pred, ctx)
                e = s.envs[-1]
                s.envs = s.envs[:-1] + [{r: v for r, v in e.items() if r in live}]
                if k0 == 0 and len(blk.preds) > 1:
                    self.prune(s)
                kk = self.key(s)
                if self.esp and k0 == 0 and pred is not None and (pred, b) in f.back:
                    # property simulation: one accumulated state per loop entry and monitor state
                    g = (b, s.snap.get((ctx, b, "t")), kk[3])
                    o = acc.get(g)
                    if o is not None:
                        if o[0] == kk:
                            continue
                        s = self.join(o[1], s, f.name, b, ctx)
                        kk = self.key(s)
                        self.stats["merged"] += 1
                        if kk == o[0]:
                            continue
                    acc[g] = (kk, s.fork())
                    viaback.add(kk)
                sts.setdefault(kk, s)
            if len(sts) > self.soft:
                sts = self.reduce(sts, f, b, ctx)
            sk, summ = seen.setdefault((b, k0), ({}, {}))
            pendcall = []
            for key, s in sts.items():
                if key in sk:
                    continue
                if len(sk) >= self.limit:
                    mkk = self.monkey(s)
                    o = summ.get(mkk)
                    self.stats["merged"] += 1
                    if o is not None:
                        s = self.join(o, s, f.name, b, ctx)
                        key = self.key(s)
                        if key in sk:
                            continue
                    summ[mkk] = s.fork()
                self.steps += 1
                if self.steps > self.budget:
                    raise Budget("step budget exceeded in %s (entry %s)" % (f.name, self.entry_name))
                sk[key] = True
                if b in f.loops and k0 == 0:
                    s.snap[(ctx, b)] = dict(s.mem)
                    if key not in viaback:
                        s.snap[(ctx, b, "t")] = next(self.seq)
                self.stats["blocks"] += 1
                if atcall:
                    pendcall.append(s)
                    continue
                for item in self.exec_block(f, blk, kp, s, ctx):
                    if item[0] == "goto":
                        push(item[1], 0, item[2], b)
                    elif item[0] == "resume":
                        push(b, 2 * item[1], item[2], None)
                    elif item[0] == "atcall":
                        push(b, 2 * item[1] + 1, item[2], None)
                    elif item[0] == "ret":
                        _, rv, s2 = item
                        for mo in self.subs["frame_exit"]:
                            mo.frame_exit(self, s2, f, ctx, rv)
                        s2.envs = s2.envs[:-1]
                        tok = s2.snap.get((ctx, "start"))
                        self.drop_frame(s2, rv, ctx)
                        k3 = self.key(s2, False)
                        if self.esp and ctx:
                            g = (tok, rv, k3[0], k3[1], k3[3])
                            o = exits.get(g)
                            if o is not None:
                                s2 = self.join(o, s2, f.name, "exit", ctx)
                            exits[g] = s2
                            outs[g] = (rv, s2)
                            continue
                        kk = (rv, k3)
                        if kk not in outs:
                            outs[kk] = (rv, s2)
            if pendcall:
                for s2 in self.call_body(f, blk.ins[kp], pendcall, ctx):
                    push(b, 2 * (kp + 1), s2, None)
        self.stack.pop()
        res = list(outs.values())
        if len(res) > self.soft:
            res = self.merge_exits(res, f, ctx)
        return res

    def reduce(self, sts, f, b, ctx):
        """too many states at one point: first join those that differ in branch facts only, then
        (still too many) those with equal monitor state"""
        for stage in (1, 2, 3):
            groups = {}
            for k, s in sts.items():
                g = (k[0], k[1], k[3]) if stage == 1 else (k[3], s.snap.get((ctx, "start"))) if stage == 2 else k[3]
                groups.setdefault(g, []).append(s)
            out = {}
            for ss in groups.values():
                a = ss[0]
                for o in ss[1:]:
                    a = self.join(a, o, f.name, b, ctx)
                    self.stats["merged"] += 1
                out.setdefault(self.key(a), a)
            sts = out
            if len(sts) <= self.hard:
                break
        return sts

    def merge_exits(self, res, f, ctx):
        for stage in (1, 2):
            groups = {}
            for rv, s in res:
                k = self.key(s, False)
                g = (rv, k[0], k[1], k[3]) if stage == 1 else (rv, k[3])
                groups.setdefault(g, []).append((rv, s))
            out = []
            for ss in groups.values():
                rv, a = ss[0]
                for _, o in ss[1:]:
                    a = self.join(a, o, f.name, "exit", ctx)
                    self.stats["merged"] += 1
                out.append((rv, a))
            res = out
            if len(res) <= self.hard:
                break
        return res

    def monkey(self, s):
        return tuple(s.mon[k] for k in sorted(s.mon))

    def join(self, a, b, fn, bl, ctx):
        n = a.fork()
        nf = {}
        both = list(a.facts)
        both += [k for k in b.facts if k[0] == "lin" and k not in a.facts]
        for k in both:
            fa, fb = a.facts.get(k), b.facts.get(k)
            if fa is None or fb is None:
                if k[0] != "lin":
                    continue
                # known on one side as such, on the other from its parts
                fa, fb = fa or a.bounds(k), fb or b.bounds(k)
                if fa is None or fb is None:
                    continue
            lo = None if fa[0] is None or fb[0] is None else min(fa[0], fb[0])
            hi = None if fa[1] is None or fb[1] is None else max(fa[1], fb[1])
            ne = set()
            for x in fa[2] | fb[2]:
                if all((x in f[2]) or (f[0] is not None and x < f[0]) or (f[1] is not None and x > f[1]) for f in (fa, fb)):
                    ne.add(x)
            # widen: keep only if equal bounds, to guarantee termination
            if lo != fa[0] or lo != fb[0]:
                lo = lo if lo in (0, 1) else None
            if hi != fa[1] or hi != fb[1]:
                hi = hi if hi in (0, 1) else None
            if lo is None and hi is None and not ne:
                continue
            nf[k] = (lo, hi, frozenset(ne))
        n.facts = nf
        envs = []
        for i, (ea, eb) in enumerate(zip(a.envs, b.envs)):
            if ea is eb:
                envs.append(ea)
                continue
            e = {}
            for r, v in ea.items():
                if eb.get(r) == v:
                    e[r] = v
                else:
                    j = ("join", fn, bl, r, ctx, i)
                    e[r] = j
                    n.facts = {k: v2 for k, v2 in n.facts.items() if not contains(k, j)}
            envs.append(e)
        n.envs = envs
        mm = {}
        for k, v in a.mem.items():
            if b.mem.get(k) == v:
                mm[k] = v
            elif k[0] in ("copy", "zero", "gc"):
                continue
            elif k[0] == "hav":
                mm[k] = v
            elif k in b.mem:
                j = ("join", fn, bl, k, ctx, -1)
                mm[k] = j
                n.facts = {k2: v2 for k2, v2 in n.facts.items() if not contains(k2, j)}
        for k, v in b.mem.items():
            if k[0] == "hav":
                mm[k] = v
        n.mem = mm
        n.made = a.made | b.made
        return n

    def key(self, s, env=True):
        e = tuple(self.envkey(x) for x in (s.envs[:-1] if env else s.envs))
        if env:
            e = (frozenset(s.envs[-1].items()), e)
        return (e, frozenset(s.mem.items()), frozenset(s.facts.items()), tuple(s.mon[k] for k in sorted(s.mon)))

    def live_terms(self, s, rv=None):
        """terms a later instruction or monitor can still name; unreachable heap memory is dropped"""
        live = set()
        if rv is not None:
            live |= subterms(rv)
        for e in s.envs:
            for v in e.values():
                live |= subterms(v)
        for v in s.mon.values():
            if isinstance(v, frozenset):
                for x in v:
                    if isinstance(x, tuple):
                        live |= subterms(x)
            elif isinstance(v, tuple):
                live |= subterms(v)
        # memory reachable from live roots
        pend = dict(s.mem)
        ch = True
        while ch and pend:
            ch = False
            for k in list(pend):
                kk = k[1] if k[0] in SPECIAL else k
                r = root(kk)
                if kk[0] in ("out", "call"):
                    r = kk
                if r[0] in ("g", "arg", "ld", "fn", "c", "lin") or r in live or r[0] == "al":
                    v = pend.pop(k)
                    live |= subterms(kk)
                    live |= subterms(v)
                    ch = True
        for k in pend:
            del s.mem[k]
        return live

    def reach(self, a, live):
        t = a[0]
        if a in live or t in ("arg", "g", "c", "fn", "al"):
            return True
        if t == "ld":
            return all(self.reach(x, live) for x in a[1:])
        if t in ("fld", "idx", "pure", "mul", "op", "b", "trunc", "u"):
            return all(self.reach(x, live) for x in a[1:] if isinstance(x, tuple))
        if t == "lin":
            return all(self.reach(x, live) for x, _ in a[2])
        return False

    def prune(self, s):
        """at joins: forget facts about values that can no longer be named"""
        if not s.facts:
            return
        live = self.live_terms(s)
        s.facts = {k: v for k, v in s.facts.items() if self.reach(k, live)}
        s.made = set(x for x in s.made if x in live or x[0] == "gr")

    def envkey(self, e):
        """content key of a suspended frame's environment (never mutated while suspended)"""
        r = self._envk.get(id(e))
        if r is None or r[0] is not e:
            r = self._envk[id(e)] = (e, self._envi.setdefault(frozenset(e.items()), len(self._envi)))
        return r[1]

    def drop_frame(self, s, rv, ctx):
        """forget locals of the returning frame and facts about values nobody can see any more"""
        for k in list(s.mem):
            kk = k[1] if k[0] in SPECIAL else k
            r = root(kk)
            if r[0] == "al" and r[3] == ctx:
                del s.mem[k]
        if ctx == 0:
            return
        live = self.live_terms(s, rv)
        rvn = rv[0] not in ("c", "void", "b")

        def keep(k):
            if rvn and rv in subterms(k):
                return True
            if k[0] == "u":
                k = k[1]
            c, d = lin(k)
            for a in d:
                if a[0] in ("arg", "g") or a in live:
                    continue
                if a[0] in ("pure", "ld", "mul") and self.reach(a, live):
                    continue
                if a[0] == "ld":
                    x = a[1]
                    if root(x)[0] == "g" or root(x) in live and root(x)[0] != "ld":
                        continue
                return False
            return True
        s.facts = {k: v for k, v in s.facts.items() if keep(k)}
        s.made = set(x for x in s.made if x in live or x[0] == "gr")
        s.rc = set(k for k in s.rc if ("ld", k) in live or root(k)[0] == "g")
        for k in list(s.snap):
            if k[0] == ctx:
                del s.snap[k]

    def live_after(self, f, blk, idx):
        k = (f.name, blk.name, idx)
        r = self._live_after.get(k)
        if r is None:
            from ir import regs_of, val_regs
            live = set()
            for s in blk.succs:
                sb = f.blocks[s]
                live |= f.livein[s] - set(i.res for i in sb.phis)
                for i in sb.phis:
                    for v, pb in i.extra:
                        if pb == blk.name:
                            live |= set(val_regs(v))
            for i in reversed(blk.ins[idx + 1:]):
                live.discard(i.res)
                live |= set(regs_of(i))
            live.add(blk.ins[idx].res)
            r = self._live_after[k] = live
        return r

    def is_induction(self, f, phi, hdr):
        """does the value of this loop phi on the back edge derive arithmetically from the phi?"""
        k = (f.name, phi.res)
        r = self._indcache.get(k)
        if r is not None:
            return r
        defs = {}
        for b in f.loops[hdr]:
            for i in f.blocks[b].phis + f.blocks[b].ins:
                if i.res:
                    defs[i.res] = i
        from ir import regs_of, val_regs
        st, seen, r = [], set(), False
        for v, pb in phi.extra:
            if (pb, hdr) in f.back:
                st.extend(val_regs(v))
        while st:
            x = st.pop()
            d = defs.get(x)
            if d is None or x in seen:
                continue
            seen.add(x)
            if x == phi.res:
                continue
            if d.op in ("add", "sub", "mul", "gep", "sext", "zext", "trunc", "sdiv", "shl", "ashr", "lshr"):
                ops = [y for o in d.ops for y in val_regs(o)]
                if phi.res in ops:
                    r = True
                    break
                st.extend(ops)
            elif d.op == "phi":
                for v, pb in d.extra:
                    st.extend(val_regs(v))
        self._indcache[k] = r
        return r

    def counts_up(self, f, phi, header):
        """the phi grows by a positive constant around the loop"""
        k = ("up", f.name, phi.res)
        if k not in self._indcache:
            ok = False
            defs = f.defs() if hasattr(f, "defs") else {i.res: i for i in f.instrs() if i.res}
            for v, pb in phi.extra:
                if (pb, header) in f.back:
                    d = defs.get(v[1]) if v[0] == "r" else None
                    ok = d is not None and d.op == "add" and ((d.ops[0] == ("r", phi.res) and d.ops[1][0] == "c" and d.ops[1][1] > 0) or
                                                              (d.ops[1] == ("r", phi.res) and d.ops[0][0] == "c" and d.ops[0][1] > 0))
                    if not ok:
                        break
            self._indcache[k] = ok
        return self._indcache[k]

    def do_phis(self, f, blk, s, pred, ctx):
        back = (pred, blk.name) in f.back
        env = s.envs[-1]
        new = []
        for i in blk.phis:
            for v, pb in i.extra:
                if pb == pred:
                    new.append((i, self.val(s, v), v))
                    break
        if back and self.unroll and s.snap.get((ctx, blk.name, "dec")):
            env = dict(env)
            for i, v, _ in new:
                env[i.res] = v
            s.envs = s.envs[:-1] + [env]
            return
        if back:
            for mo in self.subs["back_edge"]:
                mo.back_edge(self, s, f, blk.name, ctx, [(i.res, v, env.get(i.res)) for i, v, _ in new])
            # widen memory modified in the loop
            snap = s.snap.get((ctx, blk.name))
            if snap is not None:
                gone, widened = [], []
                for k in list(s.mem):
                    if k not in s.mem:
                        continue
                    if k[0] in SPECIAL:
                        if k[0] == "copy" and self.esp and snap.get(k) != s.mem[k]:
                            del s.mem[k]
                        continue
                    if root(k) in self.singles and snap.get(k) != s.mem[k] and ("gr", k, f.name, blk.name, ctx) not in s.made:
                        # a block of one element: keep it for one iteration, as the counters
                        s.made.add(("gr", k, f.name, blk.name, ctx))
                        continue
                    if self.esp and snap.get(k) != s.mem[k] and self.is_array(root(k)):
                        # element contents of arrays are not tracked across iterations
                        del s.mem[k]
                        gone.append(("ld", k))
                        continue
                    if k in snap and snap[k] != s.mem[k]:
                        v = s.mem[k]
                        if v[0] == "c" and snap[k][0] == "c" and v[1] in (0, 1) and snap[k][1] in (0, 1):
                            continue
                        w = ("wid", k, f.name + "/" + blk.name, ctx)
                        if v == w:
                            continue
                        if contains(k, w):
                            continue
                        self.fresh(s, w)
                        if k in s.mem:
                            widened.append((s.mem[k], w))
                            s.mem[k] = w
                if widened:
                    for mo in self.subs["widen"]:
                        mo.widen(self, s, widened)
                if gone:
                    g = set(gone)
                    s.facts = {k: v for k, v in s.facts.items() if not (g & subterms(k))}
                    s.rc -= set(x[1] for x in gone)
            names = []
            for i, v, ov in new:
                old = env.get(i.res)
                if v == old or v == ("phi", f.name, i.res, ctx):
                    names.append(None)
                elif self.is_induction(f, i, blk.name) or not (v[0] in ("c", "b", "arg", "g", "fn", "al") or v[0] == "uninit"):
                    names.append(("phi", f.name, i.res, ctx))
                else:
                    names.append(None)
            vals = [v for _, v, _ in new]
            lows = {}
            for (i, v, _), n in zip(new, names):
                if n is None or not self.counts_up(f, i, blk.name):
                    continue
                if v[0] == "c":
                    lows[n] = v[1]
                elif n in subterms(v):
                    b = s.facts.get(n)
                    if b and b[0] is not None:
                        lows[n] = b[0]
            for n in names:
                if n is not None and n in s.made:
                    cache = {}
                    vals = [subst(v, n, ("old", n), cache) for v in vals]
                    s.rename(n, ("old", n))
                elif n is not None:
                    s.made.add(n)
            for n, v in zip(names, vals):
                # what is known of the value is known under its new name
                if n is not None and v[0] == "pure":
                    for k, b in list(s.facts.items()):
                        if v in subterms(k):
                            k2 = mk(*lin(subst(k, v, n, {})))
                            s.facts.setdefault(k2, b)
            env = dict(s.envs[-1])
            for (i, _, _), n, v in zip(new, names, vals):
                env[i.res] = n if n is not None else v
                if n is not None and n not in lows and v[0] != "c" and i.ty != "ptr":
                    b = s.bounds(v)
                    if b and b[0] is not None and b[0] >= 0:
                        lows[n] = 0
            s.envs = s.envs[:-1] + [env]
            for n, lo in lows.items():
                s.assume(cmp_term("sge", n, ("c", lo)), True)
            for n, v in zip(names, vals):
                # a counter's bounds move on with it
                c, d = lin(v) if n is not None and v[0] == "lin" else (0, {})
                if len(d) == 1 and d.get(("old", n)) == 1:
                    for k, b in list(s.facts.items()):
                        if k[0] == "lin" and ("old", n) in lin(k)[1]:
                            c0, d0 = lin(k)
                            a = d0.pop(("old", n))
                            if n in d0:
                                continue
                            d0[n] = a
                            L = mk(c0 - a * c, d0)
                            if b[0] is not None:
                                s.assume(cmp_term("sge", L, ("c", b[0])), True)
                            if b[1] is not None:
                                s.assume(cmp_term("sle", L, ("c", b[1])), True)
            pairs = [(v, n) for n, v in zip(names, vals) if n is not None and n != v]
            for mo in self.subs["rebind"]:
                mo.rebind(self, s, pairs)
        else:
            env = dict(env)
            for i, v, _ in new:
                env[i.res] = v
            s.envs = s.envs[:-1] + [env]

    def exec_block(self, f, blk, k0, s, ctx):
        """execute instructions from index k0; yields goto/resume/ret items"""
        work = [(k0, s)]
        out = []
        while work:
            k, s = work.pop()
            n = len(blk.ins)
            while k < n:
                i = blk.ins[k]
                op = i.op
                env = s.envs[-1]
                if op == "call":
                    if self.body_of(i, s) is not None:
                        out.append(("atcall", k, s))
                        s = None
                        break
                    r = self.do_call(f, i, s, ctx)
                    if r is None:
                        # simple: continued in place
                        k += 1
                        continue
                    for rv, s2 in r:
                        if i.res is not None:
                            e = dict(s2.envs[-1])
                            e[i.res] = rv
                            s2.envs = s2.envs[:-1] + [e]
                        else:
                            s2.envs = s2.envs[:-1] + [dict(s2.envs[-1])]
                    if len(r) == 1:
                        s = r[0][1]
                        k += 1
                        continue
                    for rv, s2 in r:
                        out.append(("resume", k + 1, s2))
                    s = None
                    break
                elif op == "load":
                    a = self.val(s, i.ops[0])
                    v = self.rd(s, a)
                    env[i.res] = v
                    for mo in self.subs["load"]:
                        mo.load(self, s, i, a, v, ctx)
                elif op == "store":
                    v = self.val(s, i.ops[0])
                    a = self.val(s, i.ops[1])
                    for mo in self.subs["store"]:
                        mo.store(self, s, i, a, v, ctx)
                    self.wr(s, a, v, i, ctx)
                elif op == "alloca":
                    v = ("al", f.name, i.res, ctx)
                    env[i.res] = v
                    if (f.name, i.res) in self.vlas():
                        s.mem[("hav", v)] = C1
                elif op == "gep":
                    env[i.res] = self.gep(s, i.extra, [self.val(s, x) for x in i.ops])
                elif op == "icmp":
                    env[i.res] = cmp_term(i.extra[0], self.val(s, i.ops[0]), self.val(s, i.ops[1]), i.extra[1] == "ptr")
                elif op in ("sext", "zext", "ptrtoint", "inttoptr", "bitcast", "freeze"):
                    env[i.res] = self.val(s, i.ops[0])
                elif op == "trunc":
                    v = self.val(s, i.ops[0])
                    if i.ty == "i1":
                        env[i.res] = v if v[0] in ("b", "c") else ("b", True, "eq", v, 0)
                    else:
                        env[i.res] = v if v[0] in ("c", "b") else ("trunc", v, i.ty)
                elif op == "add":
                    env[i.res] = add(self.nb(self.val(s, i.ops[0])), self.nb(self.val(s, i.ops[1])))
                elif op == "sub":
                    env[i.res] = add(self.nb(self.val(s, i.ops[0])), self.nb(self.val(s, i.ops[1])), -1)
                elif op == "mul":
                    v = mul(self.nb(self.val(s, i.ops[0])), self.nb(self.val(s, i.ops[1])))
                    env[i.res] = ("trunc", v, i.ty) if self.narrow and v[0] == "mul" and i.ty == "i32" else v
                elif op == "shl":
                    a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
                    env[i.res] = scale(a, 1 << b[1]) if b[0] == "c" else ("op", "shl", a, b)
                elif op == "xor":
                    a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
                    if i.ty == "i1" and b == C1:
                        env[i.res] = neg(a)
                    else:
                        env[i.res] = ("op", "xor", a, b)
                elif op in ("and", "or"):
                    a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
                    env[i.res] = self.logic(s, op, a, b)
                elif op == "select":
                    c = self.val(s, i.ops[0])
                    d = s.decide(c)
                    a, b = self.val(s, i.ops[1]), self.val(s, i.ops[2])
                    if d is not None or a == b:
                        env[i.res] = a if (d or a == b) else b
                    elif a[0] == "g" and b[0] == "g" and a[1] in self.m.strings and b[1] in self.m.strings:
                        env[i.res] = ("op", "select", c, a, b)      # one of two texts, for a message
                    else:
                        s2 = s.fork()
                        if s2.assume(c, False):
                            s2.envs[-1][i.res] = b
                            work.append((k + 1, s2))
                        if not s.assume(c, True):
                            s = None
                            break
                        env[i.res] = a
                elif op in ("sdiv", "udiv", "srem", "urem"):
                    a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
                    if a[0] == "c" and b[0] == "c" and b[1]:
                        q = int(a[1] / b[1])
                        env[i.res] = ("c", q if "div" in op else a[1] - q * b[1])
                    elif "div" in op and b[0] == "c" and b[1]:
                        c_, d_ = lin(a)
                        if c_ % b[1] == 0 and all(x % b[1] == 0 for x in d_.values()):
                            env[i.res] = mk(c_ // b[1], {x: y // b[1] for x, y in d_.items()})
                        else:
                            env[i.res] = ("op", op, a, b)
                    else:
                        env[i.res] = ("op", op, a, b)
                elif op == "br":
                    out.append(("goto", i.extra[0], s))
                    break
                elif op == "cbr":
                    c = self.val(s, i.ops[0])
                    d = s.decide(c)
                    if self.unroll and blk.name in f.loops:
                        s.snap[(ctx, blk.name, "dec")] = c[0] == "c"
                    if d is not None:
                        for mo in self.subs["decided"]:
                            mo.decided(self, s, i, c, d, ctx)
                        out.append(("goto", i.extra[0 if d else 1], s))
                        break
                    s2 = s.fork()
                    if s.assume(c, True):
                        s.note("%s" % show(c, self.m), i.line, f)
                        for mo in self.subs["branch"]:
                            mo.branch(self, s, i, c, True, ctx)
                        out.append(("goto", i.extra[0], s))
                    if s2.assume(c, False):
                        s2.note("%s" % show(neg(c), self.m), i.line, f)
                        for mo in self.subs["branch"]:
                            mo.branch(self, s2, i, c, False, ctx)
                        out.append(("goto", i.extra[1], s2))
                    break
                elif op == "switch":
                    v = self.val(s, i.ops[0])
                    dflt, cases = i.extra
                    groups = {}
                    for cv, lb in cases:
                        groups.setdefault(lb, []).append(cv)
                    sd = s.fork()
                    ok = True
                    for cv, lb in cases:
                        c = cmp_term("eq", v, ("c", cv))
                        s2 = s.fork()
                        if s2.assume(c, True):
                            s2.note("case %d" % cv, i.line, f)
                            for mo in self.subs["branch"]:
                                mo.branch(self, s2, i, c, True, ctx)
                            out.append(("goto", lb, s2))
                        ok = ok and sd.assume(c, False)
                    if ok:
                        sd.note("default", i.line, f)
                        out.append(("goto", dflt, sd))
                    break
                elif op == "ret":
                    rv = self.val(s, i.ops[0]) if i.ops else ("void",)
                    out.append(("ret", rv, s))
                    break
                elif op == "unreachable":
                    break
                else:
                    ops = tuple(self.val(s, x) for x in i.ops)
                    env[i.res] = ("op", op, i.extra if isinstance(i.extra, str) else (i.extra[0] if i.extra else None)) + ops
                k += 1
        return out

    def nb(self, v):
        return v

    def logic(self, s, op, a, b):
        for x, y in ((a, b), (b, a)):
            if x[0] == "c" and y[0] in ("b",):
                if op == "and":
                    return y if x[1] & 1 else C0
                return C1 if x[1] & 1 else y
        if a[0] == "c" and b[0] == "c":
            return ("c", a[1] & b[1] if op == "and" else a[1] | b[1])
        if a[0] == "b" and b[0] == "b":
            da, db = s.decide(a), s.decide(b)
            if op == "and":
                if da is False or db is False:
                    return C0
                if da is True:
                    return b
                if db is True:
                    return a
            else:
                if da is True or db is True:
                    return C1
                if da is False:
                    return b
                if db is False:
                    return a
        x, y = sorted((a, b), key=repr)
        return ("op", op, x, y)

    # -- calls
    def callee_name(self, ins, s):
        cal = ins.extra[0]
        if cal[0] == "r":
            cv = self.val(s, cal)
            return cv[1] if cv[0] == "fn" else "?indirect"
        return self.m.resolve(cal[1])

    def body_of(self, ins, s):
        name = self.callee_name(ins, s)
        f = self.m.funcs.get(name)
        if f is None or name in self.noret or name in self.opaque or name in self.stack or name in self.summ:
            return None
        return f

    def call_body(self, f, ins, sts, ctx):
        """call of a function with a body, for a set of states; returns the continuing states"""
        groups, done = {}, []
        for s in sts:
            callee = self.body_of(ins, s)
            args = [self.val(s, a) for a in ins.ops]
            self.stats["calls"] += 1
            rep = None
            for mo in self.subs["enter"]:
                r = mo.enter(self, s, ins, callee.name, args, ctx)
                if r is not None:
                    rep = r
            if rep is not None:
                done.extend(rep)
            else:
                groups.setdefault(callee.name, []).append((args, s.fork()))
        sub = self.sub_ctx(ctx, ins)
        for n, starts in groups.items():
            res = self.run(self.m.funcs[n], starts, sub)
            for mo in self.subs["leave"]:
                for rv, s2 in res:
                    mo.leave(self, s2, ins, n, None, rv, ctx)
            done.extend(res)
        out = []
        for rv, s2 in done:
            e = dict(s2.envs[-1])
            if ins.res is not None:
                e[ins.res] = rv
            s2.envs = s2.envs[:-1] + [e]
            out.append(s2)
        return out

    def do_call(self, f, ins, s, ctx):
        """call without an analysed body: None if handled in place, else list of (retval, state)"""
        name = self.callee_name(ins, s)
        args = [self.val(s, a) for a in ins.ops]
        self.stats["calls"] += 1
        if name in NORETURN or name in self.noret:
            for mo in self.subs["call"]:
                mo.call(self, s, ins, name, args, ctx)
            return []
        # external / opaque
        if name in self.summ and not self.summ[name]:
            if ins.res is not None:
                s.envs = s.envs[:-1] + [dict(s.envs[-1])]
                s.envs[-1][ins.res] = ("pure", name) + tuple(args)
            return None
        ext = self.stats["extcalls"]
        ext.setdefault(name, set()).add(self.ins_uid(ins))
        # values produced by an earlier execution of this call become old before the monitors see the new one
        uid = self.ins_uid(ins)
        stale = [("out", name, uid, o, ctx) for o in self.outs_of(name, ins)] + [("call", name, uid, ctx)]
        stale = [v for v in stale if v in s.made]
        if stale:
            for v in stale:
                s.rename(v, ("old", v))
                s.made.discard(v)
            args = [self.val(s, a) for a in ins.ops]
        forks = [s]
        for mo in self.subs["call"]:
            nf = []
            for x in forks:
                r = mo.call(self, x, ins, name, args, ctx)
                nf.extend([x] if r is None else r)
            forks = nf
        res = []
        for x in forks:
            x.envs = x.envs[:-1] + [dict(x.envs[-1])]
            rv = self.external(f, ins, x, name, args, ctx)
            if isinstance(rv, list):
                res.extend(rv)
            else:
                res.append((rv, x))
        if len(res) == 1 and res[0][1] is s:
            if ins.res is not None:
                s.envs[-1][ins.res] = res[0][0]
            return None
        return res

    def external(self, f, ins, s, name, args, ctx):
        uid = self.ins_uid(ins)
        if name in COPYFN:
            d, src = args[0], args[1]
            self.copy_obj(s, d, src, ins, ctx)
            return d
        if name in SETFN:
            self.havoc_obj(s, args[0], ins, ctx)
            if args[1] == C0:
                for k in list(s.mem):
                    if k[0] not in SPECIAL and (k == args[0] or self._under(k, args[0])):
                        s.mem[k] = C0
                s.mem[("zero", args[0])] = C1
            return args[0]
        if name == "llvm.expect.i64":
            return args[0]
        if name in ("llvm.fabs.f64", "llvm.fabs.f32", "fabs", "fabsf", "labs", "llabs", "abs"):
            return ("pure", name) + tuple(args)
        if name in ("strncmp", "strcmp") and (name == "strcmp" or args[2][0] == "c"):
            r = self.compare(s, args[0], args[1], args[2][1] if name == "strncmp" else None)
            if r is not None:
                return ("c", r)
        if name.startswith("llvm.lifetime."):
            if name.startswith("llvm.lifetime.end"):
                self.drop_obj(s, args[1])
            return ("void",)
        if name.startswith("llvm.stackrestore"):
            for k in [k for k in s.mem if k[0] == "al" or k[0] in ("fld", "idx")]:
                r = root(k)
                if r[0] == "al" and r[1] == f.name and r[3] == ctx and (f.name, r[2]) in self.vlas():
                    s.mem.pop(k, None)
            return ("void",)
        if name.startswith("llvm.dbg."):
            return ("void",)
        if name == "free":
            self.drop_obj(s, args[0])
            return ("void",)
        if name in PURE_OUT:
            ins_, outs = PURE_OUT[name]
            for n_, o in enumerate(outs):
                if args[o][0] != "c":
                    v = ("pure", name if len(outs) == 1 else "%s.%d" % (name, o)) + tuple(args[x] for x in ins_)
                    self.wr(s, args[o], v, ins, ctx)
            return C0
        if name == "MPI_Group_translate_ranks":
            # (g1, n, in[], g2, out[])
            # named by the communicators behind the groups, so equal translations are equal terms
            g1, g2 = s.mem.get(("gc", args[0]), args[0]), s.mem.get(("gc", args[3]), args[3])
            v = ("pure", "xlate", g1, self.rd(s, args[2]), g2)
            if args[1] == C1:
                self.wr(s, args[4], v, ins, ctx)
            else:
                self.havoc_obj(s, args[4], ins, ctx)
            return C0
        outs = self.outs_of(name, ins)
        for o in outs:
            if o >= len(args):
                continue
            p = args[o]
            if p[0] in ("c", "fn", "undef"):
                continue
            v = ("out", name, uid, o, ctx)
            self.fresh(s, v)
            p = args[o] if not contains(args[o], v) else args[o]
            self.havoc_obj(s, p, ins, ctx)
            self.kill(s, p, uid, ctx)
            s.mem[p] = v
            if name == "MPI_Comm_group":
                s.mem[("gc", v)] = args[0]
        if name in ("pthread_mutex_lock", "pthread_mutex_unlock", "MPI_Win_flush", "free") and False:
            return C0
        if ins.res is None:
            return ("void",)
        v = ("call", name, uid, ctx)
        v = self.fresh(s, v)
        if name == "malloc" and args[0][0] == "c" and args[0][1] <= 8:
            self.singles.add(v)
        return v

    def compare(self, s, a, b, n):
        """strncmp of two texts whose characters are known constants: -1, 0, 1, or None"""
        k = 0
        while n is None or k < n:
            x, y = (self.rd(s, self.index(p, ("c", k), 1)) for p in (a, b))
            if x[0] != "c" or y[0] != "c":
                return None
            if x != y:
                return -1 if x[1] & 255 < y[1] & 255 else 1
            if x[1] == 0:
                return 0
            k += 1
        return 0

    def outs_of(self, name, ins):
        outs = OUTS.get(name)
        if outs is None:
            tys = ins.extra[1]
            if name in self.summ:
                outs = self.summ[name]
            elif name in self.m.funcs:
                outs = (0,) if tys and tys[0] == "ptr" else ()
            else:
                outs = tuple(n for n, t in enumerate(tys) if t == "ptr")
        return outs

    def is_array(self, r):
        if r[0] == "call":
            return r[1] in ("malloc", "calloc")
        if r[0] == "out":
            return r[1] == "MPI_Alloc_mem"
        return r[0] == "al" and (r[1], r[2]) in self.vlas()

    def vlas(self):
        r = getattr(self, "_vlas", None)
        if r is None:
            r = self._vlas = set((fn.name, i.res) for fn in self.m.funcs.values() for i in fn.instrs()
                                 if i.op == "alloca" and i.ops and i.ops[0][0] != "c")
        return r

    def drop_obj(self, s, p):
        """the object p points at ceased to exist"""
        p = strip_idx(p)
        if p[0] in ("c", "fn", "undef"):
            return
        for k in list(s.mem):
            kk = k[1] if k[0] in SPECIAL else k
            if kk == p or self._under(kk, p):
                del s.mem[k]
        lk = [k for k in s.facts if any(x[0] in ("ld", "hv", "wid", "uninit") and (x[1] == p or self._under(x[1], p)) for x in subterms(k) if x)]
        for k in lk:
            del s.facts[k]
        s.rc = set(k for k in s.rc if not (k == p or self._under(k, p)))

    def copy_obj(self, s, d, src, ins, ctx):
        ents = []
        for k, v in s.mem.items():
            if k[0] in SPECIAL:
                continue
            if k == src or self._under_exact(k, src):
                ents.append((rebase(k, src, d), v))
        self.havoc_obj(s, d, ins, ctx)
        r = root(d)
        for k, v in ents:
            s.mem[k] = v
        s.mem[("copy", d)] = src

    def _under_exact(self, k, p):
        while True:
            if k == p:
                return True
            if k[0] in ("fld", "idx"):
                k = k[1]
            else:
                return False


def rebase(k, a, b):
    if k == a:
        return b
    return (k[0], rebase(k[1], a, b)) + k[2:]


def fresh_obj(r):
    """terms that denote an object distinct from every other one"""
    return r[0] in ("al", "g") or (r[0] == "call" and r[1] in ("malloc", "calloc", "realloc", "strdup"))


_els = {}


def body_elems(m, ty):
    k = (id(m), ty)
    r = _els.get(k)
    if r is None:
        from ir import split_top
        body = m.types.get(ty, "opaque")
        r = split_top(body.strip()[1:-1].strip()) if body.strip().startswith("{") else []
        _els[k] = r
    return r
