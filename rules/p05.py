"""Nonblocking handles: every request is recorded, wait completes all of them, test reports truthfully."""
import base
from base import request_sink
from interp import Monitor, add, scale, cmp_term
from rma import Rma
from entries import NB
from ir import AnalysisBroken

EXPLANATION = ("Path-sensitive analysis of the nonblocking entry points (every request obtained from MPI must be handed to the caller's handle) and of "
               "the handle's own operations, once for each shape a handle can have: no request, one request, an array of k >= 2 requests (k symbolic). "
               "The shape after each operation is read back from the abstract memory and compared with the handle's representation invariant.")
ASSUMPTIONS = ["handles are initialised before use and are used by one thread at a time",
               "malloc and realloc succeed",
               "MPI_Wait, MPI_Waitall, MPI_Test and MPI_Testall have the effects the MPI standard gives them"]
NULLREQ = ("g", "ompi_request_null")


class H:
    def __init__(self, m):
        ts = [t for t in m.fields if t in m.types and "single_request" in m.fields[t] and "request_array" in m.fields[t] and "batch_size" in m.fields[t]]
        if not ts:
            raise AnalysisBroken("handle record not found")
        self.ts = ts
        self.ix = {n: m.fields[ts[0]].index(n) for n in ("batch_size", "single_request", "request_array")}

    def addr(self, h, f, t=None):
        return ("fld", h, t or self.ts[0], self.ix[f])

    def get(self, eng, st, h, f):
        for t in self.ts:
            a = self.addr(h, f, t)
            if a in st.mem:
                return st.mem[a]
        return eng.rd(st, self.addr(h, f))


def shape(hh, harg, n):
    """handle holds n requests: 0, 1 or 'k' (k >= 2)"""
    def setup(eng, st, args):
        h = args[harg]
        st.assume(("b", False, "eq", h, 0), False)
        for t in hh.ts:
            if n == "k":
                k = ("ld", hh.addr(h, "batch_size", t))
                st.assume(("b", False, "lt", k, 2), False)
                st.mem[hh.addr(h, "single_request", t)] = NULLREQ
                st.assume(("b", False, "eq", ("ld", hh.addr(h, "request_array", t)), 0), False)
            else:
                st.mem[hh.addr(h, "batch_size", t)] = ("c", n)
                if n == 0:
                    st.mem[hh.addr(h, "single_request", t)] = NULLREQ
                    st.mem[hh.addr(h, "request_array", t)] = ("c", 0)
    setup.label = "requests=%s" % n
    return setup


class Handle(Monitor):
    name = "handle"

    def __init__(self, hh, what, harg, n):
        self.hh, self.what, self.harg, self.n = hh, what, harg, n
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.h = ("arg", self.harg, entry.params[self.harg][1])
        self.fn = entry
        st.mon[self.name] = frozenset()

    def put(self, st, *x):
        st.mon[self.name] = st.mon[self.name] | frozenset(x)

    def is_field(self, a, f):
        return a[0] == "fld" and a[1] == self.h and a[2] in self.hh.ts and a[3] == self.hh.ix[f]

    def is_old(self, v, f):
        return v[0] in ("ld", "hv", "old") and self.is_field(v[1], f) if v[0] != "old" else self.is_old(v[1], f)

    def call(self, eng, st, ins, fn, args, ctx):
        site = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        if fn in ("MPI_Wait", "MPI_Test"):
            self.sites.add(site)
            if self.is_field(args[0], "single_request"):
                self.put(st, ("single", fn, eng.ins_uid(ins), ctx))
        elif fn in ("MPI_Waitall", "MPI_Testall"):
            self.sites.add(site)
            v = args[1]
            if self.is_old(v, "request_array"):
                if self.is_old(args[0], "batch_size"):
                    self.put(st, ("array", fn, eng.ins_uid(ins), ctx))
                else:
                    eng.report("wait-all", ins, "waits for a number of requests that is not the number the handle holds", st, ctx, key="count")
            elif self.is_field(v, "single_request") and args[0] == ("c", 1):
                self.put(st, ("single", fn, eng.ins_uid(ins), ctx))
        elif fn == "free":
            if self.is_old(args[0], "request_array"):
                self.sites.add(site)
                self.put(st, ("freed",))
                if not any(x[0] == "array" for x in st.mon[self.name]):
                    eng.report("wait-all", ins, "the array of requests is released before they were waited for", st, ctx, key="early-free")
        elif fn in ("malloc", "realloc", "calloc"):
            self.put(st, ("alloc", eng.ins_uid(ins), args[-1] if fn != "calloc" else None, args[0] if fn == "realloc" else None))

    # ---- at exit
    def exit(self, eng, st, fn, ret):
        g = lambda f: self.hh.get(eng, st, self.h, f)
        getattr(self, "x_" + self.what)(eng, st, fn, ret, g)

    def rep(self, eng, st, fn, rule, msg, key=None):
        eng.report(rule, None, msg, st, 0, key=(key or msg, str(self.n)), fn=fn)

    def empty(self, eng, st, fn, g, rule):
        if not (g("batch_size") == ("c", 0) and g("single_request") == NULLREQ and g("request_array") == ("c", 0)):
            self.rep(eng, st, fn, rule, "the handle is not empty afterwards (%s request(s) before)" % self.n)

    def x_init(self, eng, st, fn, ret, g):
        self.empty(eng, st, fn, g, "handle-init")

    def done(self, st):
        for x in st.mon[self.name]:
            if x[0] in ("single", "array"):
                return x
        return None

    def x_wait(self, eng, st, fn, ret, g):
        d = self.done(st)
        if self.n == 0:
            return
        if d is None or d[0] != ("single" if self.n == 1 else "array") or d[1] not in ("MPI_Wait", "MPI_Waitall"):
            self.rep(eng, st, fn, "wait-all", "returns without having waited for the request(s) the handle holds (%s)" % self.n)
            return
        self.empty(eng, st, fn, g, "wait-all")
        if self.n == "k" and ("freed",) not in st.mon[self.name]:
            self.rep(eng, st, fn, "wait-all", "the array of requests is never released")

    def x_test(self, eng, st, fn, ret, g):
        zero = rel(st, "eq", ret, ("c", 0))
        d = self.done(st)
        if self.n == 0:
            if zero is not True:
                self.rep(eng, st, fn, "test-truth", "a handle with no outstanding request is reported as not complete")
            return
        if d is None or d[0] != ("single" if self.n == 1 else "array"):
            if zero is not False:
                self.rep(eng, st, fn, "test-truth", "can report completion without having asked MPI about the request(s) the handle holds (%s)" % self.n)
            return
        flag = None
        if d[1] in ("MPI_Test", "MPI_Testall"):
            flag = ("out", d[1], d[2], 1 if d[1] == "MPI_Test" else 2, d[3])
            fz = rel(st, "eq", flag, ("c", 0))
        else:
            fz = False
        if zero is None or fz is None:
            # the result must be the negation of the flag
            if fz is None and zero is None:
                s1, s2 = st.copy(), st.copy()
                ok = True
                for s, tr in ((s1, True), (s2, False)):
                    s.assume(cmp_term("eq", flag, ("c", 0)), tr)
                    z = rel(s, "eq", ret, ("c", 0))
                    ok = ok and z is (not tr)
                if not ok:
                    self.rep(eng, st, fn, "test-truth", "the result does not follow what MPI reported")
            else:
                self.rep(eng, st, fn, "test-truth", "the result does not follow what MPI reported")
        elif zero == fz:
            self.rep(eng, st, fn, "test-truth", "reports %s although MPI reported %s" % (("completion", "no completion") if zero else ("no completion", "completion")))
        if fz is True:
            if self.n == 1 and (g("batch_size") != ("c", 1)) or self.n == "k" and not self.is_old(g("batch_size"), "batch_size") \
                    or ("freed",) in st.mon[self.name]:
                self.rep(eng, st, fn, "test-truth", "the handle loses its request(s) although they are not complete")
        elif fz is False:
            self.empty(eng, st, fn, g, "test-truth")
            if self.n == "k" and ("freed",) not in st.mon[self.name]:
                self.rep(eng, st, fn, "test-truth", "the array of requests is never released")

    def x_append(self, eng, st, fn, ret, g):
        new = ("arg", 1 - self.harg, fn.params[1 - self.harg][1])
        b, s, a = g("batch_size"), g("single_request"), g("request_array")
        allocs = [x for x in st.mon[self.name] if x[0] == "alloc"]
        bad = lambda msg: self.rep(eng, st, fn, "request-recorded", msg)
        if self.n == 0:
            if b != ("c", 1) or s != new:
                bad("the first request is not recorded in the handle")
            return
        want = ("c", 2) if self.n == 1 else None
        if self.n == 1 and b != want or self.n == "k" and rel(st, "eq", b, add(self.old(st, "batch_size"), ("c", 1))) is not True:
            bad("the number of requests does not grow by one (handle with %s)" % self.n)
            return
        if not allocs:
            bad("no array is allocated for the requests (handle with %s)" % self.n)
            return
        need = scale(b, 8)
        size = allocs[-1][2] if len(allocs) == 1 else None
        if size is not None and rel(st, "slt", size, need) is not False:
            bad("the array of requests is allocated too small (handle with %s)" % self.n)
        ent = {}
        for ad, v in st.mem.items():
            if ad == a:
                ent[("c", 0)] = v
            elif ad[0] == "idx" and ad[1] == a:
                ent[ad[2]] = v
        last = [v for k, v in ent.items() if rel(st, "eq", add(k, ("c", 1)), b) is True]
        if new not in last:
            bad("the new request is not stored in the last slot of the array (handle with %s)" % self.n)
        if self.n == 1 and not any(st.known_const(k) == 0 and self.is_old(v, "single_request") for k, v in ent.items()):
            bad("the request recorded earlier is lost when the second one is added")
        if self.n == "k" and not any(self.is_old(x[3], "request_array") for x in allocs if x[3] is not None):
            bad("the requests recorded earlier are lost when another one is added")

    def old(self, st, f):
        return ("ld", self.hh.addr(self.h, f))


def rel(st, p, a, b):
    return st.decide(cmp_term(p, a, b))


def run(c):
    m = c.m
    c.rule("request-recorded", "every request a nonblocking operation obtains is appended to the caller's handle and none recorded earlier is lost")
    c.rule("wait-all", "wait completes every request the handle holds, then leaves it empty")
    c.rule("test-truth", "test reports completion exactly when no request is outstanding, and changes the handle only then")
    c.rule("handle-init", "initialising a handle leaves it empty")
    sink = request_sink(m)
    c.need(sink, "the function that appends a request to a handle is not found")
    res = c.explore(NB, lambda e: [Rma(e, blocking=False)], setup=base.profiles(m), kw=base.kw(m))
    c.reports = [dict(r, rule="request-recorded") for r in c.reports if r["rule"] in ("request-untracked", "request-lost")]
    for r in res:
        for s in r["extra"]["rma"]["rma"]:
            c.inst("request-recorded", r["entry"] + " " + s)
    hh = H(m)
    plan = [("ARMCI_INIT_HANDLE", "init", 0, (None,), "handle-init"), ("PARMCI_Wait", "wait", 0, (0, 1, "k"), "wait-all"),
            ("PARMCI_Test", "test", 0, (0, 1, "k"), "test-truth")] + \
           [(f, "append", 0, (0, 1, "k"), "request-recorded") for f in sink]
    for e, what, harg, ns, rule in plan:
        for n in ns:
            st = shape(hh, harg, n) if n is not None else None
            for r in c.explore([e], lambda e: [Handle(hh, what, harg, n)], setup=lambda e: [st], kw=dict(base.KW)):
                c.inst(rule, "%s %s" % (e, n), *r["extra"]["handle"])
    c.floor("request-recorded", 12)
    c.floor("wait-all", 3)
    c.floor("test-truth", 3)
    c.floor("handle-init", 1)
