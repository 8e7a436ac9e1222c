"""Traversal obligations: every live region is visited and the required call is made for it.

A list of regions is walked by loading the list head and then each region's link field.  Every region pointer that is
loaded this way carries two obligations until it is known to be NULL: its link must be loaded too, and the required MPI
call must be made on its window.  What is still owed when the traversal has to be finished is a violation.
"""
from interp import Monitor, subterms
from mpi import FLUSH
from ir import AnalysisBroken

HEAD = ("g", "gmr_list")


class Shape:
    """names of the region record's parts, resolved from the debug information"""

    def __init__(self, m):
        self.types = [t for t in m.fields if "window" in m.fields[t] and "slices" in m.fields[t] and "next" in m.fields[t]]
        if not self.types:
            raise AnalysisBroken("region record (window, slices, next) not found")
        f = m.fields[self.types[0]]
        self.idx = {n: f.index(n) for n in f}

    def field(self, addr, name):
        """addr is the address of field `name` of a region: the region pointer, else None"""
        if addr[0] == "fld" and addr[2] in self.types and addr[3] == self.idx.get(name):
            return addr[1]
        return None

    def loaded(self, v, name):
        """v is the loaded value of field `name`: the region pointer"""
        if v[0] in ("ld", "hv", "wid"):
            return self.field(v[1], name)
        return None


def shape(eng):
    r = getattr(eng, "_shape", None)
    if r is None:
        r = eng._shape = Shape(eng.m)
    return r


def atoms(L):
    return [L] if L[0] != "lin" else [y for y in subterms(L) if y is not L]


def translation(k, proc):
    """k is the rank of argument `proc` within some region's group: the terms it is computed from, else None"""
    if k[0] == "pure" or (k[0] == "ld" and "abs_to_grp" in repr(k)):
        sub = set(subterms(k))
        if ("arg", proc) in {y[:2] for y in sub}:
            return sub
    return None


class Traverse(Monitor):
    """what: 'flush' | 'sync'; local: is a local flush enough; proc: index of the target argument or None (all targets);
    begin/end: name of the external call that opens/closes the window of time in which the traversal must happen"""

    def __init__(self, name, what, local=False, proc=None, begin=None, end=None, rule="region-missed", cond=None):
        self.name, self.what, self.local, self.proc, self.begin, self.end, self.rule = name, what, local, proc, begin, end, rule
        self.cond = cond            # function(st) -> False: the obligation does not apply on this path
        self.sites = set()
        self.walks = set()

    def start(self, eng, st, entry):
        self.sh = shape(eng)
        st.mon[self.name] = frozenset([("phase", 0 if self.begin else 1)])

    def collect(self):
        return dict(sites=sorted(self.sites), walks=sorted(self.walks))

    def phase(self, st):
        for x in st.mon[self.name]:
            if x[0] == "phase":
                return x[1]

    def upd(self, st, add=(), rem=()):
        st.mon[self.name] = (st.mon[self.name] - frozenset(rem)) | frozenset(add)

    def items(self, st):
        return [x for x in st.mon[self.name] if x[0] == "n"]

    def see(self, st, v):
        if v[0] == "c":
            return
        for x in self.items(st):
            if x[1] == v:
                return
        self.upd(st, [("n", v, 0, 0)])

    def mark(self, st, v, pos):
        for x in self.items(st):
            if x[1] == v:
                n = list(x)
                n[pos] = 1
                self.upd(st, [] if n[2] and n[3] else [tuple(n)], [x])

    def load(self, eng, st, ins, addr, val, ctx):
        if self.phase(st) != 1:
            return
        if addr == HEAD:
            self.upd(st, [("head",)])
            self.walks.add("%s:%s" % (ins.fn.name, ins.line))
            self.see(st, val)
            return
        x = self.sh.field(addr, "next")
        if x is not None and any(i[1] == x for i in self.items(st)):
            self.mark(st, x, 3)
            self.see(st, val)

    def excluded(self, st):
        """regions known, on this path, to have no part on the target process"""
        if self.proc is None:
            return set()
        out = set()
        for k, f in st.facts.items():
            if f[1] is not None and f[1] < 0:
                r = translation(k, self.proc)
                if r is not None:
                    out |= r
        return out

    def branch(self, eng, st, ins, cond, truth, ctx):
        ex = self.excluded(st)
        for x in self.items(st):
            if st.known_const(x[1]) == 0:
                self.upd(st, (), [x])
            elif x[1] in ex and not x[2]:
                self.mark(st, x[1], 2)
            elif self.what == "sync" and not x[2]:
                for t in self.sh.types[:1]:
                    v = eng.rd(st, ("fld", x[1], t, self.sh.idx["unified"]))
                    nz = st.decide(("b", True, "eq", v, 0))
                    if nz is None:
                        nz = st.decide(("b", True, "eq", ("trunc", v, "i1"), 0))
                    if nz:
                        self.mark(st, x[1], 2)

    def rebind(self, eng, st, pairs):
        for x in self.items(st):
            for v, n in pairs:
                if x[1] == v:
                    self.upd(st, [(x[0], n) + x[2:]], [x])
                    if st.known_const(v) not in (None,) and st.known_const(v) == 0:
                        self.upd(st, (), [(x[0], n) + x[2:]])

    def call(self, eng, st, ins, fn, args, ctx):
        if self.what == "flush" and fn in FLUSH:
            local, rp, wp = FLUSH[fn]
            x = self.sh.loaded(args[wp], "window")
            if x is None or (local and not self.local):
                return
            if rp is not None:
                if self.proc is None:
                    return
                if ("arg", self.proc) not in {y[:2] for y in subterms(args[rp])}:
                    return
            self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
            self.mark(st, x, 2)
        if self.what == "sync" and fn == "MPI_Win_sync":
            x = self.sh.loaded(args[0], "window")
            if x is not None:
                self.sites.add("%s:%s %s" % (ins.fn.name, ins.line, fn))
                self.mark(st, x, 2)
        if self.end and fn == self.end and self.phase(st) == 1:
            self.check(eng, st, ins, None, "before the %s" % fn, ctx)
            st.mon[self.name] = frozenset([("phase", 2)])
        if self.begin and fn == self.begin and self.phase(st) == 0:
            st.mon[self.name] = frozenset([("phase", 1)])

    def owed(self, st):
        if not any(x[0] == "head" for x in st.mon[self.name]):
            return "the list of live regions is not traversed"
        for x in self.items(st):
            if st.known_const(x[1]) == 0:
                continue
            if not x[2]:
                return "a live region is not %s" % ("flushed" if self.what == "flush" else "synchronised")
            return "the traversal stops before the end of the region list"
        return None

    def check(self, eng, st, ins, fn, when, ctx=0):
        if self.cond and not self.cond(eng, st):
            return
        o = self.owed(st)
        if o:
            eng.report(self.rule, ins, "%s %s" % (o, when), st, ctx, key=(self.name, o), fn=fn)

    def exit(self, eng, st, fn, ret):
        if self.cond and not self.cond(eng, st):
            return
        p = self.phase(st)
        if p == 1 and not self.end:
            self.check(eng, st, None, fn, "when the call returns")
        elif p != 2 and self.end or p == 0:
            eng.report(self.rule, None, "returns without %s" % (self.end if p else self.begin), st, 0, key=(self.name, "phase"), fn=fn)


class NoAbort(Monitor):
    """the call must not abort merely because some live region has no part on the target"""
    name = "noabort"

    def __init__(self, proc=0):
        self.proc = proc
        self.sites = set()

    def start(self, eng, st, entry):
        st.mon[self.name] = frozenset()

    def collect(self):
        return sorted(self.sites)

    def branch(self, eng, st, ins, cond, truth, ctx):
        if cond[0] != "b":
            return
        bad = False
        for a in atoms(cond[3]):
            if translation(a, self.proc) is not None:
                f = st.bounds(a)
                bad = bad or bool(f and f[1] is not None and f[1] < 0)
        st.mon[self.name] = frozenset([("bad",)]) if bad else frozenset()

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in eng.noret and st.mon[self.name]:
            eng.report("region-excludes-target", ins, "aborts when a live region belongs to a group that does not include the target process",
                       st, ctx, key="excl")
