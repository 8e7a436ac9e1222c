"""Vector operations whose segments were found to conflict."""
import base
import p21
import vector
from interp import Monitor, cmp_term, add, subterms, lin, mk, show
from regions import shape

EXPLANATION = ("Path-sensitive analysis of the vector operations with the outcome of the checks for overlap and for a common allocation left open: on every path that has not "
               "ruled a conflict out, segments are issued one at a time, each against the allocation found for its own address.")
ASSUMPTIONS = ["the check for overlap answers truthfully (overlap detection over address ranges is not applicable here, N03)"]


class Same(Monitor):
    """a check for a common allocation says yes only if every address was found to lie with the first one"""
    name = "same"

    def __init__(self):
        self.sites = set()

    def collect(self):
        return sorted(self.sites)

    def start(self, eng, st, entry):
        self.eng = eng
        self.ptrs, self.n, self.proc = [("arg", i, p[1]) for i, p in enumerate(entry.params)][:3]
        self.sh = shape(eng)
        self.st = next(t for t, f in eng.m.fields.items() if f[:2] == ["base", "size"])
        fs = [(t, f.index("iov_checks")) for t, f in eng.m.fields.items() if "iov_checks" in f]
        self.flag = ("ld", ("fld", ("g", "ARMCII_GLOBAL_STATE")) + fs[0])
        # ("last", highest number checked, new names since, went on in this pass)
        st.mon[self.name] = (("c", 0), (), True)

    def num(self, v):
        """v is address number I of the list"""
        if v[0] != "ld":
            return None
        c, d = lin(add(v[1], self.ptrs, -1))
        if v[1][0] == "idx" and v[1][1] == self.ptrs and v[1][3] == 8:
            return v[1][2]
        if c % 8 or any(k % 8 for k in d.values()) or self.ptrs in d:
            return None
        return mk(c // 8, {a: k // 8 for a, k in d.items()})

    def at(self, st, I):
        return self.eng.rd(st, self.eng.index(self.ptrs, I, 8) if I != ("c", 0) else self.ptrs)

    def with_first(self, st, v):
        if self.num(v) == ("c", 0):
            return True
        look = lambda x: ("pure", "gmr_lookup", x, self.proc)
        a, b = look(self.at(st, ("c", 0))), look(v)
        if st.decide(cmp_term("eq", a, b)) is True or st.decide(cmp_term("eq", a, ("c", 0))) is True and st.decide(cmp_term("eq", b, ("c", 0))) is True:
            return True
        sl = self.eng.index(("ld", ("fld", a, self.sh.types[0], self.sh.idx["slices"])), self.proc, self.eng.m.sizeof(self.st))
        lo, size = ("ld", ("fld", sl, self.st, 0)), ("ld", ("fld", sl, self.st, 1))
        return st.decide(cmp_term("sge", v, lo)) is True and st.decide(cmp_term("slt", v, add(lo, size))) is True

    def branch(self, eng, st, ins, cond, truth, ctx):
        if cond[0] != "b" or st.mon[self.name] is None:
            return
        for v in subterms(cond):
            I = self.num(v)
            if I is None or not self.with_first(st, v):
                continue
            last, maps, _ = st.mon[self.name]
            J = vector.Vector.tr(I, maps)
            if add(J, last, -1) == ("c", 1):
                st.mon[self.name] = (I, (), True)
                self.sites.add("%s:%s" % (ins.fn.name, ins.line))

    decided = branch

    def back_edge(self, eng, st, fn, header, ctx, phis):
        s = st.mon[self.name]
        if s is None:
            return
        # by induction the list is walked by this loop: each pass checks the next address
        steps = [(n, o) for _, n, o in phis if n is not None and o is not None and n != o]
        if not s[2]:
            news = [n for _, n, _ in phis if n is not None]
            if not any(n[0] in ("b", "op", "join") or n == ("c", 0) for n in news) and any(add(n, o, -1) in (("c", 1), ("c", 8)) for n, o in steps):
                eng.report("truth", None, "an address is passed over without being found to lie with the first", st, ctx, key="over", fn=fn)
            st.mon[self.name] = None
            return
        st.mon[self.name] = s[:2] + (False,)

    def rebind(self, eng, st, pairs):
        s = st.mon[self.name]
        if s is not None:
            st.mon[self.name] = (s[0], s[1] + tuple((n, v) for v, n in pairs), s[2])

    def exit(self, eng, st, fn, ret):
        s = st.mon[self.name]
        if s is None or ret is None or st.decide(cmp_term("eq", self.flag, ("c", 0))) is True or st.decide(cmp_term("eq", ret, ("c", 0))) is True:
            return
        if ret[0] != "c":
            return
        last, maps, _ = s
        ok = st.decide(cmp_term("sge", add(last, ("c", 1)), self.n))
        for n, val in maps:
            k = add(add(last, ("c", 1)), vector.Vector.tr(n, maps), -1)
            if ok is not True and k[0] == "c":
                ok = st.decide(cmp_term("sge", add(n, k), self.n))
        if ok is not True:
            eng.report("truth", None, "says that all addresses share an allocation although not all were checked", st, 0, key="short", fn=fn)


def run(c):
    c.rule("own", "a transfer's allocation is the one found for its own remote address, unless all segments were found to lie in one")
    c.rule("serial", "unless overlap and several allocations were ruled out, no segment is issued while the one before is not complete")
    for r in p21.walk(c):
        for p in r["extra"]["vx"]["own"]:
            c.inst("serial" if p.endswith(" serial") else "own", "%s %s" % (r["entry"], p))
    if vector.SAME in c.m.funcs:
        c.rule("truth", "the check for a common allocation says yes only if every address was found in the allocation of the first")
        for r in c.explore([vector.SAME], lambda e: [Same()], kw=base.kw(c.m)):
            for p in r["extra"]["same"]:
                c.inst("truth", p)
    c.floor("own", 12)
    c.floor("serial", 6)
