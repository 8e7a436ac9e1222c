"""Coverage of an array by a filling loop: which elements a path stores, judged when the path leaves the loop.

The engine runs the first iterations of a counting loop concretely and the rest for an arbitrary counter value, so a path carries
constant element numbers (0, 1) and one symbolic element number.  Nothing is claimed about loops that do not count up from a constant.
"""
from interp import cmp_term, subterms, add

SYM = ("phi", "join", "wid", "hv")


class Fill:
    def __init__(self, tag):
        self.tag = tag
        self.consts = set()         # constant element numbers stored on some path
        self.syms = False
        self.loops = set()
        self.short = None           # (by how many, branch) a loop is known to end before the last element
        self.whole = False          # filled by a block operation somewhere
        self.steps = {}             # (function, header) -> the counter's step, if back_edge is called

    def items(self, its):
        return [x for x in its if x[0] == self.tag]

    def add(self, its, i, ins=None):
        if ins is not None:
            for h, body in ins.fn.loops.items():
                if ins.block.name in body:
                    self.loops.add((ins.fn.name, h))
        if i[0] == "c":
            self.consts.add(i[1])
        else:
            self.syms = True
        return its | {(self.tag, i)}

    def all(self, its):
        self.whole = True
        return its | {(self.tag, "all")}

    def owed(self, st, its, n, dec=None):
        """what is missing when elements 0..n-1 must have been stored: a text, or None.  dec(cond) -> True/False/None"""
        dec = dec or st.decide
        mine = [x[1] for x in self.items(its)]
        if "all" in mine or dec(cmp_term("sle", n, ("c", 0))) is True:
            return None
        if not (self.consts or self.syms or self.whole):
            return "is never filled"
        if not mine:
            return "is not filled on this path"
        if not self.consts:
            return None
        cs = {i[1] for i in mine if i != "ended" and i[0] == "c"}
        one = "ended" in mine and self.loops and all(self.steps.get(x) == {1} for x in self.loops)
        for k in (0,) if one else (0, 1):
            if k not in cs and dec(cmp_term("sge", n, ("c", k + 1))) is True:
                return "lacks element %d" % k
        sy = [i for i in mine if i != "ended" and i[0] != "c"]
        if not sy:
            top = max(cs) + 1
            if "ended" in mine:
                return None         # the loop ended for an arbitrary count
            return None if dec(cmp_term("sle", n, ("c", top))) is True else "has only its first %d element(s) filled" % top
        return None

    def back_edge(self, fn, header, phis):
        for _, n, o in phis:
            if o is not None and n is not None and n != o:
                d = add(n, o, -1)
                if d[0] == "c" and (n[0] == "c" or any(x[0] in SYM for x in subterms(n))):
                    self.steps.setdefault((fn.name, header), set()).add(d[1])

    def branch(self, st, its, ins, truth, ns):
        """to be called at every branch, after its outcome is assumed: notes that a filling loop has ended for an arbitrary count"""
        for f, h in self.loops:
            body = ins.fn.loops.get(h) if ins.fn.name == f else None
            if body is None or ins.block.name not in body or len(ins.extra) != 2 or ins.extra[0 if truth else 1] in body:
                continue
            for n in ns:
                for L, b in st.facts.items():
                    sub = list(subterms(L))
                    if n not in sub:
                        continue
                    for j in sub:
                        if j[0] in SYM and j in [a for a, _ in (L[2] if L[0] == "lin" else ())]:
                            lo = st.bounds(add(j, n, -1))
                            if lo and lo[0] is not None and lo[0] < 0:
                                if self.short is None or self.short[0] < -lo[0]:
                                    self.short = (-lo[0], ins)
                            its = its | {(self.tag, "ended")}
        return its
