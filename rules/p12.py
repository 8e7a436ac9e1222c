"""Destroying an object releases what creating it obtained."""
import os
import re
import base
import p11
from interp import root, subterms
from ir import split_top
from owned import Res, fresh_kind, looping, ACQ, REL
from rma import unold
from alloc import deold, vague
from profiles import pin, gs_field
from fill import Fill

EXPLANATION = ("Ownership analysis of the creating and destroying entry points of groups, mutex sets, allocations and the library itself, under the settings "
               "both depend on.  What creation leaves behind (record, field, array element or global, and the kind of object) is compared with what every "
               "path of destruction releases; what destruction releases is compared with what every path of creation defines.")
ASSUMPTIONS = ["asserts that fail do not return", "settings do not change between creation and destruction"]
RULES = {
    "released": "destroying an object releases everything that creating it left behind, with the matching routine, on every path that releases anything",
    "defined": "what destruction releases or tests was given a value by every way of creating the object",
    "all-elements": "where creation obtains one object per array element, destruction releases the element of every index",
    "refcount": "the library is set up by the first and torn down by the last of nested initialisations only",
}
GSTATE = ("g", "ARMCII_GLOBAL_STATE")
GTYPE = {}                      # globals that are records: their address is that of the first field
NULLS = {"ompi_mpi_comm_null", "ompi_mpi_group_null", "ompi_mpi_win_null", "ompi_mpi_info_null", "ompi_mpi_op_null", "ompi_mpi_datatype_null"}


def cell(a):
    """the place an address denotes, independent of the object it belongs to"""
    a = deold(a)
    if a[0] == "fld":
        return ("field", a[2], a[3])
    if a[0] == "g":
        return ("field", GTYPE[a[1]], 0) if a[1] in GTYPE else ("global", a[1])
    if a[0] == "idx":
        b = a[1]
        if b[0] == "ld":
            c = cell(b[1])
            return ("elt",) + c if c else None
        if b[0] in ("fld", "g"):
            return ("elt",) + cell(b)
        if b[0] in ("out", "call"):
            return ("heapelt", b)
    if a[0] == "ld":
        c = cell(a[1])
        return ("elt",) + c if c else None
    if a[0] in ("call", "out"):
        return ("heapelt", a)
    return None


def cellname(m, p):
    if p[0] == "elt":
        return "an element of " + cellname(m, p[1:])
    if p[0] == "field":
        return "field %s of %s" % (m.fields[p[1]][p[2]] if p[1] in m.fields else p[2], p[1].split(".")[-1])
    if p[0] == "global":
        return p[1]
    return str(p[0])


class Life(Res):
    """records, per path: what is handed over and where, which cells are stored, which are released or known empty"""
    name = "res"

    def __init__(self):
        Res.__init__(self)
        self.exits = set()
        self.fills = {}
        self.counter = None
        self.bounds_of = {}
        self.where = {}

    def start(self, eng, st, entry):
        Res.start(self, eng, st, entry)
        self.counter = gs_field(eng.m, "init_count")
        self.settings = {gs_field(eng.m, n): n for n in ("noncollective_groups", "cache_rank_translation")}

    def collect(self):
        return dict(exits=list(self.exits), sites=Res.collect(self), bounds={k: list(v) for k, v in self.bounds_of.items()}, where=dict(self.where),
                    short={c: (f.short[0], f.short[1].fn.file, f.short[1].line, f.short[1].fn.name) for c, f in self.fills.items() if f.short})

    def rep(self, *a, **k):
        pass                        # judged elsewhere

    def record(self, st, x):
        """the type of the record a heap block holds, from the fields stored in it"""
        r = unold(x[2])
        for y in self.its(st, "rec"):
            if y[1] == r:
                return y[2]
        return None

    def left(self, st, x, c):
        t = self.record(st, x) if x[1] == "heap" else None
        if t is not None:
            c = ("record", t)
        if c is not None:
            self.upd(st, [("left", x[1], c)])
        if x[1] == "heap" and c is not None and c[0] == "field":
            self.length(st, x, c)

    def length(self, st, x, c):
        """which field of the record counts the elements of the array"""
        v = unold(x[2])
        for y in self.its(st, "len"):
            if y[1] == v:
                for f in y[2]:
                    self.upd(st, [("counted", c, f)])

    def transfer(self, st, x):
        todo = [x]
        while todo:
            x = todo.pop()
            self.upd(st, rem=[x])
            r = unold(x[2])
            inner = [y for y in self.its(st, "own") if y[3] is not None and unold(root(y[3])) == r]
            for y in inner:
                c = cell(y[3])
                if c is not None and c[0] == "heapelt" and x[3] is not None and cell(x[3]):
                    c = ("elt",) + cell(x[3])
                self.left(st, y, c)
                todo.append(y)

    def place(self, eng, st, v, addr, ins):
        c = cell(addr)
        if addr == self.counter:
            self.upd(st, [("now", v[1] if v[0] == "c" else None)], self.its(st, "now"))
        if addr in self.settings:
            self.upd(st, [("cfg", self.settings[addr], v)], [x for x in st.mon[self.name] if x[0] in ("cfg", "is") and x[1] == self.settings[addr]])
            if v[0] == "c":
                self.upd(st, [("is", self.settings[addr], int(v[1] != 0))])
        b = self.block(st, addr)
        glob = root(addr) == GSTATE
        if c is not None and c[0] == "field" and root(addr)[0] not in ("al", "g"):
            self.upd(st, [("set", c)])
            nul = v == ("c", 0) or v[0] == "g" and v[1] in NULLS
            self.upd(st, [("nul", c)] if nul else [], [] if nul else [("nul", c)])
        if addr[0] == "fld" and b is not None and unold(addr[1]) == unold(b[2]):
            self.upd(st, [("rec", unold(b[2]), addr[2])])
        if addr[0] == "fld" and not glob:
            # a count kept beside the array
            for y in self.its(st, "size"):
                if v[0] not in ("c",) and (y[2] == v or y[2] in subterms(v)):
                    self.upd(st, [("len", y[1], frozenset({z for w in self.its(st, "len") if w[1] == y[1] for z in w[2]} | {cell(addr)}))],
                             [w for w in self.its(st, "len") if w[1] == y[1]])
            self.upd(st, [("val", cell(addr), v)], [w for w in self.its(st, "val") if w[1] == cell(addr)])
        own = [x for x in self.its(st, "own") if x[2] == v]
        Res.place(self, eng, st, v, addr, ins)
        for x in own:
            if self.outlives(st, addr) and c is not None:
                self.left(st, x, c)
            elif c is not None and c[0] == "heapelt" and b is not None and b[3] is not None and cell(b[3]):
                self.left(st, x, ("elt",) + cell(b[3]))

    def acquire(self, eng, st, ins, fn, v, addr):
        Res.acquire(self, eng, st, ins, fn, v, addr)
        if fn == "malloc":
            n = self.A0[0]
            fs = {w[1] for w in self.its(st, "val") if w[2][0] != "c" and w[2] in set(subterms(n))}
            self.upd(st, [("size", unold(v), x) for x in subterms(n) if x[0] in ("arg", "out", "ld", "call", "pure")] + ([("len", unold(v), frozenset(fs))] if fs else []))

    def call(self, eng, st, ins, fn, args, ctx):
        self.A0 = args
        if fn.startswith("MPI_"):
            st.assume(("b", False, "eq", ("call", fn, eng.ins_uid(ins), ctx), 0), True)     # MPI errors are fatal
        if fn == "MPI_Win_create":
            x = self.held(st, args[0])
            if x is not None and x[3] is not None and cell(x[3]):
                c = cell(x[3])
                b = self.block(st, x[3])
                if c[0] == "heapelt" and b is not None and b[3] is not None and cell(b[3]):
                    c = ("elt",) + cell(b[3])
                self.left(st, x, c)
        Res.call(self, eng, st, ins, fn, args, ctx)

    def release(self, eng, st, ins, fn, args, ctx):
        kind, by = REL.get(fn, ("heap", False))
        v = args[0]
        c = None
        if by:
            c = cell(v)
        elif unold(v)[0] in ("ld", "hv", "wid"):
            c = cell(unold(v)[1])
            if self.block(st, unold(v)[1]) is not None:
                c = None
        if c is not None and self.held(st, eng.rd(st, v) if by else v) is None:
            self.upd(st, [("rel", kind, c)])
            self.where[(kind, c)] = (ins.fn.file, ins.line, ins.fn.name)
            self.site("released", ins, fn)
            a = v if by else unold(v)[1]
            if c[0] == "field" and a[0] == "fld":
                self.upd(st, [("of", deold(a[1]), c[1])])
            if c[0] == "elt":
                i = a[2] if a[0] == "idx" else ("c", 0)
                f = self.fills.setdefault(c, Fill(("e", c)))
                st.mon[self.name] = f.add(st.mon[self.name], i, ins)
        if not by and kind == "heap":
            for y in self.its(st, "of"):
                if y[1] == deold(v):
                    self.upd(st, [("rel", kind, ("record", y[2]))])
                    self.where[(kind, ("record", y[2]))] = (ins.fn.file, ins.line, ins.fn.name)
        Res.release(self, eng, st, ins, fn, args, ctx)

    def branch(self, eng, st, ins, cond, truth, ctx):
        Res.branch(self, eng, st, ins, cond, truth, ctx)
        for L in subterms(cond[3]) if cond[0] == "b" else ():
            x = unold(L)
            if x[0] in ("ld", "hv", "wid") and self.isint(eng.m, cell(x[1])):
                f = st.bounds(L)
                if f and f[1] is not None and f[1] <= 0:
                    self.upd(st, [("zero", cell(x[1]))])
        ns = {x for L in st.facts for x in subterms(L) if x[0] == "ld" and x[1][0] == "fld"}
        for c, f in self.fills.items():
            st.mon[self.name] = f.branch(st, st.mon[self.name], ins, truth, sorted(ns, key=str))
            for fn, h in f.loops:
                body = ins.fn.loops.get(h) if ins.fn.name == fn else None
                if body and ins.block.name in body and len(ins.extra) == 2 and ins.extra[0 if truth else 1] not in body and cond[0] == "b":
                    for x in subterms(cond[3]):
                        if x[0] == "ld" and x[1][0] == "fld":
                            self.bounds_of.setdefault(c, set()).add((cell(x[1]), ins.fn.file, ins.line, ins.fn.name))
        if cond[0] == "b" and cond[2] == "eq" and cond[4] == 0 and truth == cond[1]:
            self.setting(st, cond[3], 1)
        if cond[0] == "b" and cond[2] == "eq" and cond[4] == 0 and truth != cond[1]:
            L = cond[3]
            xs = [L] if L[0] != "lin" else [x for x, k in L[2]] if len(L[2]) == 2 and any(x[0] == "g" and x[1] in NULLS for x, k in L[2]) else []
            self.setting(st, L, 0)
            for x in xs:
                x = unold(x)
                if x[0] in ("ld", "hv", "wid"):
                    c = cell(x[1])
                    if c is not None and not (c[0] == "field" and "global_state" in c[1]) and not self.isint(eng.m, c):
                        self.upd(st, [("none", c)])

    @staticmethod
    def isint(m, c):
        if c is None or c[0] != "field" or not str(m.types.get(c[1], "")).startswith("{"):
            return False
        fs = split_top(m.types[c[1]][1:-1].strip())
        return c[2] < len(fs) and fs[c[2]].strip().startswith("i")

    def setting(self, st, L, v):
        L = unold(L)
        for x in self.its(st, "cfg"):
            if L == unold(x[2]) or L[0] in ("ld", "hv", "wid") and self.settings.get(L[1]) == x[1]:
                self.upd(st, [("is", x[1], v)])

    def exit(self, eng, st, fn, ret):
        for x in self.its(st, "own"):
            if ret is not None and ret == x[2]:
                t = self.record(st, x)
                if t is not None:
                    self.upd(st, [("left", "heap", ("record", t))])
                self.transfer(st, x)
        if self.its(st, "dead"):
            return
        rv = ret[1] if ret is not None and ret[0] == "c" else None
        out = [x for x in st.mon[self.name] if x[0] in ("left", "set", "nul", "rel", "none", "counted", "is", "zero")] + [("ret", rv)] + [x for x in st.mon[self.name] if x[0] == "now"]
        for c, f in self.fills.items():
            mine = [x[1] for x in st.mon[self.name] if x[0] == ("e", c)]
            if any(isinstance(x, tuple) and x[0] == "c" for x in mine) and "all" not in mine and ("c", 0) not in mine:
                out.append(("late", c))
        self.exits.add(frozenset(out))


def creators(m):
    return {
        "group": (["ARMCI_Group_create_child", "ARMCIX_Group_split", "ARMCIX_Group_dup"], ["ARMCI_Group_free"]),
        "mutex set": (["ARMCIX_Create_mutexes_hdl"], ["ARMCIX_Destroy_mutexes_hdl"]),
        "allocation": (["ARMCI_Malloc_group", "PARMCI_Malloc"], ["ARMCI_Free_group", "PARMCI_Free"]),
        "library": (["PARMCI_Init_thread_comm"], ["PARMCI_Finalize"]),
    }


def judge(c, what, cres, dres):
    m = c.m
    cf, df = m.funcs[m.resolve(cres["entry"])], m.funcs[m.resolve(dres["entry"])]
    X, Y = cres["extra"]["res"], dres["extra"]["res"]
    prof = cres["label"]

    def at(kind, cl):
        for (k, c2), w in Y["where"].items():
            if c2 == cl:
                return w
        return (df.file, df.line, df.name)

    def fail(rule, w, msg):
        c.fail(rule, msg + " (with %s)" % prof, fn=m.funcs.get(w[2]), file=w[0], line=w[1], entry=dres["entry"], key=msg)
    ds = [d for d in Y["exits"] if any(x[0] == "rel" for x in d)]
    owned = {x[1:] for e in X["exits"] for x in e if x[0] == "left"}
    for e in X["exits"]:
        left = {x[1:] for x in e if x[0] == "left"}
        if any("%s=%d" % (x[1], 1 - x[2]) in dres["label"] for x in e if x[0] == "is"):
            continue                # other settings
        full = {x[1] for x in e if x[0] == "set"} - {x[1] for x in e if x[0] == "nul"}
        plain = {x for x in left if x[1][0] in ("field", "global", "record")}
        for kind, cl in plain:
            c.inst("released", "%s: %s in %s (%s)" % (cres["entry"], kind, cellname(m, cl), prof))
        for d in ds:
            none = {x[1] for x in d if x[0] == "none"}
            zero = {x[1] for x in d if x[0] == "zero"}
            if any(cl in none for _, cl in plain) or (none & full) or any(x[0] == "counted" and x[2] in zero for x in e):
                continue            # this destruction saw an object created differently
            rel = {x[1:] for x in d if x[0] == "rel"}
            for kind, cl in plain:
                if (kind, cl) in rel:
                    continue
                other = [k for k, c2 in rel if c2 == cl]
                if other:
                    fail("released", at(None, cl), "the %s that %s leaves in %s is released as a %s" % (kind, cres["entry"], cellname(m, cl), other[0]))
                else:
                    fail("released", (df.file, df.line, df.name), "a path of %s that releases %s does not release the %s that %s leaves in %s"
                         % (dres["entry"], ", ".join(sorted({cellname(m, c2) for _, c2 in rel})[:3]), kind, cres["entry"], cellname(m, cl)))
    # elements
    elts = {x for x in owned if x[1][0] == "elt"}
    drel = {x[1:] for d in ds for x in d if x[0] == "rel"}
    counted = {}
    for e in X["exits"]:
        for x in e:
            if x[0] == "counted":
                counted.setdefault(x[1], set()).add(x[2])
    for kind, cl in elts:
        c.inst("all-elements", "%s: %s in %s (%s)" % (cres["entry"], kind, cellname(m, cl), prof))
        if (kind, cl) not in drel:
            fail("all-elements", (df.file, df.line, df.name), "%s leaves a %s in %s, which %s never releases" % (cres["entry"], kind, cellname(m, cl), dres["entry"]))
            continue
        if cl in Y["short"]:
            k, f, l, fn = Y["short"][cl]
            fail("all-elements", (f, l, fn), "the loop releasing %s stops %d before the last" % (cellname(m, cl), k))
        if any(("late", cl) in d for d in ds):
            fail("all-elements", at(kind, cl), "the first %s is never released" % cellname(m, cl))
        have = counted.get(cl[1:], set())
        for b, f, l, fn in Y["bounds"].get(cl, ()):
            if have and b not in have:
                fail("all-elements", (f, l, fn), "%s is counted by %s, but the loop releasing its elements runs to %s"
                     % (cellname(m, cl[1:]), " or ".join(sorted(cellname(m, h) for h in have)), cellname(m, b)))
    # definedness
    need = {cl for _, cl in drel if cl[0] in ("field", "global")}
    for e in X["exits"]:
        sets = {x[1] for x in e if x[0] == "set"}
        types = {cl[1] for cl in sets if cl[0] == "field"}
        for cl in need:
            if cl[0] == "field" and cl[1] in types and "gmr_slice" not in cl[1]:
                c.inst("defined", "%s: %s (%s)" % (cres["entry"], cellname(m, cl), prof))
                if cl not in sets:
                    msg = "a path of %s does not define %s, which %s releases" % (cres["entry"], cellname(m, cl), dres["entry"])
                    c.fail("defined", msg + " (with %s)" % prof, fn=cf, entry=cres["entry"], key=msg)


def refcount(c, r, init):
    """r: an initialisation or finalisation explored for one value of the number of initialisations outstanding"""
    n = r["count"]
    g = c.m.funcs[c.m.resolve(r["entry"])]

    def bad(msg):
        c.fail("refcount", msg, fn=g, entry=r["entry"])
    outs = [e for e in r["extra"]["res"]["exits"] if not init or ("ret", 0) in e]
    c.need(outs, "%s never returns" % r["entry"])
    for e in outs:
        c.inst("refcount", "%s with %d outstanding" % (r["entry"], n))
        now = [x[1] for x in e if x[0] == "now"] or [n]
        work = any(x[0] in ("left", "rel") for x in e)
        want = n + 1 if init else max(n - 1, 0)
        if now[0] is not None and now[0] != want:
            bad("with %d initialisations outstanding the count becomes %d" % (n, now[0]))
        if init and n and work:
            bad("an initialisation that is not the first sets the library up again")
        if init and not n and not work:
            bad("the first initialisation does not set the library up")
        if not init and n == 0 and work:
            bad("finalising a library that is not initialised has an effect")
        if not init and n > 1 and work:
            bad("the library is torn down while an initialisation is outstanding")
        if not init and n == 1 and not work:
            bad("the last finalisation does not tear the library down")
        if not init and n == 1 and not any(x[0] == "none" and x[1][0] == "global" and "gmr_list" in x[1][1] for x in e):
            bad("the library is torn down although the list of live allocations may not be empty")


def run(c):
    for k, v in RULES.items():
        c.rule(k, v)
    m = c.m
    for n, t in m.globals.items():
        k = re.match(r".*\bglobal (%[-\w.]+) ", t)
        if k and k.group(1) in m.types:
            GTYPE[n] = k.group(1)
    g = p11.graph(m)
    noret = {n for n in g if n.endswith("Assert_fail") or n.endswith("Error")}
    work = {n for n in g if p11.reach(g, n, noret) & (set(ACQ) | set(REL))}
    what = creators(m)
    ents = [x for v in what.values() for x in v[0] + v[1]]
    inner = {e: tuple(sorted(((p11.reach(g, m.resolve(e), noret) & set(g)) - work) - {m.resolve(e)} - noret)) for e in ents}
    ab = [dict(noncollective_groups=a, cache_rank_translation=b) for a in (0, 1) for b in (0, 1)]

    def setup(e):
        if e in what["allocation"][0] + what["allocation"][1]:
            return [pin(use_win_allocate=w, debug_alloc=0) for w in (0, 1)]
        if e == "PARMCI_Finalize":
            return [pin(noncollective_groups=a, cache_rank_translation=b, progress_thread=0, init_count=n) for a in (0, 1) for b in (0, 1) for n in (0, 1, 2)]
        if "Init" in e:
            # a library that was never set up has its initial (zero) settings
            return [pin(init_count=n, **({} if n else dict(noncollective_groups=0, cache_rank_translation=0))) for n in (0, 1, 2)]
        return [pin(**x) for x in ab]
    inner["PARMCI_Finalize"] += tuple(n for n in g if n == "gmr_destroy")
    kw = lambda e: dict(base.KW, opaque=inner[e], **(dict(soft=2, hard=4, limit=6) if "Init" in e else {}))
    res = c.explore(ents, lambda e: [Life()], setup=setup, kw=kw)
    by = {}
    c.reports = []
    for r in res:
        k = re.search(r"init_count=(\d)", r["label"] or "")
        if k:
            r["count"] = int(k.group(1))
            refcount(c, r, r["entry"] in what["library"][0])
        by.setdefault(r["entry"], []).append(r)
    for name, (cs, ds) in what.items():
        for a in cs:
            for x in by[a]:
                for b in ds:
                    for y in by[b]:
                        if x["label"] == y["label"] or x.get("count") == 0 and y.get("count") == 1:
                            judge(c, name, x, y)
    c.floor("released", 20)
    c.floor("all-elements", 3)
    c.floor("defined", 15)
    c.floor("refcount", 5)
    if os.environ.get("VP_DEBUG"):
        for e in by:
            for r in by[e]:
                print("==", e, r["label"], r["t"], r["incomplete"], r["extra"]["res"]["short"])
                ex = {frozenset(y for y in x if y[0] != "set") for x in r["extra"]["res"]["exits"]}
                print("   ", len(ex))
                for x in list(ex)[:12]:
                    print("   ", sorted([y[:1] + tuple(cellname(m, z) if isinstance(z, tuple) else z for z in y[1:]) for y in x], key=str))
