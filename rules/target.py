"""Where one-sided operations go: region, rank in the region's group, displacement from the target's slice, bounds."""
from interp import Monitor, subterms, cmp_term, add, mul, show
from mpi import RMA, FLUSH
from regions import shape
from rma import okey, unold
from entries import *

WORLD = ("g", "ARMCI_GROUP_WORLD")
VAGUE = ("join", "phi", "wid", "hv", "uninit", "op", "trunc")


def roles():
    """entry -> (argument positions that are remote addresses (None: vector of segments), position of the process)"""
    r = {}
    for nb in ("", "Nb"):
        r.update({nb + "Put": ((1,), 3), nb + "Get": ((0,), 3), nb + "Acc": ((3,), 5), nb + "PutS": ((2,), 6), nb + "GetS": ((0,), 6),
                  nb + "AccS": ((4,), 8), nb + "PutV": (None, 2), nb + "GetV": (None, 2), nb + "AccV": (None, 4)})
        for t in ("Int", "Long", "Float", "Double"):
            r[nb + "PutValue" + t] = ((1,), 2)
    for t in ("Int", "Long", "Float", "Double"):
        r["GetValue" + t] = ((0,), 1)
    r.update({"Put_flag": ((1, 3), 5), "PutS_flag": ((2, 6), 8), "Rmw": ((2,), 4)})
    return {"PARMCI_" + k: v for k, v in r.items()}


ROLES = roles()
ENTRIES = BLOCKING + NB + NBVALUE


def group_shape(m):
    for t in m.fields:
        if "grp_to_abs" in m.fields[t] and "abs_to_grp" in m.fields[t]:
            f = m.fields[t]
            return {n: f.index(n) for n in f}
    return None


class Target(Monitor):
    name = "tgt"

    def __init__(self, remote, proc, bounds=True):
        self.remote, self.proc, self.bounds = remote, proc, bounds
        self.sites = {"rank": set(), "flush": set(), "place": set(), "bounds": set(), "window": set()}
        self.translators = set()

    def start(self, eng, st, entry):
        self.eng, self.sh, self.gs = eng, shape(eng), group_shape(eng.m)
        self.a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        self.p = self.a[self.proc]
        st.mon[self.name] = frozenset()

    def collect(self):
        return dict({k: sorted(v) for k, v in self.sites.items()}, translators=sorted(self.translators))

    # ---- ranks
    def gfield(self, v, name):
        """v = the value of field `name` of some group: the group's address"""
        v = unold(v)
        if v[0] in ("ld", "hv", "wid") and v[1][0] == "fld" and self.gs and v[1][3] == self.gs[name]:
            return v[1][1]
        return None

    def rank_ok(self, st, R, group, proc):
        """True / False / None (cannot tell)"""
        R = unold(R)
        if R[:2] == ("pure", "xlate"):
            return R[3] == proc and (comm_owner(self.gs, R[2]), comm_owner(self.gs, R[4])) == (WORLD, group)
        if R[0] == "pure":
            self.translators.add(R[1])
            if group in R[2:] and proc in R[2:]:
                return True
            gs = [x for x in R[2:] if x[0] == "fld" and x[2] in self.sh.types]
            return False if gs or (self.p in R[2:] and proc != self.p) or proc not in R[2:] else None
        if R == proc:
            for L, _ in list(st.facts.items()):
                gf = [comm_owner(self.gs, x) for x in subterms(L) if x[0] == "ld"]
                if group in gf and any(g == WORLD for g in gf):
                    f = st.bounds(L)
                    if f and f[0] == 0 and f[1] == 0:
                        return True
            return False
        if R[0] == "ld" and R[1][0] == "idx":
            g = self.gfield(R[1][1], "abs_to_grp")
            if g is not None:
                return g == group and R[1][2] == proc
            return None if any(x[0] in VAGUE for x in subterms(R)) else False
        if any(x[0] in VAGUE for x in subterms(R)):
            return None
        return False

    def window_region(self, W):
        return self.sh.loaded(unold(W), "window")

    def check_rank(self, eng, st, ins, fn, R, reg, ctx, kind):
        group = None
        for t in self.sh.types:
            group = ("fld", reg, t, self.sh.idx["group"])
            ok = self.rank_ok(st, R, group, self.p)
            if ok:
                break
        self.sites[kind].add("%s:%s %s" % (ins.fn.name, ins.line, fn))
        if ok is False:
            eng.report("wrong-rank", ins, "%s names rank %s, which is not the caller's process translated into the group of the allocation whose "
                       "window is used" % (fn, show(R, eng.m)), st, ctx, key="rank")

    def is_remote(self, v):
        v = unold(v)
        if self.remote is not None and any(v == self.a[i] for i in self.remote):
            return True
        if v[0] in ("ld", "hv", "wid", "uninit", "join", "phi"):
            return True         # an element of a list of segments
        return False

    def call(self, eng, st, ins, fn, args, ctx):
        if fn in FLUSH:
            local, rp, wp = FLUSH[fn]
            reg = self.window_region(args[wp])
            if rp is not None and reg is not None:
                self.check_rank(eng, st, ins, fn, args[rp], reg, ctx, "flush")
            return
        if fn not in RMA:
            return
        d = RMA[fn]
        W, R, D = args[d["win"]], args[d["rank"]], args[d["disp"]]
        reg = self.window_region(W)
        if reg is None:
            return
        self.check_rank(eng, st, ins, fn, R, reg, ctx, "rank")
        self.place(eng, st, ins, fn, args, d, reg, unold(D), ctx)
        if self.bounds:
            self.check_bounds(eng, st, ins, fn, args, d, reg, D, R, W, ctx)

    # ---- displacement
    def slice_load(self, a):
        """a is the base field of slices[i] of a region: (region, i)"""
        a = unold(a)
        if a[0] in ("ld", "hv") and a[1][0] == "fld":
            e = a[1][1]
            fs = self.eng.m.fields.get(a[1][2], [])
            if e[0] == "idx" and "base" in fs and fs.index("base") == a[1][3]:
                r = self.sh.loaded(unold(e[1]), "slices")
                if r is not None:
                    return r, e[2]
        return None

    def place(self, eng, st, ins, fn, args, d, reg, D, ctx):
        site = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        self.sites["place"].add(site)

        def rep(msg, key):
            eng.report("wrong-place", ins, msg, st, ctx, key=key)
        T = args[d["tt"]]
        if D == ("c", 0):
            if T[0] != "g":
                return      # displacements are in the datatype
            for L, f in st.facts.items():
                if f[0] == 0 and f[1] == 0:
                    if self.is_remote(L) and L[0] in ("arg", "ld", "hv", "wid", "uninit", "join", "phi"):
                        return
                    if L[0] == "lin" and self.remote is not None and any(k == 1 and x in [self.a[i] for i in self.remote] for x, k in L[2]):
                        return
            return rep("%s always writes or reads at the start of the window" % fn, "zero")
        parts = D[2] if D[0] == "lin" else ((D, 1),)
        const = D[1] if D[0] == "lin" else 0
        neg = [x for x, k in parts if k == -1 and self.slice_load(x)]
        if len(neg) != 1:
            if any(x[0] in VAGUE for a, k in parts for x in subterms(a)):
                return
            return rep("the displacement %s is not relative to the base of the target's slice" % show(D, eng.m), "base")
        r, i = self.slice_load(neg[0])
        if unold(r) != unold(reg):
            rep("the displacement is relative to a slice of a different allocation than the window's", "region")
        if unold(i) != self.p:
            rep("the displacement is relative to the slice of process %s, not the caller's target" % show(i, eng.m), "slice")
        rest = [(x, k) for x, k in parts if x is not neg[0]]
        if not any(k == 1 and self.is_remote(x) for x, k in rest):
            if any(x[0] in VAGUE for a, k in rest for x in subterms(a)):
                return
            return rep("the displacement %s is not computed from the caller's remote address" % show(D, eng.m), "addr")
        if len(rest) == 1 and const != 0:
            rep("the displacement is the caller's address plus %d" % const, "const")

    # ---- bounds
    def check_bounds(self, eng, st, ins, fn, args, d, reg, D, R, W, ctx):
        site = "%s:%s %s" % (ins.fn.name, ins.line, fn)
        self.sites["window"].add(site)

        def rep(rule, msg, key):
            eng.report(rule, ins, msg, st, ctx, key=key)
        b = st.bounds(R) if R[0] != "c" else (R[1], R[1])
        if not (b and b[0] is not None and b[0] >= 0) and not any(x[0] in ("join", "phi") for x in subterms(R)):
            if st.decide(cmp_term("sge", R, ("c", 0))) is not True:
                rep("no-member-check", "%s is issued although the target may not be a member of the allocation's group" % fn, "rank")
        T = args[d["tt"]]
        cnt = args[d["tc"]] if "tc" in d else ("c", 1)
        predefined = T[0] == "g"
        slices = [("fld", reg, t, self.sh.idx["slices"]) for t in self.sh.types]
        size = None
        for t, fs in eng.m.fields.items():
            if "base" in fs and "size" in fs and t in eng.m.types:
                for s in slices:
                    esz = eng.m.sizeof(t)
                    size = ("ld", ("fld", ("idx", ("ld", s), self.p, esz), t, fs.index("size")))
                    if any(size in subterms(L) for L in st.facts):
                        break
                else:
                    continue
                break
        self.sites["bounds"].add(site)
        if D == ("c", 0) and not predefined and "indexed" in repr(T[:2]):
            return          # displacements are in the datatype: see the per-segment checks
        if D != ("c", 0) and st.decide(cmp_term("sge", D, ("c", 0))) is not True:
            rep("below-slice", "%s is issued although its displacement may be negative" % fn, "low")
        exts = []
        for L in list(st.facts) + [T]:
            for x in subterms(L):
                if x[0] == "pure" and x[2:] == (T,) and ("true_extent.2" in x[1] or (predefined and ("extent.2" in x[1] or "Type_size" in x[1]))):
                    exts.append(x)
        PRE = {"ompi_mpi_byte": 1, "ompi_mpi_char": 1, "ompi_mpi_int": 4, "ompi_mpi_float": 4, "ompi_mpi_long": 8, "ompi_mpi_double": 8}
        if predefined and T[1] in PRE:
            exts.append(("c", PRE[T[1]]))
        for x in dict.fromkeys(exts):
            end = add(D, mul(cnt, x))
            if st.decide(cmp_term("sle", end, size)) is True:
                return
        rep("past-slice", "%s is issued without its last byte being known to lie within the target's slice" % fn, "high")


def comm_owner(gs, v):
    """v is the communicator of a group: the group's address"""
    v = unold(v)
    if v[0] not in ("ld", "hv"):
        return None
    a = v[1]
    if a == WORLD:
        return WORLD
    return a[1] if a[0] == "fld" and a[3] == gs["comm"] else None


class Translator(Monitor):
    """a function (group, absolute rank) returns that process's rank in the group, or the reverse"""
    name = "tr"

    def __init__(self, table, reverse=False):
        self.table, self.reverse = table, reverse
        self.n = 0

    def start(self, eng, st, entry):
        self.gs = group_shape(eng.m)
        g = [i for i, p in enumerate(entry.params) if p[0] == "ptr"]
        r = [i for i, p in enumerate(entry.params) if p[0] != "ptr"]
        self.g = ("arg", g[0], entry.params[g[0]][1])
        self.r = ("arg", r[0], entry.params[r[0]][1])
        st.mon[self.name] = frozenset()

    def collect(self):
        return self.n

    def comm(self, v):
        return comm_owner(self.gs, v)

    def call(self, eng, st, ins, fn, args, ctx):
        pass

    def exit(self, eng, st, fn, ret):
        self.n += 1
        v = unold(ret) if ret is not None else ("c", 0)
        if v == ("c", -1):
            return
        if v[:2] == ("pure", "xlate") and v[3] == self.r and (self.comm(v[2]), self.comm(v[4])) == (
                (self.g, WORLD) if self.reverse else (WORLD, self.g)):
            return
        if v == self.r:
            for L in list(st.facts):
                gf = [self.comm(x) for x in subterms(L) if x[0] == "ld"]
                if self.g in gf and WORLD in gf:
                    f = st.bounds(L)
                    if f and f[0] == 0 and f[1] == 0:
                        return
        if v[0] == "ld" and v[1][0] == "idx" and v[1][2] == self.r:
            t = v[1][1]
            if t[0] == "ld" and t[1][0] == "fld" and t[1][1] == self.g and t[1][3] == self.gs[self.table]:
                return
        if any(x[0] in ("join", "phi", "wid", "hv") for x in subterms(v)):
            return
        eng.report("translation", None, "may return %s, which is not the process's rank in the other group" % show(v, eng.m), st, 0, key="ret", fn=fn)


class Tables(Monitor):
    """the cached translation tables are filled by translating 0,1,2,... between the world group and the group"""
    name = "tab"

    def __init__(self):
        self.n = set()
        self.used, self.ident, self.bad = [], set(), set()

    def start(self, eng, st, entry):
        self.gs = group_shape(eng.m)
        self.g = ("arg", 0, entry.params[0][1])
        st.mon[self.name] = frozenset()

    def collect(self):
        return sorted(self.n)

    def comm(self, v):
        return comm_owner(self.gs, v)

    def field(self, st, name):
        t = [x for x in self.eng.m.fields if "grp_to_abs" in self.eng.m.fields[x]]
        return [self.eng.rd(st, ("fld", self.g, x, self.gs[name])) for x in t]

    def call(self, eng, st, ins, fn, args, ctx):
        self.eng = eng
        if fn != "MPI_Group_translate_ranks":
            return
        a, b = [self.comm(st.mem.get(("gc", args[k]), args[k])) for k in (0, 3)]
        dst = args[4]
        for name, want in (("abs_to_grp", (WORLD, self.g)), ("grp_to_abs", (self.g, WORLD))):
            if dst in self.field(st, name):
                self.n.add("%s:%s %s" % (ins.fn.name, ins.line, name))
                if (a, b) != want:
                    eng.report("translation", ins, "the table %s is filled by translating in the wrong direction" % name, st, ctx, key=name)
                self.used.append((name, args[2], ins, st.path(), eng.chain(ctx)))
                n = unold(args[1])
                ok = (n[0] in ("ld", "hv") and n[1][0] == "fld" and n[1][1] == want[0] and n[1][3] == self.gs["size"]) or \
                    (n[0] == "pure" and "size" in n[1] and self.comm(n[2]) == want[0])
                if not ok and not any(x[0] in VAGUE for x in subterms(n)):
                    eng.report("translation", ins, "the table %s gets %s entries, not one per process" % (name, show(n, eng.m)), st, ctx, key=name + "n")

    def store(self, eng, st, ins, addr, val, ctx):
        if addr[0] == "idx":
            (self.ident if unold(val) == unold(addr[2]) else self.bad).add(unold(addr[1]))

    def finish(self, eng):
        for name, b, ins, path, chain in self.used:
            if unold(b) not in self.ident or unold(b) in self.bad:
                eng.report("translation", ins, "the table %s is not filled from the ranks 0, 1, 2, ..." % name, key=name + "i")
