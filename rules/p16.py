"""Threads: the library's own locks are balanced, guard what they guard everywhere, and are not held while waiting for another process."""
OWN_VARIANTS = True
import base
from interp import Monitor, root, subterms
from rma import unold
from p11 import graph, reach, PUBLIC
from profiles import pin

EXPLANATION = ("Lockset and lock-balance analysis of every public call that can reach a lock or change state shared by all threads, with the thread level that "
               "allows concurrent calls, in the default configuration and in that for newer MPI libraries.")
ASSUMPTIONS = ["threads call concurrently only at the thread level that allows it", "initialisation, finalisation and calls that set a default are not made concurrently with others",
               "the lock routines succeed"]
RULES = {
    "balance": "a lock taken in a call is released exactly once on every path on which the call returns, and never taken again while held",
    "guarded": "state that all threads share is changed only while holding a lock, the same one at every place",
    "waiting": "no lock is held while the call waits for a message from, or hands one over to, another process",
    "order": "locks that are held together are taken in the same order everywhere",
}
P2P = {"MPI_Recv", "MPI_Send", "MPI_Ssend", "MPI_Bsend", "MPI_Rsend", "MPI_Sendrecv", "MPI_Probe", "MPI_Mprobe", "MPI_Mrecv", "pthread_join", "nanosleep", "usleep", "sleep", "pthread_cond_wait"}
LOCK, UNLOCK = ("pthread_mutex_lock", "pthread_spin_lock"), ("pthread_mutex_unlock", "pthread_spin_unlock")
MULTIPLE = 3


def fresh(v):
    v = unold(root(v))
    return v if v[0] == "call" and v[1] in ("malloc", "calloc") else None


class Locks(Monitor):
    name = "lk"

    def __init__(self, gs, links):
        self.gs, self.links = gs, links
        self.sites, self.stores, self.edges = {k: set() for k in RULES}, {}, {}

    def collect(self):
        return dict(sites={k: sorted(v) for k, v in self.sites.items()}, stores=sorted(self.stores.items(), key=repr), edges=sorted(self.edges.items(), key=repr))

    def start(self, eng, st, entry):
        st.mon[self.name] = frozenset()

    def held(self, st):
        return [x[1] for x in st.mon[self.name] if x[0] == "h"]

    def call(self, eng, st, ins, fn, args, ctx):
        s = st.mon[self.name]
        at = "%s:%s" % (ins.fn.name, ins.line)
        if fn in LOCK:
            self.sites["balance"].add(at)
            if ("h", args[0]) in s:
                return eng.report("balance", ins, "the lock is taken while it is held", st, ctx, key="twice")
            for h in self.held(st):
                self.edges.setdefault((h, args[0]), (ins.fn.name, ins.line))
            st.mon[self.name] = s | {("h", args[0])}
        elif fn in UNLOCK:
            self.sites["balance"].add(at)
            if ("h", args[0]) not in s:
                return eng.report("balance", ins, "a lock is released that is not held", st, ctx, key="not")
            st.mon[self.name] = s - {("h", args[0])}
        elif fn in P2P:
            self.sites["waiting"].add("%s %s" % (at, fn))
            for h in self.held(st):
                eng.report("waiting", ins, "%s waits for another process while the lock %s is held, so no other thread can do what that process may be waiting for" %
                           (fn, h[-1]), st, ctx, key=str(h))

    def store(self, eng, st, ins, addr, val, ctx):
        r = unold(addr)
        what = None
        if r[0] == "g" and r[1] in self.gs:
            what = r
        elif r[0] == "fld" and r[2] in self.links and r[3] in self.links[r[2]]:
            f = fresh(r)
            if f is None or ("pub", f) in st.mon[self.name]:
                what = ("links", r[2])
        if what is not None:
            self.sites["guarded"].add("%s:%s" % (ins.fn.name, ins.line))
            k = (what, ins.fn.name, ins.line, tuple(eng.chain(ctx)))
            h = frozenset(self.held(st))
            self.stores[k] = tuple(sorted(h & frozenset(self.stores.get(k, h)), key=repr))
            f = fresh(val)
            if f is not None:
                st.mon[self.name] |= {("pub", f)}

    def exit(self, eng, st, fn, ret):
        for h in self.held(st):
            eng.report("balance", None, "the call can return with the lock %s held" % h[-1], st, 0, key="held", fn=fn)


def shared(m):
    """globals that calls other than initialisation and finalisation change"""
    out = set()
    for f in m.funcs.values():
        if "Init" in f.name or "Finalize" in f.name or "Set_" in f.name:
            continue
        regs = {}
        for i in f.instrs():
            if i.op == "gep":
                regs[i.res] = i.ops[0]
            elif i.op == "store":
                p = i.ops[1]
                while p[0] == "r" and p[1] in regs:
                    p = regs[p[1]]
                if p[0] == "g":
                    out.add(p[1])
    return out


def run(c):
    for k, v in RULES.items():
        c.rule(k, v)
    for variant in ("default", "ompi5"):
        c.variant = variant
        m = c.m
        g = graph(m)
        gs = shared(m)
        links = {t: {fs.index(n) for n in ("next", "prev") if n in fs} for t, fs in m.fields.items() if "next" in fs and "slices" in fs}
        noret = {n for n in g if n.endswith("Assert_fail") or n.endswith("Error")}
        seeds = set(LOCK + UNLOCK) | P2P

        def storing(f):
            return any(i.op == "store" and i.ops[1] == ("g", x) for i in f.instrs() for x in gs)
        direct = {n for n in g if g[n] & set(LOCK + UNLOCK) or n in m.funcs and storing(m.funcs[n])}
        work = {n for n in g if reach(g, n, noret) & (direct | set(LOCK + UNLOCK))}
        wide = {n for n in g if reach(g, n, noret) & (direct | seeds)}
        pub = sorted(n for n in work if n.startswith(PUBLIC) and m.funcs[n].linkage != "internal" and "Init" not in n and "Finalize" not in n)
        if variant != "default":
            base_ = set(c.oblig["balance"])
            pub = [e for e in pub if e in ("PARMCI_NbPut", "PARMCI_NbGet", "PARMCI_NbAcc", "PARMCI_Rmw", "PARMCI_Lock", "PARMCI_Malloc", "PARMCI_Free")]
        kw = lambda e: dict(base.KW, fold=True, opaque=tuple(sorted(((reach(g, e, noret) & set(g)) - wide) - {e} - noret)))
        res = c.explore(pub, lambda e: [Locks(gs, links)], kw=kw, setup=lambda e: pin(thread_level=MULTIPLE))
        stores, edges = {}, {}
        for r in res:
            x = r["extra"]["lk"]
            for k, ss in x["sites"].items():
                c.inst(k, *[variant + " " + s for s in ss])
            for k, h in x["stores"]:
                stores.setdefault(k[0], []).append((frozenset(h), k[1], k[2], r["entry"]))
            for k, s in x["edges"]:
                edges[tuple(k)] = s
        for w, ss in stores.items():
            nm = w[-1]
            best = {}
            for h, _, _, _ in ss:
                for l in h:
                    best[l] = best.get(l, 0) + 1
            lk = max(sorted(best), key=lambda l: best[l]) if best else None
            for h, fn, line, e in ss:
                if lk is None or lk not in h:
                    c.fail("guarded", "%s is changed without holding %s" % (nm if w[0] == "g" else "the list of allocations", "any lock" if lk is None else "the lock " + lk[-1]),
                           fn=m.funcs.get(fn), line=line, entry=e, key=str((w, fn)))
        for a, b in edges:
            c.inst("order", str((a, b)))
            if (b, a) in edges:
                c.fail("order", "the locks %s and %s are taken in both orders" % (a[-1], b[-1]), fn=m.funcs.get(edges[(a, b)][0]), line=edges[(a, b)][1], key=str(sorted((a, b))))
    c.variant = "default"
    c.floor("balance", 6)
    c.floor("guarded", 4)
    c.floor("waiting", 2)
