"""The public names are interposable: each forwards to its implementation, and the library itself never goes through them."""
OWN_VARIANTS = True
import base
from interp import Monitor

EXPLANATION = ("Structural analysis of the linked program with weak aliases and of the program built for tool chains without them: the target of every public "
               "name, the forwarding wrappers (path-sensitively: one call, the caller's arguments in order, the result returned), and every call site of the "
               "library for calls that go through a public, replaceable name.")
ASSUMPTIONS = ["the dynamic linker lets a profiling library replace a weak or global symbol"]


def pname(x):
    """implementation name -> public name"""
    return x[1:] if x.startswith(("PARMCI_", "parmci_")) else None


class Forward(Monitor):
    name = "fwd"

    def __init__(self, impl):
        self.impl = impl
        self.n = 0

    def collect(self):
        return self.n

    def start(self, eng, st, entry):
        self.a = [("arg", i, p[1]) for i, p in enumerate(entry.params)]
        self.fn = entry
        st.mon[self.name] = ()

    def call(self, eng, st, ins, fn, args, ctx):
        if fn != self.impl:
            return eng.report("forwards", ins, "%s calls %s" % (self.fn.name, fn), st, ctx, key=fn) if fn and not fn.startswith("llvm.") else None
        self.n += 1
        if list(args) != self.a:
            eng.report("forwards", ins, "%s does not hand its arguments to %s in order" % (self.fn.name, fn), st, ctx, key="args")
        st.mon[self.name] = st.mon[self.name] + (("call", fn, eng.ins_uid(ins), ctx),)

    def exit(self, eng, st, fn, ret):
        c = st.mon[self.name]
        if len(c) != 1:
            eng.report("forwards", None, "%s calls %s %s" % (fn.name, self.impl, "not at all" if not c else "%d times" % len(c)), st, 0, key="n%d" % len(c), fn=fn)
        elif ret != c[0] and any(i.op == "ret" and i.ops for i in fn.instrs()):
            eng.report("forwards", None, "%s does not return the result of %s" % (fn.name, self.impl), st, 0, key="ret", fn=fn)


def run(c):
    c.rule("forwards", "every public name is the implementation under another name, or one call of it with the same arguments and result")
    c.rule("no-detour", "the library never calls its own functions through a replaceable public name")
    m = c.module("default")
    impls = sorted(f for f in m.funcs if pname(f) and m.funcs[f].linkage != "internal")
    c.need(len(impls) > 30, "only %d profiling entry points" % len(impls))
    for f in impls:
        p = pname(f)
        t = m.aliases.get(p)
        c.inst("forwards", p)
        if p in m.funcs:
            for r in c.explore([p], lambda e: [Forward(f)], kw=dict(opaque=(f,), fold=False)):
                pass
        elif t != f:
            c.fail("forwards", "%s is %s" % (p, "not defined" if t is None else "another name of %s instead of %s" % (t, f)), fn=m.funcs[f], key=p)
    n = c.module("noweak")
    c.variant = "noweak"
    have = []
    for f in sorted(x for x in n.funcs if pname(x) and n.funcs[x].linkage != "internal"):
        p = pname(f)
        c.inst("forwards", "without weak symbols " + p)
        if p not in n.funcs:
            c.fail("forwards", "%s is not defined where there are no weak symbols" % p, fn=n.funcs[f], key=p)
        elif len(n.funcs[p].params) != len(n.funcs[f].params):
            c.fail("forwards", "%s and %s take different arguments" % (p, f), fn=n.funcs[p], key=p)
        else:
            have.append(p)
    impl = {pname(f): f for f in n.funcs if pname(f)}
    for r in c.explore(have, lambda e: [Forward(impl[e])], kw=dict(opaque=tuple(impl.values()), fold=False)):
        pass
    pub = {pname(f) for f in list(m.funcs) + list(n.funcs) if pname(f)} | set(m.aliases)
    for v, mod in (("default", m), ("noweak", n)):
        for f in mod.funcs.values():
            for i in f.instrs():
                if i.op != "call" or i.extra[0][0] != "g":
                    continue
                t = i.extra[0][1]
                if t in impl.values() or t in pub:
                    c.inst("no-detour", "%s %s:%s %s" % (v, f.name, i.line, t))
                if t in pub and f.name not in ("main",):
                    c.fail("no-detour", "%s calls %s, so a tool that replaces it sees a call the application did not make" % (f.name, t), ins=i, key=t)
    c.floor("forwards", 100)
    c.floor("no-detour", 20)
