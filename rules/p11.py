"""Temporary resources: what a call obtains it releases or hands over."""
import os
import base
from owned import Res, ACQ, REL
from entries import BLOCKING, NBVALUE, NB
from profiles import pin

EXPLANATION = ("Linear-ownership analysis of every public entry point from which a heap block, MPI memory, a datatype, a process group, a communicator, an "
               "info object or an operation can be obtained: on every path each one is released exactly once with its own routine or stored where it "
               "outlives the call; it is not used afterwards; datatypes are committed before use.")
ASSUMPTIONS = ["asserts that fail do not return", "elements of arrays are judged by the first one; the rest are handled by the same loop body",
               "releases of values that existed before the call are not judged here"]
RULES = {
    "leak": "what a call obtains is released, or stored where it outlives the call, on every path on which the call returns",
    "double-release": "nothing is released twice, or without having been obtained",
    "wrong-release": "each object is released with the routine of its own kind",
    "use-after-release": "nothing is read, written or passed on after it was released",
    "type-committed": "a derived datatype is committed before it is used in communication",
}
PUBLIC = ("PARMCI_", "ARMCI_", "ARMCIX_", "armci_", "parmci_")


def graph(m):
    return {f.name: {m.resolve(i.extra[0][1]) for i in f.instrs() if i.op == "call" and i.extra[0][0] == "g"} for f in m.funcs.values()}


def reach(g, n, stop=()):
    seen, st = set(), [n]
    while st:
        x = st.pop()
        if x in seen or x in stop:
            continue
        seen.add(x)
        st += list(g.get(x, ()))
    return seen


def run(c):
    for k, v in RULES.items():
        c.rule(k, v)
    m = c.m
    g = graph(m)
    noret = {n for n in g if n.endswith("Assert_fail") or n.endswith("Error")}
    one = set(BLOCKING + NBVALUE + NB)
    rest = sorted(n for n in g if n.startswith(PUBLIC) and n not in one and m.funcs[n].linkage != "internal" and reach(g, n, noret) & (set(ACQ) | set(REL)))
    mk = lambda e: [Res()]
    pub = one | set(rest)
    sink = base.request_sink(m)
    work = {n for n in g if reach(g, n, noret) & (set(ACQ) | set(REL))}
    # public calls keep their own promise; what obtains and releases nothing is not entered
    inner = {e: tuple(sorted(((reach(g, e, noret) & set(g)) - (work - pub)) - {e} - noret)) for e in pub}
    res = c.explore(BLOCKING + NBVALUE + NB, mk, setup=base.profiles(m), kw=lambda e: dict(base.KW, opaque=tuple(sink) + inner[e]))
    res += c.explore(rest, mk, kw=lambda e: dict(base.KW, opaque=inner[e], **(dict(soft=2, hard=4, limit=6) if "Init" in e else {})))
    seen = {f for r in res for f in r["funcs"]}
    left = sorted(n for n in g if n not in seen and g[n] & (set(ACQ) | set(REL)) and n not in noret and n not in {"ctree_insert", "ctree_destroy"})
    res += c.explore(left, mk, kw=dict(base.KW, fold=False, summarize=False))
    c.reports = [r for r in c.reports if r["rule"] in RULES]
    for r in res:
        x = r["extra"]["res"]
        for s in x.get("acquired", ()):
            c.inst("leak", r["entry"] + " " + s)
        for s in x.get("released", ()):
            for k in ("double-release", "wrong-release", "use-after-release"):
                c.inst(k, r["entry"] + " " + s)
        for s in x.get("type-committed", ()):
            c.inst("type-committed", r["entry"] + " " + s)
    if os.environ.get("VP_DEBUG"):
        for r in sorted(res, key=lambda r: -r["t"])[:12]:
            print(r["entry"], r["label"], r["t"], r["steps"], r["incomplete"])
    c.floor("leak", 60)
    c.floor("double-release", 60)
    c.floor("type-committed", 8)
