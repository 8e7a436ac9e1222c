"""Configuration profiles: the product of the enumerated run-time settings an operation's path depends on.
Every setting not named in a profile stays symbolic, so all of its values are covered."""
from ir import AnalysisBroken
from itertools import product

G = ("g", "ARMCII_GLOBAL_STATE")


def gs_field(m, name):
    for t in m.fields:
        if name in m.fields[t] and "iov_batched_limit" in m.fields[t]:
            k = m.fields[t].index(name)
            return ("fld", G, t, k) if k else G
    raise AnalysisBroken("configuration field %s not found" % name)


def pin(**kv):
    def setup(eng, st, args):
        for k, v in kv.items():
            st.mem[gs_field(eng.m, k)] = ("c", v)
    setup.label = ",".join("%s=%s" % x for x in sorted(kv.items()))
    return setup


def enum(m, prefix):
    return {k: v for k, v in m.enums.items() if k.startswith(prefix)}


def combos(m, **kv):
    """kv: field -> list of values"""
    ks = sorted(kv)
    return [pin(**dict(zip(ks, vs))) for vs in product(*[kv[k] for k in ks])]


def nonnull(*idx):
    """extra set-up: pointer arguments that must be valid addresses"""
    def setup(eng, st, args):
        for i in idx:
            st.assume(("b", False, "eq", args[i], 0), False)
    return setup


def both(*fs):
    fs = [f for f in fs if f]

    def setup(eng, st, args):
        for f in fs:
            f(eng, st, args)
    setup.label = ",".join(getattr(f, "label", "") for f in fs if getattr(f, "label", ""))
    return setup
