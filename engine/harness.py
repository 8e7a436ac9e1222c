"""Common driver of the checks: build the program, run the rules, write evidence, report."""
import json, os, sys, time, traceback, multiprocessing
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import ir, interp
from ir import AnalysisBroken

VERIF = os.path.dirname(HERE)
_G = {}


def _one(job):
    idx, = job
    entry, factory, setup, kw, args = _G["jobs"][idx]
    t = time.time()
    mons = factory(entry)
    eng = interp.Engine(_G["m"], mons, **kw)
    incomplete = None
    try:
        outs = eng.run_entry(entry, args=args, setup=setup)
    except interp.Budget as e:
        outs, incomplete = [], str(e)
    extra = {}
    for mo in mons:
        if hasattr(mo, "finish"):
            mo.finish(eng)
        c = getattr(mo, "collect", None)
        if c:
            extra[mo.name] = c()
    reps = []
    for k, r in eng.reports.items():
        r = dict(r)
        r.setdefault("key", str(k[2]))
        reps.append(r)
    return dict(entry=entry, reports=reps, incomplete=incomplete, label=getattr(setup, "label", ""),
                extra=extra, steps=eng.steps, exits=len(outs), funcs=sorted(eng.stats["funcs"]), calls=eng.stats["calls"],
                ext={k: len(v) for k, v in eng.stats["extcalls"].items()}, t=time.time() - t)


class Ctx:
    def __init__(self, pid, tier):
        self.pid, self.tier = pid, tier
        self.mods = {}
        self.reports = []           # dict(rule, file, line, function, entry, msg, chain, path, key)
        self.cov = {"entries": set(), "functions": set(), "states": 0, "exits": 0, "call_sites": 0}
        self.oblig = {}             # rule -> set of instances
        self.rules = {}             # rule -> text
        self.variant = "default"
        self.floors = []
        self.incomplete = []
        self.lap = {}

    def module(self, variant="default"):
        if variant not in self.mods:
            self.mods[variant] = ir.build_ir(variant)
        return self.mods[variant]

    @property
    def m(self):
        return self.module(self.variant)

    def rule(self, rid, text):
        self.rules[rid] = text
        self.oblig.setdefault(rid, set())

    def inst(self, rid, *xs):
        """count rule instances"""
        s = self.oblig.setdefault(rid, set())
        for x in xs:
            s.add(x)

    def floor(self, rid, n):
        """the rule must have at least n instances, else the analysis itself is broken"""
        self.floors.append((rid, n))

    def need(self, cond, what):
        if not cond:
            raise AnalysisBroken(what)

    def fail(self, rule, msg, ins=None, fn=None, file=None, line=None, entry=None, key=None, path=(), chain=()):
        f = fn or (ins.fn if ins is not None else None)
        self.reports.append(dict(rule=rule, file=file or (f.file if f else None),
                                 line=line if line is not None else (ins.line if ins is not None else (f.line if f else None)),
                                 function=f.name if f else None, entry=entry, msg=msg, path=list(path), chain=list(chain),
                                 key=key if key is not None else msg, variant=self.variant))

    def explore(self, entries, factory, setup=None, kw=None, args=None, variants=None):
        """abstract interpretation of each entry; factory(entry) -> monitors"""
        allr = []
        for v in variants or [self.variant]:
            m = self.module(v)
            jobs = []
            for e in entries:
                if m.resolve(e) not in m.funcs:
                    raise AnalysisBroken("public entry point %s is not defined" % e)
                k = dict(kw(e) if callable(kw) else (kw or {}))
                sl = setup(e) if setup else None
                for one in (sl if isinstance(sl, list) else [sl]):
                    jobs.append((e, factory, one, k, (args(e) if args else None)))
            _G["m"], _G["jobs"] = m, jobs
            # longest first
            order = sorted(range(len(jobs)), key=lambda i: -WEIGHT.get(jobs[i][0].replace("PARMCI_", ""), 1))
            if len(jobs) == 1:
                res = [_one((0,))]
            else:
                mp = multiprocessing.get_context("fork")
                with ProcessPoolExecutor(8, mp_context=mp) as ex:
                    res = list(ex.map(_one, [(i,) for i in order], chunksize=1))
            for r in res:
                r["variant"] = v
                for x in r["reports"]:
                    x = dict(x)
                    x.setdefault("key", x["msg"])
                    x["variant"] = v
                    self.reports.append(x)
                if r["incomplete"]:
                    self.incomplete.append("%s [%s]: %s" % (r["entry"], r["label"], r["incomplete"]))
                self.cov["entries"].add(r["entry"])
                self.cov["functions"] |= set(r["funcs"])
                self.cov["states"] += r["steps"]
                self.cov["exits"] += r["exits"]
                self.cov["call_sites"] += r["calls"]
            allr.extend(res)
        return allr


WEIGHT = {"AccS": 9, "NbAccS": 9, "PutS": 8, "GetS": 8, "NbPutS": 8, "NbGetS": 8, "PutS_flag": 9, "PutS_flag_dir": 9,
          "Init": 6, "Init_args": 7, "Init_thread": 6, "Init_thread_comm": 6, "AccV": 5, "NbAccV": 5, "PutV": 5, "GetV": 5}


def dedup(reports):
    seen, out = set(), []
    for r in sorted(reports, key=lambda r: (r["rule"], r["file"] or "", r["line"] or 0, len(r["path"]))):
        k = (r["rule"], r["function"], str(r["key"]))
        if k in seen:
            continue
        seen.add(k)
        out.append(r)
    return out


def known_entries():
    p = os.path.join(VERIF, "known_findings.json")
    try:
        return json.load(open(p))["findings"]
    except FileNotFoundError:
        return []


def match_known(r, pid, known):
    for k in known:
        if k.get("status") == "fixed" or k["property"] != pid:
            continue
        mt = k["match"]
        if all(str(mt[x]) in str(r.get(x)) if x == "msg" else str(r.get(x)) == str(mt[x]) for x in mt):
            return k
    return None


def main(pid, mod, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        mod.run(ctx)
        if tier == "thorough" and not getattr(mod, "OWN_VARIANTS", False):
            one = time.time() - t0
            for v in ("ompi5", "noweak"):
                if time.time() - t0 + 2 * one < 700:
                    ctx.variant = v
                    mod.run(ctx)
                    ctx.variant = "default"
        reports = dedup(ctx.reports)
        if not reports and not ctx.incomplete:
            for rid, n in ctx.floors:
                if len(ctx.oblig.get(rid, ())) < n:
                    raise AnalysisBroken("rule %s: only %d instances (at least %d expected)" % (rid, len(ctx.oblig.get(rid, ())), n))
    except AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s internal error" % pid)
        return 2
    known = known_entries()
    newr, kn = [], []
    for r in reports:
        k = match_known(r, pid, known)
        if k:
            kn.append((k, r))
        else:
            newr.append(r)
    ev = os.environ.get("VP_EVIDENCE") or os.path.join(VERIF, "evidence")
    os.makedirs(os.path.join(ev, "replay"), exist_ok=True)
    for k in {id(k): k for k, _ in kn}.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for n, r in enumerate(newr):
        p = os.path.join(ev, "replay", "%s-%d.json" % (pid, n))
        with open(p, "w") as f:
            json.dump(dict(property=pid, rule_text=ctx.rules.get(r["rule"], ""), **{k: (v if isinstance(v, (str, int, list, type(None))) else str(v)) for k, v in r.items()}), f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, p))
        print("  rule %s at %s:%s in %s (entry %s%s): %s" % (r["rule"], r["file"], r["line"], r["function"], r["entry"],
              "" if r.get("variant", "default") == "default" else ", variant " + r["variant"], r["msg"]))
        if r["chain"]:
            print("    via " + " > ".join(r["chain"]))
        for s in r["path"][-12:]:
            print("    path " + s)
    nob = sum(len(v) for v in ctx.oblig.values())
    bad = len(newr)
    doc = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "0") or 0), level="other",
               coverage=dict(
                   explanation=getattr(mod, "EXPLANATION", "static analysis of the linked program"),
                   units=len(next(iter(ctx.mods.values())).units) if ctx.mods else 0,
                   variants=sorted(ctx.mods), entry_points=sorted(ctx.cov["entries"]),
                   functions_analysed=len(ctx.cov["functions"]), abstract_states=ctx.cov["states"],
                   abstract_exits=ctx.cov["exits"], call_sites_evaluated=ctx.cov["call_sites"],
                   incomplete=ctx.incomplete,
                   rules={k: dict(text=v, instances=len(ctx.oblig.get(k, ())),
                                  sample=[str(x) for x in sorted(map(str, ctx.oblig.get(k, ())))[:6]]) for k, v in ctx.rules.items()},
                   obligations=nob, obligations_violated=bad, known_findings=len(kn)),
               assumptions=getattr(mod, "ASSUMPTIONS", []), wall_s=round(time.time() - t0, 2), violations=bad)
    with open(os.path.join(ev, pid + ".json"), "w") as f:
        json.dump(doc, f, indent=1)
    if newr:
        return 1
    for x in ctx.incomplete:
        print("INCOMPLETE " + x)
    print("OK property=%s: %d rules, %d instances, %d functions, %d states, %.1fs" %
          (pid, len(ctx.rules), nob, len(ctx.cov["functions"]), ctx.cov["states"], time.time() - t0))
    return 0
