#!/usr/bin/env python3
"""behaviour-preserving edits: every check has to stay quiet on each set.
   refactor.py FILE.ref [-c P01,P02] [set...]; a .ref file is python: R = {set: [(file, old, new)...]}"""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
ns = {}
exec(open(args.pop(0)).read(), ns)
import json
pids = [c["property"] for c in json.load(open("/verif/MANIFEST.json"))["checks"]] if "checks" in json.load(open("/verif/MANIFEST.json")) else []
if args[:1] == ["-c"]:
    pids = args[1].split(",")
    args = args[2:]
env = dict(os.environ)


def run(name, edits):
    t = tempfile.mkdtemp(prefix="ref")
    try:
        r = os.path.join(t, "repo")
        os.makedirs(r)
        for x in ("src", "Makefile.am", "tests", "benchmarks"):
            if os.path.isdir("/repo/" + x):
                shutil.copytree("/repo/" + x, os.path.join(r, x))
            else:
                shutil.copy("/repo/" + x, r)
        for f, old, new, *k in edits:
            p = os.path.join(r, f)
            s = open(p).read()
            if old not in s:
                return name + ": NOT FOUND " + f + ": " + old[:60]
            i = -1
            for _ in range(k[0] if k else 1):
                i = s.index(old, i + 1)
            s = s[:i] + new + s[i + len(old):]
            open(p, "w").write(s)
        out = []
        for pid in pids:
            q = subprocess.run([sys.executable, "/verif/check.py", pid], capture_output=True, text=True,
                               env=dict(env, VP_REPO=r, VP_EVIDENCE=t + "/ev"))
            if q.returncode:
                l = [x for x in q.stdout.splitlines() if x.startswith("  rule")] or (q.stdout + q.stderr).splitlines()[-2:]
                out.append("%s=%d %s" % (pid, q.returncode, "\n        ".join(x.strip()[:300] for x in l[:4])))
        return "%-20s %s" % (name, "\n   ".join(out) or "quiet (%d)" % len(pids))
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
    for x in ex.map(lambda n: run(n, ns["R"][n]), [n for n in ns["R"] if not args or n in args]):
        print(x, flush=True)
