#!/usr/bin/env python3
"""try edits of the sources against checks, each on a scratch copy.
   mutate.py FILE.mut [name...]; a .mut file is python: M = [(name, checks, file, old, new[, count])...]"""
import os, sys, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = set(sys.argv[2:])


def one(mu):
    name, pids, file, old, new = mu[:5]
    t = tempfile.mkdtemp(prefix="mut")
    try:
        r = os.path.join(t, "repo")
        os.makedirs(r)
        for x in ("src", "Makefile.am", "tests", "benchmarks"):
            if os.path.isdir("/repo/" + x):
                shutil.copytree("/repo/" + x, os.path.join(r, x))
            else:
                shutil.copy("/repo/" + x, r)
        p = os.path.join(r, file)
        s = open(p).read()
        if s.count(old) < 1:
            return name + ": OLD TEXT NOT FOUND"
        k = mu[5] if len(mu) > 5 else 1
        i = -1
        for _ in range(k):
            i = s.index(old, i + 1)
        s = s[:i] + new + s[i + len(old):]
        open(p, "w").write(s)
        out = []
        for pid in pids.split():
            e = dict(os.environ, VP_REPO=r, VP_EVIDENCE=t + "/ev")
            q = subprocess.run([sys.executable, "/verif/check.py", pid], capture_output=True, text=True, env=e)
            l = [x for x in q.stdout.splitlines() if x.startswith("  rule")] or q.stdout.splitlines()[-1:]
            out.append("%s=%d %s" % (pid, q.returncode, " | ".join(x.strip()[:170] for x in l[:3])))
        return "%-28s %s" % (name, "\n   ".join(out))
    finally:
        shutil.rmtree(t)


with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
    for r in ex.map(one, [m for m in ns["M"] if not sel or m[0] in sel]):
        print(r, flush=True)
