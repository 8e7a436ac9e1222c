#!/usr/bin/env python3
"""build, confirm and store planted bugs.  mkseed.py DEFS.py [id...]
   DEFS.py: S = [dict(id=, prop=, edits=[(file, old, new[, occurrence])...], demo=C text, np=2, env={}, lazy=bool, needs=, breaks=)]
   Confirms that the demo passes on the tree as it is and fails with the change, and says what the property's check reports."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
sel = set(sys.argv[2:])
SH = r'''#!/bin/bash
# exit 0 when the library behaves as the property says
D=$(cd "$(dirname "$0")" && pwd)
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_pml=ob1 OMPI_MCA_btl=self,vader OMPI_MCA_plm=isolated
export OMPI_MCA_plm_rsh_agent= OMPI_MCA_osc=sm,pt2pt OMPI_MCA_mpi_yield_when_idle=1 HWLOC_COMPONENTS=no_os
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export TMPDIR=$T OMPI_MCA_btl_vader_backing_directory=$T OMPI_MCA_osc_sm_backing_directory=$T OMPI_MCA_osc_rdma_backing_directory=$T
mpicc.openmpi -g -O0 -w -I"$PWD/src" -I"$PWD/_build" -I"$PWD/_build/src" -o "$T/p" "$D/demo.c" "$PWD/_build/.libs/libarmci.a" -lpthread -lm || exit 99
%stimeout %d mpirun.openmpi --oversubscribe --bind-to none -n %d "$T/p"
'''


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def build():
    r = sh("bash", "/opt/vp/build.sh")
    return r.returncode == 0, (r.stdout + r.stderr)[-1500:]


def demo(d):
    r = sh("bash", d + "/demo.sh", cwd="/repo")
    return r.returncode, (r.stdout + r.stderr).strip().splitlines()


assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "repo not clean"
for s in ns["S"]:
    if sel and s["id"] not in sel:
        continue
    d = "%s/seeded/%s" % (V, s["id"])
    os.makedirs(d, exist_ok=True)
    lib = open(V + "/tools/seedlib/head.h").read()
    pre = open(V + "/tools/seedlib/lazy.h").read() if s.get("lazy") else "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <mpi.h>\n"
    open(d + "/demo.c", "w").write(pre + lib + s["demo"].lstrip("\n"))
    env = "".join("export %s=%s\n" % x for x in sorted(s.get("env", {}).items()))
    open(d + "/demo.sh", "w").write(SH % (env, s.get("timeout", 60), s.get("np", 2)))
    json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
    out = []
    try:
        b, _ = build()
        r0, o0 = demo(d)
        for e in s["edits"]:
            p = "/repo/" + e[0]
            t = open(p).read()
            i = -1
            for _ in range(e[3] if len(e) > 3 else 1):
                i = t.find(e[1], i + 1)
                assert i >= 0, "%s: text not found: %s" % (s["id"], e[1][:60])
            open(p, "w").write(t[:i] + e[2] + t[i + len(e[1]):])
        open(d + "/patch.diff", "w").write(sh("git", "-C", "/repo", "diff").stdout)
        b, bo = build()
        if not b:
            out.append("BUILD FAILS " + bo)
        r1, o1 = demo(d)
        for c in [s["prop"]] + s.get("also", []):
            k = sh("python3", V + "/check.py", c, env=dict(os.environ, VP_EVIDENCE="/tmp/seedev"))
            l = [x.strip()[:200] for x in k.stdout.splitlines() if x.startswith("  rule")][:2] or k.stdout.splitlines()[-1:]
            out.append("%s exit %d: %s" % (c, k.returncode, " | ".join(l)))
        ok = r0 == 0 and r1 != 0
        print("%-26s demo %d/%d %s %s\n     %s" % (s["id"], r0, r1, "GOOD" if ok else "BAD " + " | ".join(o0[-3:]), (o1 or [""])[0][:150], "\n     ".join(out)), flush=True)
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
        build()
