#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]   run one property's static check against /repo's sources"""
import os, sys, importlib
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(H, "engine"), os.path.join(H, "rules")]
import harness
if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "--setup":
        # nothing to build: every check compiles /repo's current sources to IR itself; make sure that works
        import ir
        m = ir.build_ir("default")
        print("setup ok: %d functions" % len(m.funcs))
        sys.exit(0)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    sys.exit(harness.main(pid, importlib.import_module(pid.lower()), tier))
