#!/usr/bin/env python3
"""check.py <property>: decide one property for the code in /repo.  Exit 0 held, 1 violated, 2 no answer."""
import os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
if os.environ.get("PYTHONHASHSEED") != "0":      # the same seed, the same cases
    os.environ["PYTHONHASHSEED"] = "0"; os.execv(sys.executable, [sys.executable] + sys.argv)
import core

def main():
    pid = sys.argv[1]
    try:
        if pid == "setup":      # nothing but the dependencies and the harness itself
            core.build("setup", {"main.rs": "fn main() { harness::serve(|_| String::new()) }"}); return 0
        if pid <= "C12": import pegchecks as m; rep = m.run(pid)
        else: import importlib; rep = importlib.import_module("chk_" + pid.lower()).run(pid)
        return rep.finish()
    except core.ToolError as e:
        print(f"error in the check of {pid}: {e}", flush=True); return 2
    except Exception:
        traceback.print_exc(); return 2

sys.exit(main())
