#!/usr/bin/env python3
"""check.py <property id> [quick|thorough] -- decides one property.
   check.py --replay <file>               -- replays a recorded violation."""
import json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from vf import Check, ToolError

def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        import families
        return families.replay_file(sys.argv[2])
    pid = sys.argv[1]
    vf.TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    import families
    c = None
    try:
        c = Check(pid)
        families.CHECKS[pid](c, vf.TIER == "thorough")
        families.replay_known(c)
        return c.finish()
    except Exception as e:
        if isinstance(e, ToolError):
            print("ERROR of the check %s: %s" % (pid, e), file=sys.stderr)
        else:
            traceback.print_exc()
        # what was found before stands
        return c.finish() if c is not None and c.violations else 2

if __name__ == "__main__":
    sys.exit(main())
