#!/usr/bin/env python3
"""run.py <property id> [quick|thorough]"""
import sys, os, time, traceback
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)
import common
REG = {}
def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    rep = common.Report(pid, tier)
    import registry
    try:
        fn, level, expl = registry.CHECKS[pid][:3]
        fn(rep)
        return common.finish(rep, t0, level, expl)
    except Exception:
        traceback.print_exc()
        print("analysis of %s is broken (neither a pass nor a violation)" % pid)
        return 2
sys.stdout.reconfigure(line_buffering=True)
rc = main()
sys.stdout.flush()
os._exit(rc)
