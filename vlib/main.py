#!/usr/bin/env python3
import os
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import driver
import props


def main():
    if sys.argv[1] == "--setup":
        driver.build_engine()
        return 0
    pid = sys.argv[1]
    tier = "thorough" if "thorough" in sys.argv[2:] or (os.environ.get("VERIF_TIER") == "thorough") else "quick"
    t0 = time.time()
    p = props.PROPS[pid]
    res = driver.Result()
    units = list(p.get("units", [])) + (list(p.get("thorough", [])) if tier == "thorough" else [])
    if units:
        driver.analyse_units(units, res, arithmetic=p.get("arithmetic", False), safety=p.get("safety", True),
                             pid=None if p.get("relative") or tier == "thorough" else pid)
    if p.get("relative"):
        driver.relative(res)
    for f in p.get("passes", []):
        f(res, tier)
    return driver.finish(pid, tier, p.get("level", "proof"), res, t0, p["rules"], p.get("assumptions", []), p["technique"])


if __name__ == "__main__":
    try:
        code = main()
    except driver.Broken as e:
        print("check broken: %s" % e)
        code = 2
    except Exception:
        traceback.print_exc()
        code = 2
    sys.stdout.flush()
    sys.exit(code)
