#!/usr/bin/env python3
"""check.py ID [quick|thorough]   decide one property
   check.py replay FILE           run a replay file again"""
import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build  # noqa: E402
import engine  # noqa: E402


def registry():
    import importlib
    out = {}
    for m in ("checks_core", "checks_stats", "checks_files", "checks_lib", "checks_io", "checks_tools"):
        try:
            mod = importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m:
                raise
            continue
        for c in mod.ALL:
            out[c.id] = c
    return out


def main():
    reg = registry()
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        return engine.main_replay(reg[d.get("property") or sys.argv[3]], sys.argv[2])
    cid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return engine.main_check(reg[cid], tier, seed)
    except build.BuildError as e:
        print("cannot build the program: %s" % e, file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
