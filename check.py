#!/usr/bin/env python3
# check.py PROPERTY [--tier quick|thorough] [--replay FILE]
import argparse, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import common

def module(prop):
    if prop in ("C12", "C13", "C14", "C15", "C16", "C19", "C20", "C21", "C23"):
        from lib import pyworld as m
    elif prop == "C22":
        from lib import bindworld as m
    elif prop == "C17":
        from lib import threads as m
    else:
        from lib import cworld as m
    return m

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    a = ap.parse_args()
    m = module(a.prop)
    try:
        if a.replay:
            return m.replay(a.prop, os.path.abspath(a.replay))
        return m.check(a.prop, a.tier, int(os.environ.get("VERIF_SEED", "1")))
    except common.CheckError as e:
        sys.stderr.write("ERROR: %s\n" % e)
        return 2

if __name__ == "__main__":
    sys.exit(main())
