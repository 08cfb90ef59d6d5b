#!/usr/bin/env python3
"""run.py --prop Cxx [--tier quick|thorough] | --replay FILE"""
import argparse, json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
sys.dont_write_bytecode = True
import core, check


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    a = ap.parse_args()
    import props
    try:
        if a.replay:
            return props.replay(a.replay)
        with check.Check(a.prop, a.tier, a.seed) as ck:
            props.CHECKS[a.prop](ck)
            return ck.finish()
    except core.CheckError as e:
        print("check could not be carried out: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
