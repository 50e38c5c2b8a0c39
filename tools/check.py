#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]: decides one property on /repo's working tree."""
import argparse, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, build, props

def main():
    a = argparse.ArgumentParser()
    a.add_argument("prop")
    a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    a = a.parse_args()
    run = vf.Run(a.prop, a.tier, a.seed)
    try:
        props.CHECKS[a.prop](run)
        rc = run.finish()
    except build.BuildError as e:
        print("cannot build: %s" % e); rc = 2
    except vf.SpecError as e:
        print("specification not checked: %s" % e); rc = 3
    sys.stdout.flush()
    return rc
sys.exit(main())
