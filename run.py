#!/usr/bin/env python3
"""run.py <property> [--tier quick|thorough]: decides one property on /repo's working tree."""
import argparse, importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from lib import build, ctx
import props


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    a = ap.parse_args()
    c = ctx.Ctx(a.property, a.tier, a.seed)
    try:
        c.build()
        props.run(c)
    except build.BuildError as e:
        print("the tree does not build: %s" % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        if c.found:
            c.finish()
            return 1
        return 2
    finally:
        c.clean()
    return c.finish()


sys.exit(main())
