#!/usr/bin/env python3
"""run.py ID [thorough]: decides one property on /repo's working tree (exit 0 held, 1 violated, 2 no answer)."""
import os, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import build as B, runner, props


def main():
    prop = sys.argv[1]
    os.environ["VERIF_TIER"] = "thorough" if sys.argv[2:] == ["thorough"] else "quick"
    t0 = time.time()
    p = props.PROPS[prop]
    try:
        items, meta, inputs = p.run(prop)
    except B.BuildError as e:
        print(f"error: property={prop}: /repo does not build with the harness\n{e}")
        return 2
    except runner.Failure as e:
        print(f"error: property={prop}: {e}")
        return 2
    except Exception:
        print(f"error: property={prop}\n{traceback.format_exc()}")
        return 2
    return runner.finish(prop, p.level, items, meta, t0, inputs)


sys.exit(main())
