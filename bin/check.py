#!/usr/bin/env python3
"""check.py PROPERTY - decides one property (see DESIGN.md).

exit 0: held on everything explored; 1: VIOLATION; 2: the machinery failed."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
from checks import CHECKS


def main():
    prop = sys.argv[1]
    run = vlib.Run(prop)
    try:
        try:
            cov = CHECKS[prop](run)
        except Exception as e:
            # a violation that was found before the machinery failed stands
            if run.violations and run.finish(dict(incomplete=str(e)[:500])) == 1:
                return 1
            raise
        return run.finish(cov)
    except vlib.ToolError as e:
        print("ERROR:", e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        run.cleanup()


sys.exit(main())
