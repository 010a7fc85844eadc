#!/usr/bin/env python3
"""run.py <property> : decide one property from /repo's current source.

exit 0 : every obligation that could be decided holds (undecided ones are counted in
         the evidence), known findings are printed as KNOWN-FINDING lines
exit 1 : a construct violates the property (VIOLATION line, details in the replay file)
exit 2 : the analysis itself could not be carried out
"""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, os.path.join(HERE, "checks"))

import ir
from ctx import Ctx


def main():
    if len(sys.argv) < 2:
        print("usage: run.py <property>")
        return 2
    prop = sys.argv[1]
    t0 = time.time()
    ctx = Ctx(prop, HERE)
    try:
        mod = importlib.import_module(prop.lower())
        mod.check(ctx)
        if not ctx.obl:
            raise ir.AnalysisBroken("the check matched no construct at all")
    except ir.AnalysisBroken as e:
        print("ANALYSIS-BROKEN property=%s: %s" % (prop, e))
        return 2
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s: internal error" % prop)
        return 2
    return ctx.finish(mod, time.time() - t0)


if __name__ == "__main__":
    sys.exit(main())
