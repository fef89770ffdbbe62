#!/usr/bin/env python3
"""check.py <property id>: decides one property from /repo's current source."""
import importlib, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, os.path.join(HERE, 'rules'))
sys.setrecursionlimit(20000)
import report
from ccload import AnalysisBroken


def main():
    prop = sys.argv[1]
    t0 = time.time()
    try:
        mod = importlib.import_module(prop.lower())
        findings, coverage, assumptions = mod.run()
        return report.finish(prop, t0, findings, coverage, assumptions)
    except AnalysisBroken as e:
        print('ANALYSIS BROKEN: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


sys.exit(main())
