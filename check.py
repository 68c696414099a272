#!/usr/bin/env python3
"""check.py <PROPERTY-ID> [--tier quick|thorough]: decide one property on /repo's current sources."""
import importlib
import os
import sys
import warnings

sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from sa.project import Project, AnalysisError  # noqa: E402
from sa.report import Report  # noqa: E402


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[1:]:
        if a.startswith('--tier='):
            tier = a.split('=', 1)[1]
    rc = 0
    proj = None
    for pid in args:
        mod = importlib.import_module('checks.' + pid.lower())
        rep = Report(pid, tier, int(os.environ.get('VERIF_SEED', '1') or 1))
        try:
            proj = proj or Project()
            mod.check(proj, rep)
        except AnalysisError as e:
            print('ANALYSIS-BROKEN: %s: %s' % (pid, e))
            # violations that were established before the analysis broke still count
            r = rep.finish() if any(not o[2] for o in rep.obs) else 2
            rc = max(rc, r if r else 2) if rc != 1 else 1
            continue
        except Exception as e:  # a construct the analysis is not prepared for: no verdict, never an alarm
            import traceback
            traceback.print_exc()
            print('ANALYSIS-BROKEN: %s: internal error: %s' % (pid, e))
            r = rep.finish() if any(not o[2] for o in rep.obs) else 2
            rc = max(rc, r if r else 2) if rc != 1 else 1
            continue
        r = rep.finish()
        rc = 1 if 1 in (rc, r) else max(rc, r)
    return rc


if __name__ == '__main__':
    sys.exit(main())
