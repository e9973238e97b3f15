#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]"""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if pid in ('W01', 'W02', 'W03', 'W04', 'W05', 'W06'):
        import wchecks as m
    else:
        import pychecks as m
    import report
    from report import Report
    report.limit('wall', 780 if tier == 'quick' else 6 * 3600)
    try:
        return m.main(pid, tier)
    except report.Timeout:
        # what has been found so far counts; the rest is undecided
        r = (report.CURRENT or [Report(pid, tier)])[0]
        r.undec('the time of the check is used up')
        return r.finish()
    except Exception as e:
        # the source has a form the analysis does not know: nothing is decided
        import traceback
        traceback.print_exc()
        r = Report(pid, tier)
        r.undec('analysis ended early: %s: %s' % (type(e).__name__, e))
        return r.finish()


if __name__ == '__main__':
    sys.exit(main())
