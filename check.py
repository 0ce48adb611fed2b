#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property from /repo's current source."""
import os, sys, subprocess, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if subprocess.call(['bash', os.path.join(HERE, 'setup.sh')]):
        print('analysis error: setup failed')
        sys.exit(2)
    import checklib
    import rules
    from rules import glossary
    ck = spec = None
    try:
        spec = rules.RULES[prop]
        ck = checklib.Ck(prop, tier)
        spec['run'](ck)
        sys.exit(checklib.finish(ck, spec['level'], spec['technique'], glossary.TEXT))
    except checklib.AnalysisError as e:
        print('analysis error: %s' % e)
        sys.exit(report(checklib, ck, spec))
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        print('analysis error: internal')
        sys.exit(report(checklib, ck, spec))


def report(checklib, ck, spec):
    """the analysis broke off: violations it had established before still stand"""
    from rules import glossary
    if ck is not None and checklib.fresh(ck):
        return checklib.finish(ck, spec['level'], spec['technique'], glossary.TEXT)
    return 2


main()
