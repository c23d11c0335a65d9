#!/usr/bin/env python3
"""check.py <property>: decide one property of /repo's working tree."""
import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib


def main():
    prop = sys.argv[1]
    res = vlib.Result(prop)
    try:
        import registry
        fn, level, rule, assume = registry.CHECKS[prop]
        fn(res)
        vlib.finish(res, level, rule, assume)
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        vlib.say('ERROR: the check of %s could not be completed' % prop)
        vlib.cleanup()
        sys.exit(2)


main()
