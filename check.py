#!/usr/bin/env python3
"""check.py setup | check.py <property> [quick|thorough] | check.py replay <file>"""
import json, os, sys, traceback
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'vlib'))
import build, engine, props, tlc, harness
import importlib


def main(a):
    if a and a[0] == 'setup':
        print(build.build(sorted(build.TARGETS)))
        return 0
    if a and a[0] == 'replay':
        body = json.load(open(a[1]))
        text = props.recheck(body['data'])
        if text:
            print('  ' + text)
            print('VIOLATION property=%s replay=%s' % (body['property'], a[1]))
            return 1
        print('does not fail')
        return 0
    prop = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    level, fn = props.PROPS[prop]
    run = engine.Run(prop, tier, seed, level)
    fn(run)
    return run.finish()


if __name__ == '__main__':
    try:
        sys.exit(main(sys.argv[1:]))
    except (build.BuildError, tlc.TLCError) as e:
        print('ERROR: no answer: %s' % e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print('ERROR: no answer')
        sys.exit(2)
