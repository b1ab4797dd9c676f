#!/opt/venv/bin/python
"""Replays solver models on the real code of /repo, without the solver.

    replay.py FILE        a file named by a VIOLATION line: prints what fails, exit 1 if it still does
    replay.py --json FILE list of specs; prints 'RESULT <json>' (used by the checks)
"""
import importlib
import json
import os
import signal
import sys
import warnings

warnings.filterwarnings('ignore')
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))

from symx import concenv


def clean(x):
    if isinstance(x, dict):
        return {str(k): clean(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [clean(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return str(x)


def run(spec):
    mod = importlib.import_module('props.' + spec['property'].lower())
    case = None
    for tier in ('quick', 'thorough'):
        for c in mod.cases(tier):
            if c['name'] == spec['case']:
                case = c
                break
        if case:
            break
    if case is None:
        return {'error': 'no such case ' + spec['case']}
    return concenv.run_one(case['fn'], case.get('args', {}), spec['inputs'], case.get('opts'))


def main():
    if sys.argv[1] == '--json':
        with open(sys.argv[2]) as f:
            specs = json.load(f)
        out = sys.stdout
        res = []
        for s in specs:
            try:
                res.append(clean(run(s)))
            except BaseException as e:
                sys.stdout = out
                res.append({'error': repr(e)})
        sys.stdout = out
        print('RESULT ' + json.dumps(res))
        return 0
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    if spec.get('label') == 'terminates':
        def late(*a):
            print('FAILS terminates: no end after 60 s')
            os._exit(1)
        signal.signal(signal.SIGALRM, late)
        signal.alarm(60)
    r = run(spec)
    print('property %s, case %s' % (spec['property'], spec['case']))
    for k, v in spec['inputs'].items():
        print('   %-20s %r' % (k, v))
    if r.get('error'):
        print('could not be replayed: ' + r['error'])
        return 2
    for l in r['failed']:
        print('FAILS %s: %s' % (l, r['detail'].get(l)))
    if not r['failed']:
        print('no failure' + (' (aborted: %s)' % r['aborted'] if r.get('aborted') else ''))
    return 1 if r['failed'] else 0


if __name__ == '__main__':
    sys.exit(main())
