"""C33: the command line"""
import io
import sys
import types
from props.common import *

BOUNDS = 'every order of the file name and --overwrite, with and without a file name, success and eight kinds of failure'
ASSUMPTIONS = ['argparse is the one of the standard library; the run itself is that of C09']

ERRORS = [None, ValueError, KeyError, FileNotFoundError, FileExistsError, TypeError, NotImplementedError, ZeroDivisionError,
          RuntimeError]


def main(env):
    nm = env.pick('name', ['m.ini', 'dir/sub dir/my.model.ini', '/abs/m.ini', '0', 'a.ini_autogenerated_backup.ini', ''])
    nm = nm.get() if hasattr(nm, 'get') else nm
    given = env.flag('file-given')
    if not given:
        env.assume(nm == 'm.ini')
    ow = env.flag('overwrite')
    first = env.flag('flag-first')
    err = ERRORS[env.num('error', 0, len(ERRORS) - 1)]
    calls = []

    def run(*a, **k):
        names = ('inifile', 'flag_ow')
        k.update(zip(names, a))
        calls.append((k.get('inifile', '?'), k.get('flag_ow')))
        if err is not None:
            raise err('the reason')
    printed = []
    env.stub('builtins', dict(print=lambda *a, **k: printed.append(' '.join(str(x) for x in a))))
    t = types.ModuleType('hyvr.sim')
    t.run = run
    env.stub('hyvr.sim', t)
    h = env.load('hyvr')
    h.run, h.sim = run, t
    args = ([nm] if given else [])
    if ow:
        args = ['--overwrite'] + args if first else args + ['--overwrite']
    old = sys.argv, sys.stderr, sys.stdout
    code, raised, out = None, None, io.StringIO()
    try:
        sys.argv, sys.stderr, sys.stdout = ['hyvr'] + args, out, io.StringIO()
        env.load('hyvr.__main__')
    except SystemExit as e:
        code = e.code
    except tuple(e for e in ERRORS if e) as e:
        if err is None or 'the reason' not in str(e):
            raise
        raised = e
    finally:
        sys.argv, sys.stderr, sys.stdout = old
    env.check('runs-once', len(calls) == 1)
    if len(calls) == 1:
        f, o = calls[0]
        env.check('file-name', f == nm if given else (isinstance(f, int) and f == 0))
        env.check('overwrite-flag', o is True if ow else o is None)
    if err is None:
        env.check('success', raised is None and code in (None, 0))
    else:
        env.check('failure-reported', raised is not None or code not in (None, 0))
        if raised is None:
            env.check('failure-explained', 'the reason' in out.getvalue() + ' '.join(printed) or 'the reason' in str(code))


def cases(tier):
    return [dict(name='command-line', fn=main)]
