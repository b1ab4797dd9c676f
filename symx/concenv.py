"""Concrete side of the harness API: the same harness, run with ordinary numbers on the real modules.

Runs in the interpreter of the program (no solver needed)."""
import builtins
import importlib
import importlib.abc
import importlib.util
import math
import os
import random as _random
import sys
import traceback
import types

import numpy as np

from . import pyx

REPO = os.environ.get('HYVR_REPO', '/repo')


class Abort(BaseException):
    pass


class Unsupported(BaseException):
    pass


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """the source files below /repo/hyvr; compiled leftovers are not used"""

    def __init__(self, overrides):
        self.overrides = overrides

    def find_spec(self, name, path=None, target=None):
        if name.split('.')[0] != 'hyvr' or name in self.overrides:
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            sp = importlib.util.spec_from_loader(name, self, is_package=True)
            sp.submodule_search_locations = [base]
            return sp
        for ext in ('.py', '.pyx'):
            if os.path.isfile(base + ext):
                return importlib.util.spec_from_loader(name, self, origin=base + ext)
        return None

    def create_module(self, spec):
        return None

    def builtins(self):
        """stand-ins reach the program's own modules only"""
        b = dict(vars(builtins))
        b.update(self.overrides.get('builtins', {}))
        ov = self.overrides
        real = builtins.__import__

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if level == 0 and name.split('.')[0] != 'hyvr':
                if fromlist and name in ov:
                    return ov[name]
                if not fromlist and name.split('.')[0] in ov:
                    return ov[name.split('.')[0]]
            return real(name, globals, locals, fromlist, level)
        b['__import__'] = imp
        return b

    def exec_module(self, m):
        sp = m.__spec__
        if sp.submodule_search_locations is not None:
            return
        with open(sp.origin, encoding='utf-8') as f:
            src = f.read()
        if sp.origin.endswith('.pyx'):
            src = pyx.convert(src)
        m.__file__ = sp.origin
        if m.__name__.endswith('.__main__'):
            m.__name__ = '__main__'
        m.__dict__['__builtins__'] = self.builtins()
        exec(compile(src, sp.origin, 'exec', dont_inherit=True), m.__dict__)


def _libc():
    m = types.ModuleType('libc.math')
    for n in dir(math):
        if not n.startswith('_'):
            setattr(m, n, getattr(math, n))
    m.ceil = lambda x: float(math.ceil(x))
    m.floor = lambda x: float(math.floor(x))
    l = types.ModuleType('libc')
    l.math = m
    l.__path__ = []
    return l


LIBC = _libc()


class Rng:
    def __init__(self, env):
        self.env = env
        self.n = 0
        self.log = {}
        self.script = None
        self.extra = _random.Random(1)

    def _get(self, what, default):
        self.n += 1
        name = 'rng%03d_%s' % (self.n, what)
        v = self.env.inputs[name] if name in self.env.inputs else default()
        if what in 'ug':
            self.log.setdefault(what, []).append(float(v))
        return v

    def _many(self, size, f):
        if size is None:
            return f()
        sh = (size,) if np.isscalar(size) else tuple(size)
        a = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            a[i] = f()
        try:
            if all(isinstance(x, (int, np.integer)) for x in a.ravel()):
                return a.astype(int)
            return a.astype(float)
        except (TypeError, ValueError):
            return a

    def uniform(self, low=0.0, high=1.0, size=None):
        def f():
            v = float(self._get('u', lambda: low if low == high else self.extra.uniform(float(low), float(high))))
            self.log.setdefault('ur', []).append((float(low), float(high), v))
            return v
        return self._many(size, f)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    def rand(self, *sh):
        return self.uniform(0.0, 1.0, sh if sh else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        if scale < 0:
            raise ValueError('scale < 0')
        def f():
            if self.script is not None:
                return loc + scale * self.script.pop(0)
            return loc + scale * float(self._get('g', lambda: self.extra.gauss(0, 1)))
        return self._many(size, f)

    def randn(self, *sh):
        return self.normal(0.0, 1.0, sh if sh else None)

    def poisson(self, lam=1.0, size=None):
        if not lam >= 0:
            raise ValueError('lam < 0 or lam is NaN')
        def f():
            v = int(self._get('p', lambda: 1))
            self.log.setdefault('p', []).append((lam, v))
            return v
        return self._many(size, f)

    def randint(self, low, high=None, size=None, dtype=None):
        l, h = (0, low) if high is None else (low, high)
        return self._many(size, lambda: int(self._get('i', lambda: self.extra.randrange(l, h))))

    def choice(self, a, size=None, replace=True, p=None):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        if not items:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            ps = [float(x) for x in np.ravel(p)]
            if len(ps) != len(items):
                raise ValueError("'a' and 'p' must have same size")
            if any(x < 0 for x in ps):
                raise ValueError('probabilities are not non-negative')
            if abs(sum(ps) - 1) > 1e-8:
                raise ValueError('probabilities do not sum to 1')
        return self._many(size, lambda: items[self._get('c', lambda: 0)])

    def permutation(self, a):
        items = list(range(a)) if isinstance(a, (int, np.integer)) else list(a)
        out = []
        while items:
            out.append(items.pop(self._get('q', lambda: 0)))
        return np.array(out)

    def seed(self, *a):
        pass

    NAMES = {'uniform': 'uniform', 'random': 'random', 'random_sample': 'random', 'sample': 'random',
             'ranf': 'random', 'rand': 'rand', 'normal': 'normal', 'randn': 'randn',
             'standard_normal': 'normal', 'poisson': 'poisson', 'randint': 'randint', 'choice': 'choice',
             'permutation': 'permutation', 'seed': 'seed'}


class Env:
    symbolic = False

    def __init__(self, inputs, opts=None):
        self.inputs = inputs
        self.opts = opts or {}
        self.failed = []
        self.detail = {}
        self.obs = {}
        self.labels = {}
        self.overrides = {}
        self.cleanup = []
        self.started = False
        self.rng = Rng(self)
        self.np = np

    def _in(self, name):
        if name not in self.inputs:
            raise Abort('no input ' + name)
        return self.inputs[name]

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        v = float(self._in(name))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        if (gt is not None and not v > gt) or (lt is not None and not v < lt):
            raise Abort('bounds of ' + name)
        return v

    def int(self, name, lo, hi):
        return int(self._in(name))

    def bool(self, name):
        return bool(self._in(name))

    def pick(self, name, options):
        return options[int(self._in(name))]

    def num(self, name, lo, hi):
        return int(self._in(name))

    def flag(self, name):
        return bool(self._in(name))

    def text(self, v):
        return repr(v)

    # -- program ------------------------------------------------------------
    def npfunc(self, name, f):
        self._patch(np, name, f)

    def stub(self, name, module):
        assert not self.started
        self.overrides[name] = module

    def start(self):
        if self.started:
            return
        self.started = True
        for n in [n for n in sys.modules if n.split('.')[0] == 'hyvr']:
            del sys.modules[n]
        f = Finder(self.overrides)
        sys.meta_path.insert(0, f)
        self.cleanup.append(lambda: sys.meta_path.remove(f))
        saved = {n: getattr(np.random, n) for n in Rng.NAMES}
        for n, m in Rng.NAMES.items():
            setattr(np.random, n, getattr(self.rng, m))
        self.cleanup.append(lambda: [setattr(np.random, n, v) for n, v in saved.items()])
        for n, m in self.overrides.items():
            if n.split('.')[0] != 'hyvr':
                continue
            old = sys.modules.get(n)
            sys.modules[n] = m
            par, _, leaf = n.rpartition('.')
            setattr(importlib.import_module(par), leaf, m)
            self.cleanup.append(lambda n=n, old=old: sys.modules.__setitem__(n, old)
                                if old is not None else sys.modules.pop(n, None))
        for n, m in (('libc', LIBC), ('libc.math', LIBC.math), ('cython', pyx.CYTHON)):
            if n not in sys.modules:
                sys.modules[n] = m
        import io
        out = sys.stdout
        sys.stdout = io.StringIO()
        self.cleanup.append(lambda: setattr(sys, 'stdout', out))

    def _patch(self, obj, k, v):
        old = getattr(obj, k)
        setattr(obj, k, v)
        self.cleanup.append(lambda: setattr(obj, k, old))

    def load(self, name):
        self.start()
        m = self.overrides.get(name)
        if m is not None:
            return m
        return importlib.import_module(name)

    def arr(self, nested, kind='f'):
        return np.array(nested, dtype={'f': float, 'i': int, 'b': bool}.get(kind, object))

    # -- logic ----------------------------------------------------------------
    def assume(self, c):
        if not np.all(c):
            raise Abort('assumption')

    def And(self, *cs):
        return all(bool(c) for c in cs)

    def Or(self, *cs):
        return any(bool(c) for c in cs)

    def Not(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def max(self, *a):
        return max(*a)

    def min(self, *a):
        return min(*a)

    def floor(self, x):
        return math.floor(x)

    def ceil(self, x):
        return math.ceil(x)

    def trunc(self, x):
        return int(x)

    def sqrt(self, x):
        return math.sqrt(x)

    def sin(self, x):
        return math.sin(x)

    def cos(self, x):
        return math.cos(x)

    def exp(self, x):
        return math.exp(x)

    # -- obligations ------------------------------------------------------------
    def _fail(self, label, msg):
        if label not in self.failed:
            self.failed.append(label)
            self.detail[label] = str(msg)[:400]

    def check(self, label, cond):
        self.labels[label] = self.labels.get(label, 0) + 1
        if not np.all(cond):
            self._fail(label, 'condition is false')

    def check_eq(self, label, a, b, tol=1e-7, obs=True):
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            try:
                A, B = np.asarray(a), np.asarray(b)
            except ValueError:
                self._fail(label, 'ragged')
                return
            if A.shape != B.shape:
                self._fail(label, 'shape %s, expected %s' % (A.shape, B.shape))
                return
            for x, y in zip(A.ravel(), B.ravel()):
                self.check_eq(label, x, y, tol, obs)
            return
        if isinstance(a, np.generic):
            a = a.item()
        if isinstance(b, np.generic):
            b = b.item()
        if obs and label not in self.obs and isinstance(a, (int, float)):
            self.obs[label] = float(a) if a == a and abs(a) != math.inf else None
        if not close(a, b, tol):
            self._fail(label, 'got %r, expected %r' % (a, b))

    def eq(self, a, b):
        return a == b

    def same(self, a, b):
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            return all(self.same(x, y) for x, y in zip(a, b))
        if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
            return True
        return bool(a == b) and isinstance(a, bool) == isinstance(b, bool)

    def fail(self, label, msg=''):
        self._fail(label, msg or 'reached')

    def reach(self, label):
        self.check(label, True)

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            e.where = in_repo(e)
            e.__traceback__ = None
            return None, e

    def anchor_acos(self, degrees):
        pass

    def draws(self, kind):
        return list(self.rng.log.get(kind, []))

    def known(self, label, text):
        pass


def in_repo(e):
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def close(a, b, tol):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    try:
        if a != a and b != b:
            return True
        if a == b:
            return True
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    except TypeError:
        return a == b


def run_one(fn, args, inputs, opts=None):
    """run one harness case with these inputs; returns the replay record"""
    env = Env(dict(inputs), opts)
    res = {'failed': [], 'detail': {}, 'obs': {}}
    try:
        with np.errstate(all='ignore'):
            fn(env, **args)
    except Abort as e:
        res['aborted'] = str(e)
    except Unsupported as e:
        res['error'] = 'unsupported: %s' % e
    except Exception as e:
        if in_repo(e):
            key = 'no-exception:' + type(e).__name__
            env._fail(key, '')
            env.detail[key] = ''.join(traceback.format_exception(e))[-900:]
        else:
            res['error'] = ''.join(traceback.format_exception(e))[-900:]
    finally:
        for f in reversed(env.cleanup):
            try:
                f()
            except Exception:
                pass
    if 'aborted' not in res:
        res['failed'] = env.failed
    elif env.failed:
        res['failed'] = env.failed
    res['detail'] = env.detail
    res['obs'] = env.obs
    return res
