"""Loads the modules of /repo/hyvr from their current source text for symbolic execution.

The source is compiled unchanged by the ordinary Python compiler; only the names
the program imports (numpy, math, ...) and some builtins are replaced.  Cython
sources (.pyx without a .py of the same name) are first turned into Python by
``pyx.py``.
"""
import builtins
import math
import os
import sys
import types
from fractions import Fraction

from . import core, npshim, pyx
from .core import SymReal, SymInt, SymBool, SymPick, Unsupported, is_sym, ite

REPO = os.environ.get('HYVR_REPO', '/repo')


# -- atoms: symbolic numbers inside of text ---------------------------------
# A symbolic number that appears in an ini-file is one character of the private
# use area; float()/int() of the program turn it back into the symbolic number.

ATOM0 = 0xE000


class Atoms:
    table = []

    @classmethod
    def reset(cls):
        cls.table = []

    @classmethod
    def new(cls, val):
        cls.table.append(val)
        return chr(ATOM0 + len(cls.table) - 1)

    @classmethod
    def find(cls, s):
        """(sign, value) if s is an atom, else None"""
        t = s.strip()
        sg = 1
        if t[:1] in '+-' and len(t) > 1:
            sg = -1 if t[0] == '-' else 1
            t = t[1:]
        if len(t) == 1 and 0 <= ord(t) - ATOM0 < len(cls.table):
            return sg, cls.table[ord(t) - ATOM0]
        return None


def has_atom(s):
    return any(ATOM0 <= ord(c) < ATOM0 + 4096 for c in s)


# -- builtins -----------------------------------------------------------------

class _Meta(type):
    def __eq__(cls, o):
        return o is cls or o is cls._shim_real

    def __ne__(cls, o):
        return not (o is cls or o is cls._shim_real)

    def __hash__(cls):
        return hash(cls._shim_real)

    def __repr__(cls):
        return repr(cls._shim_real)

    def __instancecheck__(cls, x):
        if cls is FloatShim:
            return isinstance(x, (builtins.float, SymReal, Fraction))
        if cls is IntShim:
            return isinstance(x, (builtins.int, SymInt, SymBool))
        if cls is BoolShim:
            return isinstance(x, (builtins.bool, SymBool))
        if cls is StrShim:
            return isinstance(x, builtins.str) or \
                (isinstance(x, SymPick) and all(isinstance(o, builtins.str) for o in x.opts))
        return False

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, cls._shim_real)

    def __call__(cls, *a, **k):
        return cls._conv(*a, **k)

    def __getattr__(cls, n):
        if n.startswith('_shim'):
            raise AttributeError(n)
        return getattr(cls._shim_real, n)

    def __or__(cls, o):
        return object

    __ror__ = __or__


def _unpick(x):
    return x.get() if isinstance(x, SymPick) else x


def conv_float(x=0.0):
    x = _unpick(x)
    if isinstance(x, SymReal):
        return x
    if isinstance(x, (SymInt, SymBool)):
        return SymReal(core.real_term(x))
    if isinstance(x, str):
        f = Atoms.find(x)
        if f is not None:
            v = f[1] if f[0] > 0 else -f[1]
            return conv_float(v)
        return float(x)
    if isinstance(x, npshim.SArr) and x.size == 1:
        return conv_float(x.raw().ravel()[0])
    return float(x)


def conv_int(x=0, base=None):
    x = _unpick(x)
    if base is not None:
        return int(x, base)
    if isinstance(x, SymReal):
        return core.ftrunc(x)
    if isinstance(x, (SymInt, SymBool)):
        return SymInt(core.int_term(x)) if isinstance(x, SymBool) else x
    if isinstance(x, str):
        f = Atoms.find(x)
        if f is not None:
            if isinstance(f[1], (SymInt, int)):
                return f[1] if f[0] > 0 else -f[1]
            raise ValueError("invalid literal for int() with base 10: " + repr(x))
        return int(x)
    if isinstance(x, npshim.SArr) and x.size == 1:
        return conv_int(x.raw().ravel()[0])
    return int(x)


def conv_bool(x=False):
    if isinstance(x, SymBool):
        return x
    return bool(x)


def conv_str(x='', *a, **k):
    if isinstance(x, SymPick):
        x = x.get()
    if isinstance(x, str):
        return x
    return str(x, *a, **k)


class FloatShim(metaclass=_Meta):
    _shim_real, _shim_kind, _conv = float, 'f', staticmethod(conv_float)


class IntShim(metaclass=_Meta):
    _shim_real, _shim_kind, _conv = int, 'i', staticmethod(conv_int)


class BoolShim(metaclass=_Meta):
    _shim_real, _shim_kind, _conv = bool, 'b', staticmethod(conv_bool)


class StrShim(metaclass=_Meta):
    _shim_real, _shim_kind, _conv = str, 'O', staticmethod(conv_str)


def b_abs(x):
    return abs(x)


def b_minmax(mx):
    real = max if mx else min

    def f(*a, **k):
        if k:
            if 'key' in k or not a:
                return real(*a, **k)
            if 'default' in k:
                l = list(a[0])
                if not l:
                    return k['default']
                a = (l,)
        vals = list(a[0]) if len(a) == 1 else list(a)
        if not any(is_sym(v) for v in vals):
            return real(vals)
        r = vals[0]
        for v in vals[1:]:
            # python keeps the first of equal values; nan comparisons are False
            c = (v > r) if mx else (v < r)
            r = ite(c, v, r)
        return r
    return f


def b_round(x, n=None):
    if isinstance(x, SymReal):
        return core.fround(x, n)
    return round(x, n) if n is not None else round(x)


def b_sum(it, start=0):
    r = start
    for x in it:
        r = r + x
    return r


class Mathm(types.ModuleType):
    def __getattr__(self, n):
        real = getattr(math, n)
        m = {'sin': 'sin', 'cos': 'cos', 'tan': 'tan', 'exp': 'exp', 'log': 'log', 'log10': 'log10',
             'atan': 'arctan', 'asin': 'arcsin', 'acos': 'arccos', 'atan2': 'arctan2', 'fabs': 'fabs',
             'hypot': 'hypot', 'radians': 'radians', 'degrees': 'degrees', 'isnan': 'isnan',
             'isinf': 'isinf', 'isfinite': 'isfinite'}
        if n == 'sqrt':
            def f(x):
                if is_sym(x):
                    r = core.fsqrt(x)
                    if not is_sym(r) and r != r:
                        raise ValueError('math domain error')
                    return r
                return math.sqrt(x)
            return f
        if n in m:
            fn = npshim.UF[m[n]]

            def f(*a):
                if any(is_sym(x) for x in a):
                    return fn(*a)
                return real(*a)
            return f
        if n in ('floor', 'ceil', 'trunc'):
            fs = {'floor': core.ffloor, 'ceil': core.fceil, 'trunc': core.ftrunc}[n]
            return lambda x: fs(x) if is_sym(x) else real(x)
        if n == 'pow':
            return lambda a, b: core.power(a, b) if is_sym(a) or is_sym(b) else math.pow(a, b)
        if n == 'copysign':
            return lambda a, b: ite(b < 0, -abs(a), abs(a)) if is_sym(a) or is_sym(b) else real(a, b)
        if n == 'isclose':
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: \
                abs(a - b) <= b_minmax(True)(rel_tol * b_minmax(True)(abs(a), abs(b)), abs_tol)
        if callable(real):
            def f(*a, **k):
                if any(is_sym(x) for x in a):
                    raise Unsupported('math.' + n)
                return real(*a, **k)
            return f
        return real


class CMath(types.ModuleType):
    """libc.math / cython shims"""

    def __init__(self):
        super().__init__('libc.math')
        self.mm = Mathm('math')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n == 'fabs':
            return abs
        if n == 'pi':
            return math.pi
        f = getattr(self.mm, n)
        if n in ('ceil', 'floor'):
            return lambda x: npshim.coerce(f(x), 'f')
        return f


class Loader:
    """A fresh set of program modules for one symbolic path."""

    code_cache = {}
    files = {}

    def __init__(self, random=None, overrides=None, hide=()):
        self.numpy = npshim.Numpy(random=random)
        self.math = Mathm('math')
        self.mods = {}
        self.overrides = overrides or {}
        self.printed = []
        self.builtins = dict(builtins.__dict__)
        self.builtins.update({
            '__import__': self.do_import, 'float': FloatShim, 'int': IntShim, 'bool': BoolShim,
            'str': StrShim, 'min': b_minmax(False), 'max': b_minmax(True), 'round': b_round,
            'sum': b_sum, 'print': self.do_print, 'input': self._noinput, 'open': self._noopen,
        })
        self.builtins.update(self.overrides.get('builtins', {}))

    def do_print(self, *a, **k):
        self.printed.append(a)

    def _noinput(self, *a):
        raise Unsupported('input()')

    def _noopen(self, *a, **k):
        raise Unsupported('open()')

    # -- import machinery ---------------------------------------------------
    def do_import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            base = base[:len(base) - (level - 1)] if level > 1 else base
            name = '.'.join(base + ([name] if name else []))
        if name in self.overrides and name.split('.')[0] != 'hyvr':
            m = self.overrides[name]
            if isinstance(m, Exception):
                raise m
            if fromlist:
                return m
            top = name.split('.')[0]
            return self.overrides.get(top, m) if top != name else m
        top = name.split('.')[0]
        if top == 'hyvr':
            self.load(name)
            if fromlist:
                m = self.mods[name]
                for f in fromlist:
                    if f != '*' and not hasattr(m, f):
                        sub = name + '.' + f
                        if sub in self.overrides:
                            setattr(m, f, self.overrides[sub])
                        elif self.find(sub):
                            setattr(m, f, self.load(sub))
                return m
            return self.mods['hyvr']
        if top == 'numpy':
            if not fromlist:
                return self.numpy
            if name == 'numpy':
                return self.numpy
            m = self.numpy
            for p in name.split('.')[1:]:
                m = getattr(m, p)
            return m
        if name == 'math':
            return self.math
        if name in ('libc.math', 'libc'):
            return CMath()
        if name == 'cython':
            return pyx.CYTHON
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def find(self, name):
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(base):
            return ('pkg', base)
        for ext in ('.py', '.pyx'):
            if os.path.isfile(base + ext):
                return (ext, base + ext)
        return None

    def load(self, name):
        if name in self.overrides:
            self.mods[name] = self.overrides[name]
            self._link(name)
            return self.mods[name]
        if name in self.mods:
            return self.mods[name]
        f = self.find(name)
        if f is None:
            raise ModuleNotFoundError("No module named '%s'" % name, name=name)
        parent = name.rpartition('.')[0]
        if parent:
            self.load(parent)
        m = types.ModuleType('__main__' if name.endswith('.__main__') else name)
        m.__dict__['__builtins__'] = self.builtins
        self.mods[name] = m
        if f[0] == 'pkg':
            m.__package__ = name
            m.__path__ = [f[1]]
            self._link(name)
            return m                    # package __init__ files are not executed
        m.__package__ = parent
        m.__file__ = f[1]
        try:
            code = self.compile(f[1], f[0])
        except SyntaxError as e:        # also: a Cython construct that can not be converted
            raise core.Unsupported('source of %s: %s' % (name, e))
        try:
            exec(code, m.__dict__)
        except BaseException:
            self.mods.pop(name, None)
            raise
        self._link(name)
        return m

    def _link(self, name):
        parent, _, leaf = name.rpartition('.')
        if parent:
            if parent not in self.mods:
                self.load(parent)
            setattr(self.mods[parent], leaf, self.mods[name])

    @classmethod
    def compile(cls, path, ext):
        st = os.stat(path)
        key = (path, st.st_mtime_ns, st.st_size)
        c = cls.code_cache.get(key)
        if c is None:
            with open(path, encoding='utf-8') as fh:
                src = fh.read()
            if ext == '.pyx':
                src = pyx.convert(src)
            c = compile(src, path, 'exec', dont_inherit=True)
            cls.code_cache[key] = c
        return c
