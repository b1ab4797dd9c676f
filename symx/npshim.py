"""A numpy look-alike over symbolic values.

Arrays are object arrays (SArr) whose elements are python numbers or proxies.
The numeric kind ('f', 'i', 'b', 'O') is carried along so that writes convert
like the typed arrays of the real program (truncation to integer, ...).
Whatever has no symbolic implementation falls back to the real numpy, on typed
arrays if everything is concrete and on object arrays otherwise.
"""
import math
import types
from fractions import Fraction

import numpy as np
import z3

from . import core
from .core import (SymReal, SymInt, SymBool, SymPick, Unsupported, is_sym, is_num, special,
                   cur, ite, mkbool, arith, compare, to_frac)

KDT = {'f': np.dtype('float64'), 'i': np.dtype('int64'), 'b': np.dtype('bool'),
       'O': np.dtype('O'), 'c': np.dtype('complex128')}


def kind_of(dt):
    if dt is None:
        return 'f'
    if isinstance(dt, DT):
        return dt.kind
    k = getattr(dt, '_shim_kind', None)
    if k:
        return k
    if dt is object:
        return 'O'
    d = np.dtype(dt)
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'c': 'c'}.get(d.kind, 'O')


def scalar_kind(x):
    if isinstance(x, (SymBool, bool, np.bool_)):
        return 'b'
    if isinstance(x, (SymInt, int, np.integer)):
        return 'i'
    if isinstance(x, (SymReal, float, np.floating, Fraction)):
        return 'f'
    if isinstance(x, (complex, SymComplex)):
        return 'c'
    return 'O'


ORDER = 'bifcO'


def infer(flat):
    k = 0
    n = 0
    for x in flat:
        n += 1
        k = max(k, ORDER.index(scalar_kind(x)))
    return ORDER[k] if n else 'f'


def plain(x):
    """numpy scalar -> python scalar"""
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return plain(x.item())
    return x


def coerce(x, kind):
    x = plain(x)
    if isinstance(x, SymPick):
        x = x.get()
    if kind == 'O' or kind is None:
        return x
    if kind == 'f':
        if isinstance(x, SymReal):
            return x
        if isinstance(x, (SymInt, SymBool)):
            return SymReal(core.real_term(x))
        if isinstance(x, (bool, int, float)):
            return float(x)
        if isinstance(x, Fraction):
            return x
        if isinstance(x, str):
            return float(x)
        if x is None:
            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
        if isinstance(x, SymComplex):
            return x.re
        raise TypeError('can not convert %r to float' % type(x))
    if kind == 'i':
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return SymInt(core.int_term(x))
        if isinstance(x, SymReal):
            return core.ftrunc(x)
        if isinstance(x, float):
            if math.isnan(x) or math.isinf(x):
                return -2147483648
            return int(x)
        if x is None:
            raise TypeError('int() argument must not be NoneType')
        return int(x)
    if kind == 'b':
        if isinstance(x, SymBool):
            return x
        if is_sym(x):
            return mkbool(x.t != 0)
        return bool(x)
    if kind == 'c':
        return x
    return x


def narrow(x, dt):
    """conversion to a type that can not hold every value"""
    if not is_sym(x) or dt is None or dt is object:
        return x
    try:
        d = np.dtype(dt.real if isinstance(dt, DT) else getattr(dt, '_shim_real', dt))
    except TypeError:
        return x
    if isinstance(x, SymReal) and d.kind == 'f' and d.itemsize < 8:
        return core.single(x)
    if isinstance(x, SymInt) and d.kind in 'iu' and d.itemsize < 4:
        m = 256 ** d.itemsize
        h = m // 2 if d.kind == 'i' else 0
        return (x + h) % m - h
    return x


class SArr(np.ndarray):
    """object array with a numeric kind"""
    _kind = 'O'

    def __array_finalize__(self, obj):
        if obj is not None:
            self._kind = getattr(obj, '_kind', 'O')

    @property
    def kind(self):
        return self._kind

    @property
    def dtype(self):
        return KDT[self._kind]

    # ufuncs and functions
    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types_, args, kwargs):
        return NPF.call(func.__name__, func, args, kwargs)

    def astype(self, dt, *a, **k):
        kd = kind_of(dt)
        return mk([narrow(coerce(x, kd), dt) for x in self.raw().ravel()], self.shape, kd)

    @property
    def real(self):
        return np_real(self)

    @property
    def imag(self):
        return np_imag(self)

    def raw(self):
        return self.view(np.ndarray)

    def copy(self, *a, **k):
        return wrap(self.raw().copy(), self._kind)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def tolist(self):
        return self.raw().tolist()

    def item(self, *a):
        return self.raw().item(*a)

    def flatten(self, *a, **k):
        return wrap(self.raw().flatten(*a, **k), self._kind)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(len(self)):
            yield self[i]

    def __getitem__(self, idx):
        idx = fix_index(idx, self.shape)
        r = np.ndarray.__getitem__(self, idx)
        return r

    def __setitem__(self, idx, val):
        m = mask_of(idx, self.shape)
        if m is not None:
            if not isinstance(val, (list, tuple, np.ndarray)) or \
                    (isinstance(val, np.ndarray) and val.ndim == 0):
                v = coerce(val, self._kind)
                raw = self.raw()
                for i in np.ndindex(*m.shape):
                    c = m[i]
                    if raw[i].__class__ is np.ndarray or m.ndim < self.ndim:
                        if bool(c):
                            raw[i] = v
                    else:
                        raw[i] = ite(c, v, raw[i])
                return
        idx = fix_index(idx, self.shape)
        if isinstance(val, (list, tuple, np.ndarray)):
            o = objarr(val)
            flat = np.empty(o.size, dtype=object)
            for i, x in enumerate(o.ravel()):
                flat[i] = coerce(x, self._kind)
            val = flat.reshape(o.shape)
        else:
            val = coerce(val, self._kind)
        np.ndarray.__setitem__(self.raw(), idx, val)

    def __bool__(self):
        if self.size == 1:
            return bool(self.raw().ravel()[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __float__(self):
        raise Unsupported('float of array')

    def __contains__(self, x):
        return bool(np_any(self == x))

    # reductions
    def min(self, axis=None, *a, **k):
        return np_min(self, axis, *a, **k)

    def max(self, axis=None, *a, **k):
        return np_max(self, axis, *a, **k)

    def mean(self, axis=None, *a, **k):
        return np_mean(self, axis, *a, **k)

    def sum(self, axis=None, *a, **k):
        return np_sum(self, axis, *a, **k)

    def any(self, axis=None, *a, **k):
        return np_any(self, axis, *a, **k)

    def all(self, axis=None, *a, **k):
        return np_all(self, axis, *a, **k)

    def round(self, decimals=0, out=None):
        return np_round(self, decimals, **({} if out is None else {'out': out}))

    def clip(self, a_min=None, a_max=None, **k):
        return np_clip(self, a_min, a_max, **k)

    def nonzero(self):
        return np_where(self)

    def fill(self, v):
        self[...] = v

    def argmin(self, axis=None, **k):
        return np_argext(self, axis, False, **k)

    def argmax(self, axis=None, **k):
        return np_argext(self, axis, True, **k)

    def sort(self, *a, **k):
        s = np_sort(self)
        self[...] = s

    def argsort(self, *a, **k):
        return np_argsort(self)

    def dot(self, b):
        return np_dot(self, b)

    def conjugate(self):
        return self.copy()

    def cumsum(self, axis=None, **k):
        return np_cumsum(self, axis, **k)

    def prod(self, axis=None, **k):
        return NPF.call('prod', np.prod, (self,), dict(k, axis=axis))

    def std(self, axis=None, **k):
        return np_std(self, axis, **k)

    def var(self, axis=None, **k):
        return np_var(self, axis, **k)

    def ptp(self, axis=None, **k):
        return np_ptp(self, axis, **k)

    def take(self, *a, **k):
        return NPF.call('take', np.take, (self,) + a, k)

    def repeat(self, *a, **k):
        return NPF.call('repeat', np.repeat, (self,) + a, k)


def objarr(x):
    """plain object ndarray with python/proxy elements"""
    if isinstance(x, SArr):
        return x.raw()
    if isinstance(x, np.ndarray):
        o = np.empty(x.shape, dtype=object)
        for i in np.ndindex(*x.shape):
            o[i] = plain(x[i])
        return o
    if isinstance(x, SymPick):
        x = x.get()
    if isinstance(x, (list, tuple)) or type(x).__name__ in ('range', 'dict_values', 'map'):
        x = list(x)
        parts = [objarr(e) for e in x]
        if parts and all(isinstance(p, np.ndarray) for p in parts):
            sh = parts[0].shape
            if any(p.shape != sh for p in parts):
                raise ValueError('setting an array element with a sequence. The requested array '
                                 'has an inhomogeneous shape')
            o = np.empty((len(parts),) + sh, dtype=object)
            for i, p in enumerate(parts):
                if sh == ():
                    o[i] = p.item() if p.dtype == object else plain(p)
                else:
                    o[i] = p
            return o
        return np.empty((0,), dtype=object)
    o = np.empty((), dtype=object)
    o[()] = plain(x)
    return o


def wrap(o, kind=None):
    r = o.view(SArr)
    r._kind = kind if kind else infer(o.ravel())
    return r


def mk(flat, shape, kind=None):
    o = np.empty(len(flat), dtype=object)
    for i, x in enumerate(flat):
        o[i] = x
    return wrap(o.reshape(shape), kind)


def out(o, kind=None):
    """array result, scalars unwrapped"""
    if isinstance(o, np.ndarray) and o.ndim == 0:
        return o.item() if o.dtype == object else plain(o)
    return wrap(o, kind)


def has_sym(x, depth=0):
    if isinstance(x, (core.Sym, SymPick, SymComplex)):
        return True
    if isinstance(x, SArr):
        return any(isinstance(e, (core.Sym, SymPick, SymComplex)) for e in x.raw().ravel())
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (core.Sym, SymPick)) for e in x.ravel())
    if isinstance(x, (list, tuple)) and depth < 6:
        return any(has_sym(e, depth + 1) for e in x)
    if isinstance(x, dict):
        return any(has_sym(e, depth + 1) for e in x.values())
    return False


def typed(x):
    """real typed ndarray of a concrete SArr"""
    if isinstance(x, SArr):
        if x._kind == 'O':
            return x.raw()
        return np.array(x.raw().tolist(), dtype=KDT[x._kind]).reshape(x.shape)
    if isinstance(x, (list, tuple)):
        return type(x)(typed(e) for e in x) if type(x) in (list, tuple) else x
    if isinstance(x, dict):
        return {k: typed(v) for k, v in x.items()}
    if isinstance(x, DT):
        return x.real
    if getattr(x, '_shim_kind', None):
        return x._shim_real
    if isinstance(x, Fraction):
        return float(x)
    return x


def back(r):
    if isinstance(r, SArr):
        return r
    if isinstance(r, np.ndarray):
        if r.dtype.kind in 'fiubc':
            k = {'u': 'i'}.get(r.dtype.kind, r.dtype.kind)
            return wrap(objarr(r), k) if r.ndim else plain(r)
        if r.dtype == object:
            return wrap(r) if r.ndim else r.item()
        return r
    if isinstance(r, np.generic):
        return r.item()
    if isinstance(r, tuple) and type(r) is tuple:
        return tuple(back(e) for e in r)
    if isinstance(r, list):
        return [back(e) for e in r]
    return r


def concrete_mask(m):
    o = objarr(m)
    r = np.zeros(o.shape, dtype=bool)
    for i in np.ndindex(*o.shape):
        r[i] = bool(o[i])
    return r


def mask_of(idx, shape):
    """symbolic boolean mask, if idx is one"""
    if isinstance(idx, SArr) and idx._kind == 'b' and has_sym(idx):
        return idx.raw()
    return None


def _fix1(i, n):
    if isinstance(i, SymPick):
        i = i.get()
    if isinstance(i, (SymInt, SymBool)):
        if isinstance(i, SymBool):
            return bool(i)
        return core.cur().concretize(i.t, size=n)
    if isinstance(i, (SymReal, float)):
        raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) '
                         'and integer or boolean arrays are valid indices')
    if isinstance(i, SArr):
        if i._kind == 'b':
            return concrete_mask(i)
        if i._kind == 'i' or i.size == 0:
            return np.array([int(e) for e in i.raw().ravel()], dtype=int).reshape(i.shape)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    if isinstance(i, list):
        return _fix1(asarr(i), n) if i else i
    if isinstance(i, slice):
        f = lambda v: None if v is None else v.__index__()
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def fix_index(idx, shape):
    if isinstance(idx, tuple):
        plain_idx = all(not isinstance(i, (list, SArr, np.ndarray)) and i is not None and i is not Ellipsis for i in idx)
        return tuple(_fix1(i, shape[k] if plain_idx and k < len(shape) else None) for k, i in enumerate(idx))
    return _fix1(idx, shape[0] if shape else None)


# ---------------------------------------------------------------------------
# complex numbers (spectral method only)
# ---------------------------------------------------------------------------

class SymComplex:
    __slots__ = ('re', 'im')

    def __init__(self, re, im):
        self.re, self.im = re, im

    @staticmethod
    def of(x):
        if isinstance(x, SymComplex):
            return x
        if isinstance(x, complex):
            return SymComplex(x.real, x.imag)
        return SymComplex(x, 0.0)

    def _op(self, op, o):
        if op == '+':
            return SymComplex(self.re + o.re, self.im + o.im)
        if op == '-':
            return SymComplex(self.re - o.re, self.im - o.im)
        if op == '*':
            return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        if op == '/' and not is_sym(o.im) and o.im == 0:
            return SymComplex(self.re / o.re, self.im / o.re)
        raise Unsupported('complex ' + op)

    def _b(op, rev=False):
        def f(self, o):
            if isinstance(o, np.ndarray):
                return NotImplemented
            a, b = self, SymComplex.of(o)
            return b._op(op, a) if rev else a._op(op, b)
        return f
    __add__, __radd__ = _b('+'), _b('+', True)
    __sub__, __rsub__ = _b('-'), _b('-', True)
    __mul__, __rmul__ = _b('*'), _b('*', True)
    __truediv__ = _b('/')

    def __abs__(self):
        if not is_sym(self.im) and self.im == 0:
            return abs(self.re)
        if not is_sym(self.re) and self.re == 0:
            return abs(self.im)
        return core.fsqrt(self.re * self.re + self.im * self.im)

    @property
    def real(self):
        return self.re

    @property
    def imag(self):
        return self.im


# ---------------------------------------------------------------------------
# ufuncs
# ---------------------------------------------------------------------------

def sc(op):
    """scalar binary operation with numpy division semantics"""
    def f(a, b):
        a, b = plain(a), plain(b)
        if isinstance(a, (SymComplex, complex)) or isinstance(b, (SymComplex, complex)):
            return SymComplex.of(a)._op(op, SymComplex.of(b))
        if is_sym(a) or is_sym(b):
            return arith(op, a, b, ieee=True)
        if isinstance(a, Fraction) or isinstance(b, Fraction):
            a, b = to_frac(a), to_frac(b)
        if op == '+':
            return a + b
        if op == '-':
            return a - b
        if op == '*':
            return a * b
        if op == '/':
            if b == 0:
                return core.ieee_div0(a)
            return a / b
        if op == '//':
            return a // b if b != 0 else 0
        if op == '%':
            return a % b if b != 0 else 0
        if op == '**':
            if isinstance(a, int) and isinstance(b, int) and b < 0:
                raise ValueError('Integers to negative integer powers are not allowed.')
            try:
                r = a ** b
                return math.nan if isinstance(r, complex) else r
            except ZeroDivisionError:
                return math.inf
    return f


def sccmp(op):
    import operator
    F = {'<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge,
         '==': operator.eq, '!=': operator.ne}[op]

    def f(a, b):
        a, b = plain(a), plain(b)
        if is_sym(a) or is_sym(b):
            r = compare(op, a, b)
            if r is NotImplemented:
                raise TypeError('unorderable')
            return r
        return F(a, b)
    return f


def _un(fsym, fnum):
    def f(x):
        x = plain(x)
        if is_sym(x):
            return fsym(x)
        try:
            return fnum(x)
        except ValueError:
            return math.nan
        except OverflowError:
            return math.inf
    return f


def _abs(x):
    x = plain(x)
    return abs(x)


def _isnan(x):
    x = plain(x)
    if is_sym(x):
        return False
    return isinstance(x, float) and math.isnan(x)


def _isinf(x):
    x = plain(x)
    return isinstance(x, float) and math.isinf(x)


def _logic(name):
    def f(*xs):
        ts = [plain(x) for x in xs]
        if not any(is_sym(t) for t in ts):
            bs = [bool(t) for t in ts]
            return {'and': all(bs), 'or': any(bs), 'xor': sum(bs) == 1, 'not': not bs[0]}[name]
        zs = [core.bool_term(t) for t in ts]
        return mkbool({'and': lambda: z3.And(*zs), 'or': lambda: z3.Or(*zs),
                       'xor': lambda: z3.Xor(*zs), 'not': lambda: z3.Not(zs[0])}[name]())
    return f


def _bit(name):
    lg = _logic(name)

    def f(*xs):
        ts = [plain(x) for x in xs]
        if all(scalar_kind(t) == 'b' for t in ts):
            return lg(*ts)
        ts = [t.__index__() for t in ts]
        if name == 'not':
            return ~ts[0]
        a, b = ts
        return a & b if name == 'and' else a | b if name == 'or' else a ^ b
    return f


def _flt(f):
    def g(x):
        r = f(x)
        if isinstance(r, SymInt):
            return SymReal(core.real_term(r))
        if isinstance(r, int) and not isinstance(r, bool):
            return float(r)
        return r
    return g


def _tofloat(f):
    return lambda x: coerce(f(x), 'f') if not isinstance(x, (complex, SymComplex)) else f(x)


def _arctan2(a, b):
    a, b = plain(a), plain(b)
    return core.uf('arctan2', a, b) if is_sym(a) or is_sym(b) else math.atan2(a, b)


def _ufn(name, mathname=None):
    m = getattr(math, mathname or name)
    return _un(lambda x: core.uf(name, x), m)


def _sqrt(x):
    x = plain(x)
    if is_sym(x):
        return core.fsqrt(x)
    return math.sqrt(x) if x >= 0 else math.nan


PIF = Fraction(repr(math.pi))
UF = {
    'add': sc('+'), 'subtract': sc('-'), 'multiply': sc('*'), 'divide': sc('/'),
    'true_divide': sc('/'), 'floor_divide': sc('//'), 'remainder': sc('%'), 'mod': sc('%'),
    'power': sc('**'), 'float_power': sc('**'),
    'less': sccmp('<'), 'less_equal': sccmp('<='), 'greater': sccmp('>'),
    'greater_equal': sccmp('>='), 'equal': sccmp('=='), 'not_equal': sccmp('!='),
    'negative': lambda x: -plain(x), 'positive': lambda x: plain(x),
    'absolute': _abs, 'fabs': _tofloat(_abs),
    'sqrt': _sqrt, 'square': lambda x: sc('*')(x, x), 'reciprocal': lambda x: sc('/')(1.0, x),
    'sin': _un(core.fsin, math.sin), 'cos': _un(core.fcos, math.cos), 'tan': _un(core.ftan, math.tan),
    'exp': _ufn('exp'), 'log': _ufn('log'), 'log10': _ufn('log10'),
    'arctan': _ufn('arctan', 'atan'), 'arcsin': _ufn('arcsin', 'asin'),
    'arccos': _ufn('arccos', 'acos'), 'arctan2': _arctan2,
    'floor': _flt(_un(core.ffloor, math.floor)), 'ceil': _flt(_un(core.fceil, math.ceil)),
    'trunc': _flt(_un(core.ftrunc, math.trunc)), 'rint': _flt(_un(core.fround, round)),
    'sign': _un(core.fsign, lambda x: (x > 0) - (x < 0) if isinstance(x, int) else float((x > 0) - (x < 0))),
    'maximum': lambda a, b: core.fmax(plain(a), plain(b)),
    'minimum': lambda a, b: core.fmin(plain(a), plain(b)),
    'fmax': lambda a, b: b if _isnan(a) else a if _isnan(b) else core.fmax(plain(a), plain(b)),
    'fmin': lambda a, b: b if _isnan(a) else a if _isnan(b) else core.fmin(plain(a), plain(b)),
    'isnan': _isnan, 'isinf': _isinf, 'isfinite': lambda x: not _isnan(x) and not _isinf(x),
    'logical_and': _logic('and'), 'logical_or': _logic('or'), 'logical_xor': _logic('xor'),
    'logical_not': _logic('not'), 'bitwise_and': _bit('and'), 'bitwise_or': _bit('or'),
    'bitwise_xor': _bit('xor'), 'invert': _bit('not'),
    'hypot': lambda a, b: _sqrt(sc('+')(sc('*')(a, a), sc('*')(b, b))),
    'deg2rad': lambda x: sc('/')(sc('*')(x, math.pi), 180),
    'radians': lambda x: sc('/')(sc('*')(x, math.pi), 180),
    'rad2deg': lambda x: sc('/')(sc('*')(x, 180), math.pi),
    'degrees': lambda x: sc('/')(sc('*')(x, 180), math.pi),
    'conjugate': lambda x: x,
}
BOOLR = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'isnan', 'isinf',
         'isfinite', 'logical_and', 'logical_or', 'logical_xor', 'logical_not'}
FLOATR = {'divide', 'true_divide', 'sqrt', 'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'arctan',
          'arcsin', 'arccos', 'arctan2', 'floor', 'ceil', 'trunc', 'rint', 'fabs', 'hypot',
          'deg2rad', 'rad2deg', 'radians', 'degrees', 'reciprocal', 'float_power'}


def _rkind(name, kinds):
    if name in BOOLR:
        return 'b'
    k = ORDER[max(ORDER.index(x) for x in kinds)]
    if name in FLOATR and k in 'bi':
        return 'f'
    if k == 'b' and name in ('add', 'subtract', 'multiply', 'power', 'negative'):
        return 'i'
    return k


BOOL2 = {'add': 'logical_or', 'multiply': 'logical_and', 'subtract': None, 'maximum': 'logical_or',
         'minimum': 'logical_and', 'fmax': 'logical_or', 'fmin': 'logical_and'}


def kind_any(x):
    if isinstance(x, SArr):
        return x._kind
    if isinstance(x, np.ndarray):
        return {'u': 'i'}.get(x.dtype.kind, x.dtype.kind) if x.dtype.kind in 'fiubc' else infer(objarr(x).ravel())
    if isinstance(x, (list, tuple)):
        return infer(objarr(x).ravel())
    return scalar_kind(plain(x))


def elementwise(fn, name, inputs):
    arrs = [objarr(x) for x in inputs]
    kinds = [kind_any(x) for x in inputs]
    rk = _rkind(name, kinds)
    if name in ('add', 'subtract', 'multiply', 'divide', 'power', 'maximum', 'minimum') and 'O' in kinds:
        rk = None
    if all(a.ndim == 0 for a in arrs):
        r = fn(*[a.item() for a in arrs])
        return coerce(r, rk) if rk in ('f',) and not isinstance(r, SymComplex) else r
    if len(kinds) == 2 and kinds[0] == kinds[1] == 'b' and name in BOOL2:
        # two boolean arrays: numpy stays boolean
        if name == 'subtract':
            raise TypeError('numpy boolean subtract, the `-` operator, is not supported, use the bitwise_xor, the '
                            '`^` operator, or the logical_xor function instead.')
        name, rk = BOOL2[name], 'b'
        fn = UF[name]
    bs = np.broadcast_arrays(*arrs)
    o = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(*o.shape):
        r = fn(*[b[i] for b in bs])
        o[i] = coerce(r, rk) if rk in ('f', 'i') and not isinstance(r, SymComplex) else r
    if rk and rk != 'O' and any(isinstance(e, SymComplex) for e in o.ravel()):
        rk = 'c'
    return wrap(o, rk)


def ew2(op, a, b):
    name = {'+': 'add', '-': 'subtract', '*': 'multiply', '/': 'divide', '//': 'floor_divide',
            '%': 'remainder', '**': 'power'}[op]
    return elementwise(UF[name], name, (a, b))


def handle_ufunc(ufunc, method, inputs, kw):
    name = ufunc.__name__
    fn = UF.get(name)
    outs = kw.pop('out', None)
    where = kw.pop('where', True)
    kw.pop('dtype', None)
    kw.pop('casting', None)
    if name in ('matmul', 'vecdot') and method == '__call__':
        r = np_dot(*inputs)
    elif fn is None:
        if not any(has_sym(x) for x in inputs):
            r = back(getattr(ufunc, method)(*[typed(x) for x in inputs], **typed(kw)))
        else:
            raise Unsupported('ufunc ' + name)
    elif method == '__call__':
        r = elementwise(fn, name, inputs)
        if where is not True:
            base = outs[0] if outs else None
            if base is None:
                raise Unsupported('ufunc where without out')
            r = np_where(where, r, base)
    elif method == 'reduce':
        r = reduce_axis(inputs[0], kw.get('axis', 0), fn, name, kw.get('initial', None),
                        kw.get('keepdims', False))
    elif method == 'accumulate':
        a = objarr(inputs[0])
        ax = kw.get('axis', 0)
        a = np.moveaxis(a, ax, 0).copy()
        for i in range(1, a.shape[0]):
            if a.ndim == 1:
                a[i] = fn(a[i - 1], a[i])
            else:
                a[i] = elementwise(fn, name, (wrap(a[i - 1]), wrap(a[i]))).raw()
        r = wrap(np.moveaxis(a, 0, ax), _rkind(name, [kind_any(inputs[0])]))
    elif method == 'outer':
        a, b = objarr(inputs[0]), objarr(inputs[1])
        r = elementwise(fn, name, (wrap(a.reshape(a.shape + (1,) * b.ndim)), wrap(b)))
    else:
        raise Unsupported('ufunc method ' + method)
    if outs:
        o = outs[0]
        if not isinstance(o, SArr):
            raise Unsupported('out= into a plain array')
        if o._kind == 'i' and isinstance(r, SArr) and r._kind == 'f':
            raise TypeError("Cannot cast ufunc '%s' output from dtype('float64') to dtype('int64') "
                            "with casting rule 'same_kind'" % name)
        o[...] = r
        return o
    return r


def reduce_axis(x, axis, fn, name, initial=None, keepdims=False):
    a = objarr(x)
    k = _rkind(name, [kind_any(x)])
    if axis is None:
        axes = tuple(range(a.ndim))
    else:
        axes = axis if isinstance(axis, tuple) else (axis,)
    axes = tuple(ax % a.ndim for ax in axes) if a.ndim else ()
    keep = [i for i in range(a.ndim) if i not in axes]
    at = a.transpose(keep + list(axes))
    sh = tuple(a.shape[i] for i in keep)
    at = at.reshape(sh + (-1,)) if a.ndim else at.reshape((1,))
    o = np.empty(sh, dtype=object)
    ident = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False}
    for i in np.ndindex(*sh):
        vals = list(at[i])
        if initial is not None:
            vals = [initial] + vals
        if not vals:
            if name not in ident:
                raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
            o[i] = coerce(ident[name], k)
            continue
        r = vals[0]
        if name in ('logical_and', 'logical_or') and len(vals) == 1:
            r = coerce(r, 'b')
        for v in vals[1:]:
            r = fn(r, v)
        o[i] = r
    if keepdims:
        o = o.reshape(tuple(1 if i in axes else a.shape[i] for i in range(a.ndim)))
    if o.ndim == 0:
        return coerce(o.item(), k) if k in 'fi' and not isinstance(o.item(), SymComplex) else o.item()
    return wrap(o, k)


# ---------------------------------------------------------------------------
# functions
# ---------------------------------------------------------------------------

def asarr(x, kind=None):
    o = objarr(x)
    if kind is None:
        kind = x._kind if isinstance(x, SArr) else infer(o.ravel())
    flat = [coerce(e, kind) for e in o.ravel()]
    return mk(flat, o.shape, kind)


def np_array(x, dtype=None, copy=True, ndmin=0, **k):
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind not in 'biufcO':
        return np.array(x)
    r = asarr(x, kind_of(dtype) if dtype is not None else None)
    if dtype is not None and r.dtype.kind in 'fi' and isinstance(r, SArr):
        raw = r.raw()
        if any(narrow(e, dtype) is not e for e in raw.ravel()):
            r = mk([narrow(e, dtype) for e in raw.ravel()], r.shape, r._kind)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def np_asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or kind_of(dtype) == x._kind) and \
            not (dtype is not None and any(narrow(e, dtype) is not e for e in x.raw().ravel())):
        return x
    return np_array(x, dtype)


def shp(s):
    if isinstance(s, (tuple, list)):
        return tuple(int_index(e) for e in s)
    if isinstance(s, np.ndarray):
        return tuple(int_index(e) for e in objarr(s).ravel())
    return (int_index(s),)


def int_index(e):
    e = plain(e)
    if isinstance(e, (float, SymReal)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    return e.__index__()


def full(shape, v, kind):
    s = shp(shape)
    n = 1
    for e in s:
        n *= e
    if n > 200000:
        raise Unsupported('large array')
    if any(e < 0 for e in s):
        raise ValueError('negative dimensions are not allowed')
    return mk([v] * n, s, kind)


def np_zeros(shape, dtype=None, order='C', **k):
    kd = kind_of(dtype)
    return full(shape, coerce(0, kd), kd)


def np_ones(shape, dtype=None, order='C', **k):
    kd = kind_of(dtype)
    return full(shape, coerce(1, kd), kd)


def np_empty(shape, dtype=None, order='C', **k):
    """uninitialised memory: arbitrary values (here: poison for floats)"""
    kd = kind_of(dtype)
    r = full(shape, coerce(0, kd), kd)
    c = core.Ctx.cur
    if c is not None and c.opts.get('havoc_empty', True) and r.size <= 64:
        raw = r.raw()
        for i in np.ndindex(*r.shape):
            if kd == 'f':
                raw[i] = SymReal(c.fresh('r', 'uninit'))
            elif kd == 'i':
                raw[i] = SymInt(c.fresh('i', 'uninit'))
    return r


def np_full(shape, v, dtype=None, **k):
    if isinstance(v, (list, tuple, np.ndarray)):
        r = np_zeros(shape, dtype if dtype is not None else KDT[kind_any(v)])
        r[...] = v
        return r
    kd = kind_of(dtype) if dtype is not None else scalar_kind(plain(v))
    return full(shape, coerce(v, kd), kd)


def _like(v):
    def f(a, dtype=None, shape=None, **k):
        a = np_asarray(a)
        kd = kind_of(dtype) if dtype is not None else a._kind
        return full(shape if shape is not None else a.shape, coerce(v, kd), kd)
    return f


def np_full_like(a, v, dtype=None, **k):
    a = np_asarray(a)
    kd = kind_of(dtype) if dtype is not None else a._kind
    r = full(a.shape, coerce(0, kd), kd)
    r[...] = v
    return r


def np_arange(*args, dtype=None, **k):
    args = [plain(a) for a in args]
    if 'stop' in k:
        args = ([k.get('start', 0)] if not args else args) + [k['stop']] + ([k['step']] if 'step' in k else [])
    elif 'step' in k:
        args = args + [k['step']]
    if len(args) == 1:
        start, stop, step = 0, args[0], 1
    elif len(args) == 2:
        start, stop, step = args[0], args[1], 1
    else:
        start, stop, step = args
    if not any(is_sym(a) for a in (start, stop, step)):
        return back(np.arange(start, stop, step, dtype=None if dtype is None else KDT[kind_of(dtype)]))
    kd = kind_of(dtype) if dtype is not None else infer([start, stop, step])
    vals = []
    up = step > 0
    up = bool(up)
    if not up and bool(sccmp('==')(step, 0)):
        raise ZeroDivisionError('division by zero')
    limit = cur().opts.get('max_arange', 64)
    n = 0
    while True:
        v = sc('+')(start, sc('*')(n, step)) if n else start
        inside = (v < stop) if up else (v > stop)
        if not bool(inside):
            break
        vals.append(coerce(v, kd))
        n += 1
        if n > limit:
            raise Unsupported('arange too long')
    return mk(vals, (n,), kd)


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int_index(num)
    if isinstance(start, (list, np.ndarray)) or isinstance(stop, (list, np.ndarray)):
        raise Unsupported('array linspace')
    start, stop = plain(start), plain(stop)
    div = (num - 1) if endpoint else num
    vals = []
    for i in range(num):
        if i == 0:
            v = start
        elif endpoint and i == num - 1:
            v = stop
        else:
            v = sc('+')(start, sc('/')(sc('*')(sc('-')(stop, start), i), div))
        vals.append(coerce(v, 'f'))
    r = mk(vals, (num,), 'f')
    if dtype is not None:
        r = r.astype(dtype)
    if retstep:
        return r, sc('/')(sc('-')(stop, start), div) if div else math.nan
    return r


def np_interp(x, xp, fp, left=None, right=None, period=None):
    xp, fp = list(objarr(xp).ravel()), list(objarr(fp).ravel())
    if len(xp) != len(fp):
        raise ValueError('fp and xp are not of the same length.')

    def one(v):
        r = left if left is not None else fp[0]
        # piecewise linear, clamped; evaluate from the right
        res = right if right is not None else fp[-1]
        for i in range(len(xp) - 1, 0, -1):
            dx = xp[i] - xp[i - 1]
            if not bool(sccmp('!=')(dx, 0)):
                continue
            slope = sc('/')(sc('-')(fp[i], fp[i - 1]), dx)
            lin = sc('+')(fp[i - 1], sc('*')(slope, sc('-')(v, xp[i - 1])))
            res = ite(sccmp('<')(v, xp[i]), lin, res)
        return ite(sccmp('<')(v, xp[0]), r, res)
    a = objarr(x)
    if a.ndim == 0:
        return coerce(one(a.item()), 'f')
    return mk([coerce(one(v), 'f') for v in a.ravel()], a.shape, 'f')


def np_meshgrid(*xs, indexing='xy', copy=True, sparse=False):
    xs = [np_asarray(x) for x in xs]
    r = np.meshgrid(*[x.raw() for x in xs], indexing=indexing, sparse=sparse)
    return [wrap(o.copy(), x._kind) for o, x in zip(r, xs)]


def options(k, *allowed):
    """options of a numpy function that are not modelled must not be ignored"""
    for n, v in k.items():
        if n in ('dtype', 'order', 'subok', 'casting', 'like', 'kind', 'equal_nan', 'assume_unique', 'out') and v is None:
            continue
        if n in allowed or n in ('order', 'subok', 'casting', 'kind') or n == 'where' and v is True:
            continue
        raise Unsupported('numpy option ' + n)


def _put(r, k):
    """the out= option"""
    o = k.get('out')
    if o is None:
        return r
    if not isinstance(o, SArr):
        raise Unsupported('out= into a plain array')
    o[...] = r
    return o


def _dtype(r, k):
    d = k.get('dtype')
    if d is None:
        return r
    return r.astype(d) if isinstance(r, SArr) else coerce(r, kind_of(d))


def _reduction(fn):
    def f(a, axis=None, dtype=None, out=None, keepdims=False, **k):
        options(k, 'initial')
        if hasattr(a, '__next__'):
            raise Unsupported('reduction of a generator')
        r = reduce_axis(a, axis, UF[fn], fn, k.get('initial'), bool(keepdims))
        return _put(_dtype(r, {'dtype': dtype}), {'out': out})
    return f


def _reduction2(fn):
    """without dtype in the argument list"""
    g = _reduction(fn)

    def f(a, axis=None, out=None, keepdims=False, **k):
        return g(a, axis, None, out, keepdims, **k)
    return f


np_min, np_max, np_sum, np_prod = _reduction2('minimum'), _reduction2('maximum'), _reduction('add'), _reduction('multiply')


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    options(k)
    s = np_sum(a, axis, keepdims=keepdims)
    o = objarr(a)
    if axis is None:
        n = o.size
    else:
        n = 1
        for ax in (axis if isinstance(axis, tuple) else (axis,)):
            n *= o.shape[ax]
    if n == 0:
        return math.nan
    return _put(elementwise(UF['divide'], 'divide', (s, n)), {'out': out})


def np_average(a, axis=None, weights=None, returned=False, **k):
    options(k)
    if returned:
        raise Unsupported('average returned')
    if weights is None:
        return np_mean(a, axis)
    if axis is not None and objarr(a).shape != objarr(weights).shape:
        raise Unsupported('average axis')
    w = elementwise(UF['multiply'], 'multiply', (a, weights))
    return elementwise(UF['divide'], 'divide', (np_sum(w, axis), np_sum(weights, axis)))


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    options(k)
    if out is not None:
        raise Unsupported('var out')
    m = np_mean(a, axis, keepdims=True) if axis is not None else np_mean(a)
    d = elementwise(UF['subtract'], 'subtract', (a, m))
    q = elementwise(UF['multiply'], 'multiply', (d, d))
    if not ddof:
        return np_mean(q, axis, keepdims=keepdims)
    if axis is not None:
        raise Unsupported('var ddof axis')
    return elementwise(UF['divide'], 'divide', (np_sum(q), objarr(a).size - ddof))


def np_std(a, axis=None, *r, **k):
    return elementwise(UF['sqrt'], 'sqrt', (np_var(a, axis, *r, **k),))


def np_any(a, axis=None, out=None, keepdims=False, **k):
    options(k)
    return _put(reduce_axis(asarr(a, 'b') if not isinstance(a, SArr) or a._kind != 'b' else a, axis,
                            UF['logical_or'], 'logical_or', None, bool(keepdims)), {'out': out})


def np_all(a, axis=None, out=None, keepdims=False, **k):
    options(k)
    return _put(reduce_axis(asarr(a, 'b') if not isinstance(a, SArr) or a._kind != 'b' else a, axis,
                            UF['logical_and'], 'logical_and', None, bool(keepdims)), {'out': out})


def np_ptp(a, axis=None, **k):
    options(k)
    return elementwise(UF['subtract'], 'subtract', (np_max(a, axis), np_min(a, axis)))


def np_fromiter(it, dtype=None, count=-1, **k):
    v = list(it)
    if count >= 0:
        v = v[:count]
    return asarr(v, kind_of(dtype))


def np_isin(a, b, invert=False, **k):
    options(k, 'assume_unique')
    vals = list(objarr(b).ravel())

    def f(x):
        r = False
        for v in vals:
            r = UF['logical_or'](r, sccmp('==')(x, v))
        return UF['logical_not'](r) if invert else r
    return elementwise(f, 'equal', (a,))


def np_select(conds, choices, default=0):
    r = default
    for c, v in reversed(list(zip(conds, choices))):
        r = np_where(c, v, r)
    return r


def np_choose(a, choices, **k):
    options(k)
    o = objarr(a)
    idx = np.array([int(e) for e in o.ravel()], dtype=int).reshape(o.shape)
    arrs = np.broadcast_arrays(idx, *[objarr(c) for c in choices])
    r = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*r.shape):
        r[i] = arrs[1 + arrs[0][i]][i]
    return out(r)


def np_argwhere(a):
    return back(np.argwhere(concrete_mask(a)))


def np_flatnonzero(a):
    return back(np.flatnonzero(concrete_mask(a)))


def np_cross(a, b, **k):
    options(k)
    a, b = np_asarray(a), np_asarray(b)
    if a.shape != (3,) or b.shape != (3,):
        raise Unsupported('cross nd')
    return np_array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])


def np_nan_to_num(a, copy=True, nan=0.0, posinf=None, neginf=None):
    if not copy:
        raise Unsupported('nan_to_num in place')
    return elementwise(lambda x: nan if _isnan(x) is True else x, 'positive', (a,))


def np_digitize(x, bins, right=False):
    return np_searchsorted(bins, x, side='left' if right else 'right')


def np_putmask(a, mask, values):
    if isinstance(values, (list, tuple, np.ndarray)) and np.ndim(values) and objarr(values).shape != a.shape:
        raise Unsupported('putmask values')
    a[...] = np_where(mask, values, a)


def np_median(a, axis=None, **k):
    options(k)
    if axis is not None:
        raise Unsupported('median axis')
    v = [x[0] for x in _sorted([(e, i) for i, e in enumerate(objarr(a).ravel())])]
    n = len(v)
    return coerce(v[n // 2], 'f') if n % 2 else UF['divide'](UF['add'](v[n // 2 - 1], v[n // 2]), 2)


def np_ndenumerate(a):
    a = np_asarray(a)
    return ((i, a[i]) for i in np.ndindex(*a.shape))


def np_vectorize(f, otypes=None, **k):
    if k:
        raise Unsupported('vectorize options')

    def g(*xs):
        arrs = np.broadcast_arrays(*[objarr(x) for x in xs])
        o = np.empty(arrs[0].shape, dtype=object)
        for i in np.ndindex(*o.shape):
            o[i] = plain(f(*[b[i] for b in arrs]))
        r = wrap(o, kind_of(otypes[0]) if otypes else None) if o.ndim else asarr(o.item())
        return r
    return g


def np_apply_along_axis(f, axis, a, *args, **kw):
    a = np_asarray(a)
    m = NPF.call('moveaxis', np.moveaxis, (a, axis, -1), {})
    rows = {}
    for i in np.ndindex(*m.shape[:-1]):
        rows[i] = f(m[i], *args, **kw)
    if any(isinstance(r, np.ndarray) and r.ndim for r in rows.values()):
        raise Unsupported('apply_along_axis with arrays')
    return mk([rows[i] for i in np.ndindex(*m.shape[:-1])], m.shape[:-1])


def np_fromfunction(f, shape, dtype=float, **k):
    return f(*[back(x) for x in np.indices(shape, dtype=dtype)], **k)


def np_vdot(a, b):
    return np_dot(NPF.call('ravel', np.ravel, (np_asarray(a),), {}), NPF.call('ravel', np.ravel, (np_asarray(b),), {}))


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2) or keepdims or (ord == 2 and objarr(x).ndim > 1 and axis is None):
        raise Unsupported('norm options')
    q = np_sum(elementwise(UF['multiply'], 'multiply', (x, x)), axis)
    return elementwise(UF['sqrt'], 'sqrt', (q,))


class Linalg:
    norm = staticmethod(np_norm)

    def __getattr__(self, name):
        real = getattr(np.linalg, name)

        def f(*a, **k):
            if has_sym(a) or has_sym(k):
                raise Unsupported('numpy.linalg.' + name)
            return back(real(*typed(a), **typed(k)))
        return f if callable(real) and not isinstance(real, type) else real


class _Concat:
    """np.r_ and np.c_ for 1-d parts"""

    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    raise Unsupported('np.r_')
                k = np_arange(k.start or 0, k.stop, 1 if k.step is None else k.step)
            if isinstance(k, str):
                raise Unsupported('np.r_')
            k = np_asarray(k)
            if k.ndim > 1 or (self.columns and k.ndim != 1):
                raise Unsupported('np.r_/np.c_')
            parts.append(k if k.ndim else k.reshape((1,)))
        if self.columns:
            return NPF.call('column_stack', np.column_stack, (parts,), {})
        return NPF.call('concatenate', np.concatenate, (parts,), {})


def np_where(c, *ab):
    if not ab:
        return tuple(back(i) for i in concrete_mask(c).nonzero())
    a, b = ab
    k = ORDER[max(ORDER.index(kind_any(a)), ORDER.index(kind_any(b)))]

    def f(cc, x, y):
        return coerce(ite(coerce(cc, 'b'), x, y), k)
    arrs = np.broadcast_arrays(objarr(c), objarr(a), objarr(b))
    o = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(*o.shape):
        o[i] = f(arrs[0][i], arrs[1][i], arrs[2][i])
    return wrap(o, k) if o.ndim else o.item()


def np_round(a, decimals=0, **k):
    options(k)
    def f(x):
        x = plain(x)
        if isinstance(x, SymReal):
            r = core.fround(x, decimals or None)
            return coerce(r, 'f')
        if is_sym(x) or isinstance(x, int):
            return x
        return round(x, decimals)
    return elementwise(f, 'floor' if kind_any(a) == 'f' else 'positive', (a,))


def np_clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    options(k)
    a_min = min if a_min is None else a_min
    a_max = max if a_max is None else a_max
    r = a
    if a_min is not None:
        r = elementwise(UF['maximum'], 'maximum', (r, a_min))
    if a_max is not None:
        r = elementwise(UF['minimum'], 'minimum', (r, a_max))
    return _put(r, {'out': out})


def np_argext(a, axis, mx, **k):
    options(k)
    if axis is not None:
        A = np_asarray(a)
        return np_apply_along_axis(lambda r: np_argext(r, None, mx), axis, A) if A.ndim > 1 else np_argext(A, None, mx)
    v = list(objarr(a).ravel())
    if not v:
        raise ValueError('attempt to get argm%s of an empty sequence' % ('ax' if mx else 'in'))
    best = 0
    for i in range(1, len(v)):
        if bool(v[i] > v[best] if mx else v[i] < v[best]):
            best = i
    return best


def _sorted(v):
    r = []
    for x in v:
        j = len(r)
        while j > 0 and bool(x[0] < r[j - 1][0]):
            j -= 1
        r.insert(j, x)
    return r


def np_sort(a, axis=-1, **k):
    o = objarr(a)
    if o.ndim != 1:
        raise Unsupported('sort nd')
    return mk([x[0] for x in _sorted([(e, i) for i, e in enumerate(o)])], o.shape, kind_any(a))


def np_argsort(a, axis=-1, **k):
    o = objarr(a)
    if o.ndim != 1:
        raise Unsupported('sort nd')
    return mk([x[1] for x in _sorted([(e, i) for i, e in enumerate(o)])], o.shape, 'i')


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    if return_index or return_inverse or axis is not None:
        raise Unsupported('unique options')
    if return_counts:
        u = np_unique(a)
        return u, np_array([np_sum(np_asarray(a) == e) for e in u])
    v = _sorted([(e, 0) for e in objarr(a).ravel()])
    r = []
    for x, _ in v:
        if not r or bool(sccmp('!=')(x, r[-1])):
            r.append(x)
    return mk(r, (len(r),), kind_any(a))


def np_dot(a, b):
    A, B = objarr(a), objarr(b)
    k = _rkind('multiply', [kind_any(a), kind_any(b)])
    if A.ndim == 0 or B.ndim == 0:
        return elementwise(sc('*'), 'multiply', (a, b))
    if A.ndim == 1 and B.ndim == 1:
        r = 0
        if A.shape != B.shape:
            raise ValueError('shapes not aligned')
        for x, y in zip(A, B):
            r = sc('+')(r, sc('*')(x, y))
        return r
    if A.ndim == 1 and B.ndim == 2:
        return np_dot(wrap(B.T, kind_any(b)), a)
    if A.ndim == 2 and B.ndim in (1, 2):
        if A.shape[1] != B.shape[0]:
            raise ValueError('shapes not aligned')
        sh = (A.shape[0],) + B.shape[1:]
        o = np.empty(sh, dtype=object)
        for i in np.ndindex(*sh):
            r = coerce(0, k)
            for j in range(A.shape[1]):
                r = sc('+')(r, sc('*')(A[i[0], j], B[(j,) + i[1:]]))
            o[i] = r
        return wrap(o, k)
    raise Unsupported('dot nd')


def np_cumsum(a, axis=None, dtype=None, out=None):
    o = objarr(a)
    k = _rkind('add', [kind_any(a)])
    if axis is None:
        o, axis = o.ravel(), 0
    m = np.moveaxis(o, axis, 0).copy()
    for i in range(1, m.shape[0]):
        for j in np.ndindex(*m.shape[1:]):
            m[(i,) + j] = sc('+')(m[(i - 1,) + j], m[(i,) + j])
    r = np.moveaxis(m, 0, axis)
    return _put(_dtype(asarr(wrap(r, k), k), {'dtype': dtype}), {'out': out})


def np_allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return bool(np_all(np_isclose(a, b, rtol, atol)))


def np_isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    def f(x, y):
        d = abs(sc('-')(x, y))
        return sccmp('<=')(d, sc('+')(atol, sc('*')(rtol, abs(y))))
    return elementwise(f, 'equal', (a, b))


def np_array_equal(a, b, **k):
    A, B = objarr(a), objarr(b)
    return A.shape == B.shape and bool(np_all(elementwise(UF['equal'], 'equal', (a, b)))) \
        if A.shape == B.shape else False


def np_diff(a, n=1, axis=-1, **k):
    a = np_asarray(a)
    options(k)
    if n != 1:
        raise Unsupported('diff n')
    ax = axis % a.ndim
    hi = (slice(None),) * ax + (slice(1, None),)
    lo = (slice(None),) * ax + (slice(None, -1),)
    return a[hi] - a[lo]


def np_real(x):
    f = lambda e: e.re if isinstance(e, SymComplex) else (e.real if isinstance(e, complex) else e)
    o = objarr(x)
    if o.ndim == 0:
        return f(o.item())
    return mk([f(e) for e in o.ravel()], o.shape, 'f')


def np_imag(x):
    f = lambda e: e.im if isinstance(e, SymComplex) else (e.imag if isinstance(e, complex) else 0.0)
    o = objarr(x)
    return mk([f(e) for e in o.ravel()], o.shape, 'f')


def np_count_nonzero(a, axis=None, **k):
    options(k)
    return np_sum(asarr(asarr(a, 'b'), 'i'), axis)


def np_searchsorted(a, v, side='left', sorter=None):
    xs = list(objarr(a).ravel())

    def one(t):
        n = 0
        for x in xs:
            c = sccmp('<')(x, t) if side == 'left' else sccmp('<=')(x, t)
            n = sc('+')(n, ite(c, 1, 0))
        return n
    o = objarr(v)
    return one(o.item()) if o.ndim == 0 else mk([one(t) for t in o.ravel()], o.shape, 'i')


def np_copyto(dst, src, where=True, **k):
    options(k)
    if where is True:
        dst[...] = src
    else:
        dst[...] = np_where(where, src, dst)


def np_nonarr(f):
    return f


FUNCS = {
    'array': np_array, 'asarray': np_asarray, 'ascontiguousarray': np_asarray, 'asanyarray': np_asarray,
    'zeros': np_zeros, 'ones': np_ones, 'empty': np_empty, 'full': np_full,
    'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0), 'full_like': np_full_like,
    'arange': np_arange, 'linspace': np_linspace, 'interp': np_interp, 'meshgrid': np_meshgrid,
    'min': np_min, 'amin': np_min, 'max': np_max, 'amax': np_max, 'sum': np_sum, 'mean': np_mean,
    'average': np_average, 'var': np_var, 'std': np_std, 'any': np_any, 'all': np_all, 'where': np_where, 'nonzero': np_where,
    'round': np_round, 'around': np_round, 'clip': np_clip, 'sort': np_sort, 'argsort': np_argsort,
    'argmin': lambda a, axis=None, **k: np_argext(a, axis, False, **k),
    'argmax': lambda a, axis=None, **k: np_argext(a, axis, True, **k),
    'unique': np_unique, 'dot': np_dot, 'matmul': np_dot, 'cumsum': np_cumsum, 'allclose': np_allclose,
    'isclose': np_isclose, 'array_equal': np_array_equal, 'diff': np_diff, 'real': np_real, 'imag': np_imag,
    'count_nonzero': np_count_nonzero, 'searchsorted': np_searchsorted, 'copyto': np_copyto,
    'copy': lambda a, **k: np_asarray(a).copy(), 'nanmin': np_min, 'nanmax': np_max,
    'prod': np_prod, 'ptp': np_ptp, 'fromiter': np_fromiter, 'isin': np_isin, 'in1d': np_isin, 'select': np_select,
    'choose': np_choose, 'argwhere': np_argwhere, 'flatnonzero': np_flatnonzero, 'cross': np_cross,
    'nan_to_num': np_nan_to_num, 'digitize': np_digitize, 'putmask': np_putmask, 'place': np_putmask,
    'median': np_median, 'ndenumerate': np_ndenumerate, 'vectorize': np_vectorize,
    'apply_along_axis': np_apply_along_axis, 'fromfunction': np_fromfunction, 'vdot': np_vdot,
    'fix': lambda x: elementwise(UF['trunc'], 'trunc', (x,)),
    'isscalar': lambda x: isinstance(x, core.Sym) or np.isscalar(x),
}
# shape manipulation: runs on object arrays, keeps the kind of the first array
STRUCT = {'transpose', 'reshape', 'ravel', 'concatenate', 'stack', 'vstack', 'hstack', 'column_stack',
          'dstack', 'flip', 'flipud', 'fliplr', 'roll', 'rot90', 'squeeze', 'moveaxis', 'swapaxes',
          'expand_dims', 'repeat', 'tile', 'broadcast_to', 'append', 'insert', 'delete', 'split',
          'array_split', 'take', 'diag', 'tril', 'triu', 'ndim', 'shape', 'size', 'rollaxis', 'atleast_1d',
          'atleast_2d', 'atleast_3d', 'broadcast_arrays', 'trim_zeros', 'block', 'outer', 'prod', 'cumprod',
          'trace', 'kron', 'inner', 'einsum', 'pad', 'triu_indices', 'resize', 'fftshift', 'ifftshift'}


class _NPF:
    def call(self, name, real, args, kwargs):
        if name in FUNCS:
            return FUNCS[name](*args, **kwargs)
        if not has_sym(args) and not has_sym(kwargs):
            return back(real(*typed(args), **typed(kwargs)))
        if name in STRUCT:
            kinds = []

            def strip(x):
                if isinstance(x, SArr):
                    kinds.append(x._kind)
                    return x.raw()
                if isinstance(x, (list, tuple)):
                    if has_sym(x) and not any(isinstance(e, np.ndarray) for e in x):
                        o = objarr(x)
                        kinds.append(infer(o.ravel()))
                        return o
                    return type(x)(strip(e) for e in x)
                if isinstance(x, core.Sym):
                    if isinstance(x, SymInt):
                        return x.__index__()
                    return x
                return x
            a = tuple(strip(x) for x in args)
            k = {n: strip(v) for n, v in kwargs.items()}
            r = real(*a, **k)
            kd = ORDER[max([ORDER.index(x) for x in kinds] or [4])]

            def re(x):
                if isinstance(x, np.ndarray):
                    if x.dtype == object:
                        if kd == 'f' and any(isinstance(e, int) for e in x.ravel()):
                            return mk([coerce(e, kd) for e in x.ravel()], x.shape, kd)
                        return wrap(x, kd if kd != 'O' else None) if x.ndim else x.item()
                    return back(x)
                if isinstance(x, (list, tuple)):
                    return type(x)(re(e) for e in x)
                return x
            return re(r)
        raise Unsupported('numpy.' + name)


NPF = _NPF()


class DT:
    """numpy scalar type look-alike"""

    def __init__(self, name):
        self.__name__ = name
        self.real = getattr(np, name)
        self.kind = kind_of(self.real)
        self._shim_kind = self.kind
        self._shim_real = self.real

    def __call__(self, x=0):
        if isinstance(x, (list, tuple, np.ndarray)):
            return np_array(x, dtype=self.real)
        return narrow(coerce(x, self.kind), self.real)

    def __eq__(self, o):
        if isinstance(o, DT):
            return o.real is self.real
        try:
            return np.dtype(self.real) == o or self.real is o
        except TypeError:
            return False

    def __hash__(self):
        return hash(self.real)

    def __instancecheck__(self, x):
        return isinstance(x, self.real)

    def __or__(self, o):
        return self

    __ror__ = __or__


class UFW:
    """ufunc that accepts lists with symbolic entries"""

    def __init__(self, u):
        self.u = u
        self.__name__ = u.__name__

    def __call__(self, *a, **k):
        return handle_ufunc(self.u, '__call__', a, dict(k, out=(k['out'],)) if isinstance(k.get('out'), np.ndarray) else dict(k))

    def reduce(self, a, axis=0, **k):
        return handle_ufunc(self.u, 'reduce', (a,), dict(k, axis=axis))

    def accumulate(self, a, axis=0, **k):
        return handle_ufunc(self.u, 'accumulate', (a,), dict(k, axis=axis))

    def outer(self, a, b, **k):
        return handle_ufunc(self.u, 'outer', (a, b), dict(k))


SCALARS = ('float64', 'float32', 'int32', 'int64', 'bool_', 'int_', 'double', 'intp', 'uint8', 'uint32',
           'int8', 'int16', 'uint64')


class NdMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)


class ndarray(metaclass=NdMeta):
    pass


class Numpy(types.ModuleType):
    """the module object handed to the program for ``import numpy``"""

    def __init__(self, random=None, fft=None):
        super().__init__('numpy')
        self.__dict__['_cache'] = {}
        self.__dict__['random'] = random
        self.__dict__['fft'] = fft if fft is not None else FFT()
        self.__dict__['ndarray'] = ndarray
        self.__dict__['linalg'] = Linalg()
        self.__dict__['r_'] = _Concat(False)
        self.__dict__['c_'] = _Concat(True)
        self.__dict__['typing'] = NPT
        self.__dict__['testing'] = np.testing
        self.__dict__['__path__'] = []
        self.__dict__['__version__'] = np.__version__

    def __getattr__(self, name):
        c = self.__dict__['_cache']
        if name in c:
            return c[name]
        if name in SCALARS:
            r = DT(name)
        else:
            real = getattr(np, name)         # AttributeError as in the real numpy
            if name in FUNCS:
                r = FUNCS[name]
            elif isinstance(real, np.ufunc):
                r = UFW(real)
            elif callable(real) and not isinstance(real, type):
                def r(*a, _real=real, _name=name, **k):
                    return NPF.call(_name, _real, a, k)
            else:
                r = real
        c[name] = r
        return r


class _NPTm(types.ModuleType):
    class _ND:
        def __getitem__(self, k):
            return self
    NDArray = _ND()
    ArrayLike = object
    DTypeLike = object


NPT = _NPTm('numpy.typing')


def zero_out(x):
    """a term that simplifies to zero becomes the number"""
    if is_sym(x):
        t = z3.simplify(core.real_term(x), som=True)
        if z3.is_rational_value(t) and t.numerator_as_long() == 0:
            return 0.0
        return SymReal(t)
    return x


def twiddle(m, n):
    """cos and sin of 2 pi m / n, exactly, for n <= 4"""
    m %= n
    if n in (1, 2, 4):
        q = m * (4 // n)
        return (1, 0, -1, 0)[q], (0, 1, 0, -1)[q]
    h = core.fsqrt(SymReal(z3.RealVal(3))) / 2
    return (1, Fraction(-1, 2), Fraction(-1, 2))[m], (0, h, -h)[m]


class FFT(types.ModuleType):
    """Discrete Fourier transform: exact by definition for axes of length 1 to 4."""

    def __init__(self):
        super().__init__('numpy.fft')

    def _dft(self, name, a, sign, norm):
        if not has_sym(a):
            return back(getattr(np.fft, name)(typed(a)))
        o = objarr(a)
        if any(n > 4 for n in o.shape):
            raise Unsupported('Fourier transform of more than 4 values per axis')
        o = o.copy()
        for ax in range(o.ndim):
            n = o.shape[ax]
            if n == 1:
                continue
            m = np.moveaxis(o, ax, -1)
            r = np.empty(m.shape, dtype=object)
            for idx in np.ndindex(*m.shape[:-1]):
                v = [SymComplex.of(plain(x)) for x in m[idx]]
                for k in range(n):
                    re, im = 0.0, 0.0
                    for j in range(n):
                        c, sn = twiddle(sign * j * k, n)
                        add = sc('+')
                        mul = sc('*')
                        re = add(re, sc('-')(mul(c, v[j].re), mul(sn, v[j].im)))
                        im = add(im, add(mul(c, v[j].im), mul(sn, v[j].re)))
                    if norm:
                        re, im = sc('/')(re, n), sc('/')(im, n)
                    r[idx + (k,)] = SymComplex(zero_out(re), zero_out(im))
            o = np.moveaxis(r, -1, ax)
        return mk(list(o.ravel()), o.shape, 'c')

    def fftn(self, a, *k, **kw):
        if k or kw:
            raise Unsupported('fftn options')
        return self._dft('fftn', a, -1, False)

    def ifftn(self, a, *k, **kw):
        if k or kw:
            raise Unsupported('ifftn options')
        return self._dft('ifftn', a, 1, True)

    fft2, ifft2 = fftn, ifftn

    def fftshift(self, a, axes=None):
        return NPF.call('fftshift', np.fft.fftshift, (a,), {'axes': axes} if axes is not None else {})

    def ifftshift(self, a, axes=None):
        return NPF.call('ifftshift', np.fft.ifftshift, (a,), {'axes': axes} if axes is not None else {})

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise Unsupported('numpy.fft.' + name)
