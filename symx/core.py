"""Symbolic values and path exploration.

The code under verification is executed by the ordinary Python interpreter on
proxy values (SymReal, SymInt, SymBool, SymPick) that build z3 terms.  Whenever
the program needs a concrete truth value or integer, the current path is forked
under solver control and the harness is re-executed with the recorded decision
prefix, so that all feasible paths are explored (depth first).
"""
import math
import time
from fractions import Fraction

import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)
z3.set_param('nlsat.seed', 1)


class Control(BaseException):
    """Engine control flow; never caught by the program under test."""


class PathAbort(Control):
    """The current path is infeasible or was cut by an assumption."""


class Unsupported(Control):
    """The program used something the engine can not execute symbolically."""


class Budget(Control):
    """Time or path budget exhausted."""


# --------------------------------------------------------------------------
# constants
# --------------------------------------------------------------------------

def to_frac(x):
    """Exact reading of a numeric literal: decimals are read as decimals."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0:
        x = x.item()
        if isinstance(x, (bool, int)):
            return Fraction(int(x))
    if isinstance(x, float):
        return Fraction(repr(x))
    raise TypeError(type(x))


def is_num(x):
    if isinstance(x, Sym):
        return False
    if isinstance(x, (int, float, Fraction)):
        return True
    return hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and x.dtype.kind in 'biuf'


def special(x):
    """nan or inf"""
    if isinstance(x, Sym):
        return False
    if isinstance(x, float) or (hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0
                                and x.dtype.kind == 'f'):
        return math.isnan(x) or math.isinf(x)
    return False


def rv(fr):
    return z3.RealVal(str(fr.numerator) + '/' + str(fr.denominator)) \
        if fr.denominator != 1 else z3.RealVal(fr.numerator)


def real_term(x):
    if isinstance(x, SymReal):
        return x.t
    if isinstance(x, SymInt):
        return z3.ToReal(x.t)
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    return rv(to_frac(x))


def int_term(x):
    if isinstance(x, SymInt):
        return x.t
    if isinstance(x, SymBool):
        return z3.If(x.t, z3.IntVal(1), z3.IntVal(0))
    if isinstance(x, (bool, int)):
        return z3.IntVal(int(x))
    f = to_frac(x)
    assert f.denominator == 1
    return z3.IntVal(f.numerator)


def bool_term(x):
    if isinstance(x, SymBool):
        return x.t
    if isinstance(x, (SymReal, SymInt)):
        return x.t != 0
    return z3.BoolVal(bool(x))


def is_sym(x):
    return isinstance(x, (SymReal, SymInt, SymBool))


def is_intlike(x):
    if isinstance(x, (SymInt, SymBool, bool, int)):
        return True
    return hasattr(x, 'dtype') and getattr(x, 'ndim', 1) == 0 and x.dtype.kind in 'biu'


# --------------------------------------------------------------------------
# exploration context
# --------------------------------------------------------------------------

class Stats:
    def __init__(self):
        self.paths = 0
        self.infeasible = 0
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.solver_s = 0.0
        self.fork_unknown = 0


class Ctx:
    cur = None

    def __init__(self, stats, prefix, opts, stack):
        self.stats = stats
        self.prefix = prefix
        self.pos = 0
        self.trail = []
        self.stack = stack
        self.opts = opts
        self.pc = []
        self.solver = z3.Solver()
        self.solver.set('timeout', opts.get('fork_ms', 1500))
        self.inputs = {}          # name -> (kind, term or python value)
        self.order = []
        self.defs = {}            # cache of defined functions
        self.angles = {}
        self.ufs = {}
        self.fresh_n = 0
        self.deadline = opts.get('deadline')
        self.dirty = False
        self.rounding = False

    # -- solver ----------------------------------------------------------
    def add(self, t):
        t = z3.simplify(t)
        if z3.is_true(t):
            return
        if z3.is_false(t):
            raise PathAbort()
        self.pc.append(t)
        self.solver.add(t)
        self.dirty = True

    def _check(self, *extra, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Budget('deadline')
        t0 = time.time()
        if ms is not None:
            self.solver.set('timeout', ms)
        self.solver.push()
        try:
            for e in extra:
                self.solver.add(e)
            r = self.solver.check()
            m = self.solver.model() if r == z3.sat else None
        finally:
            self.solver.pop()
            if ms is not None:
                self.solver.set('timeout', self.opts.get('fork_ms', 1500))
        self.stats.solver_s += time.time() - t0
        self.stats.queries += 1
        if r == z3.sat:
            self.stats.sat += 1
        elif r == z3.unsat:
            self.stats.unsat += 1
        else:
            self.stats.unknown += 1
        return r, m

    def feasible(self, *extra):
        r, _ = self._check(*extra)
        if r == z3.unknown:
            # a fresh, non-incremental solver is often stronger
            r, _ = solve_fresh(self, list(extra), self.opts.get('fork_fresh_ms', 4000))
            if r == z3.unknown:
                from . import relax
                if relax.refuted(self, extra, self.opts.get('fork_fresh_ms', 4000)):
                    return False
                self.stats.fork_unknown += 1
                return True
        return r == z3.sat

    # -- forking ---------------------------------------------------------
    def branch(self, cond):
        """Return a python bool for the z3 condition, forking if needed."""
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.trail.append(d)
            if d[0] == 'f':           # forced: no new information needed
                return d[1]
            self.add(cond if d[1] else z3.Not(cond))
            return d[1]
        if len(self.trail) > self.opts.get('max_decisions', 4000):
            raise Budget('decisions')
        can_t = self.feasible(cond)
        can_f = self.feasible(z3.Not(cond)) if can_t else True
        if can_t and can_f:
            self.stack.append(self.trail + [('b', False)])
            self.trail.append(('b', True))
            self.pos += 1
            self.add(cond)
            return True
        d = ('f', bool(can_t))
        self.trail.append(d)
        self.pos += 1
        if not can_t and not self.feasible():
            raise PathAbort()
        return bool(can_t)

    def concretize(self, term, limit=None, size=None):
        """Fork over the possible values of an integer term."""
        term = z3.simplify(term)
        if z3.is_int_value(term):
            return term.as_long()
        limit = limit or self.opts.get('max_values', 200)
        start = len(self.trail)
        for _ in range(limit):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                self.trail.append(d)
                if d[0] == 'v':
                    if not d[3]:
                        self.add(term == d[1])
                    return d[1]
                assert d[0] == 'n', (d, str(term)[:80])
                self.add(term != d[1])
                continue
            r, m = self._check()
            if r != z3.sat:
                r, m = solve_fresh(self, [], self.opts.get('fork_fresh_ms', 4000))
            if r == z3.unsat:
                raise PathAbort()
            if r != z3.sat:
                v = self._next_value(term, start, size)
                if v is None:
                    raise PathAbort()
                m = None
            else:
                v = m.eval(term, model_completion=True)
            if not z3.is_int_value(v):
                k = self.fresh('i', 'val')
                r, m = solve_fresh(self, [k == term], self.opts.get('fork_fresh_ms', 4000))
                if r == z3.unsat:
                    raise PathAbort()
                if r == z3.sat:
                    v = m.eval(k, model_completion=True)
                if not z3.is_int_value(v):
                    v = self._next_value(term, start, size)
                    if v is None:
                        raise PathAbort()
            if not z3.is_int_value(v):
                raise Unsupported('can not enumerate integer')
            v = v.as_long()
            only = not self.feasible(term != v)
            if not only:
                self.stack.append(self.trail + [('n', v)])
            self.trail.append(('v', v, None, only))
            self.pos += 1
            if not only:
                self.add(term == v)
            return v
        raise Unsupported('too many values for an integer')

    def _next_value(self, term, start, size):
        """a further value of an integer term that general queries do not decide

        Values within the size of the indexed dimension are tried one by one and
        taken if they can not be refuted; outside of it a solution is needed."""
        from . import relax
        seen = sorted(d[1] for d in self.trail[start:] if d[0] == 'n')
        ms = self.opts.get('fork_fresh_ms', 4000)
        if size is not None:
            inside = [v for v in range(-size, size) if v not in seen]
            lo, hi = -size, size - 1
        elif seen:
            inside = []
            lo, hi = seen[0], seen[-1]
        else:
            # no hint: the smallest range that covers all values
            for hi in (2, 8, 32, 128):
                if relax.refuted(self, [term >= hi + 1], ms):
                    break
            else:
                raise Unsupported('can not enumerate integer')
            for lo in (0, -8, -128):
                if relax.refuted(self, [term <= lo - 1], ms):
                    break
            else:
                raise Unsupported('can not enumerate integer')
            inside = list(range(lo, hi + 1))
        if seen:
            lo, hi = min(lo, seen[0]), max(hi, seen[-1])
        for g in [term <= lo - 1, term >= hi + 1] + [term == v for v in range(lo, hi) if v not in seen
                                                     and v not in inside]:
            if relax.refuted(self, [g], ms):
                continue
            k = self.fresh('i', 'val')
            r, m = solve_fresh(self, [g, k == term], ms)
            if r == z3.unsat:
                continue
            if r == z3.sat:
                return m.eval(k, model_completion=True)
            raise Unsupported('can not enumerate integer')
        if inside and inside[0] < 0 and relax.refuted(self, [term <= -1], ms):
            inside = [v for v in inside if v >= 0]
        for v in inside:
            if not relax.refuted(self, [term == v], ms):
                return z3.IntVal(v)
        return None

    # -- fresh variables ---------------------------------------------------
    def fresh(self, sort, hint):
        self.fresh_n += 1
        name = '%s!%d' % (hint, self.fresh_n)
        return z3.Real(name) if sort == 'r' else (z3.Int(name) if sort == 'i' else z3.Bool(name))


def solve_fresh(ctx, extra, ms, tactic=None):
    t0 = time.time()
    if tactic:
        s = z3.SolverFor(tactic)
    else:
        s = z3.Solver()
    s.set('timeout', ms)
    for p in ctx.pc:
        s.add(p)
    for e in extra:
        s.add(e)
    r = s.check()
    m = s.model() if r == z3.sat else None
    ctx.stats.solver_s += time.time() - t0
    ctx.stats.queries += 1
    if r == z3.sat:
        ctx.stats.sat += 1
    elif r == z3.unsat:
        ctx.stats.unsat += 1
    else:
        ctx.stats.unknown += 1
    return r, m


def cur():
    c = Ctx.cur
    if c is None:
        raise Unsupported('no symbolic context')
    return c


# --------------------------------------------------------------------------
# proxies
# --------------------------------------------------------------------------

class Sym:
    __slots__ = ()
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import npshim
        return npshim.handle_ufunc(ufunc, method, inputs, kw)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.t)[:60])

    __str__ = __repr__

    def __format__(self, spec):
        return '<sym>'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    # numpy scalar look-alikes
    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def item(self):
        return self

    def copy(self):
        return self

    def astype(self, dt, *a, **k):
        from . import npshim
        return npshim.coerce(self, npshim.kind_of(dt))

    def conjugate(self):
        return self


def _cmp(op):
    def f(self, other):
        return compare(op, self, other)
    return f


def compare(op, a, b):
    from . import npshim
    if isinstance(a, npshim.SArr) or isinstance(b, npshim.SArr):
        return NotImplemented
    for x in (a, b):
        if not (is_sym(x) or is_num(x)):
            if hasattr(x, '__array__') and getattr(x, 'ndim', 0) > 0:
                return NotImplemented
            if op == '==':
                return False
            if op == '!=':
                return True
            return NotImplemented
    for x, y, sw in ((a, b, False), (b, a, True)):
        if special(y):
            y = float(y)
            if math.isnan(y):
                return op == '!='
            big = y > 0
            if op == '==':
                return False
            if op == '!=':
                return True
            less = big if not sw else (not big)
            return less if op in ('<', '<=') else (not less)
    if is_intlike(a) and is_intlike(b):
        x, y = int_term(a), int_term(b)
    else:
        x, y = real_term(a), real_term(b)
    t = {'<': lambda: x < y, '<=': lambda: x <= y, '>': lambda: x > y,
         '>=': lambda: x >= y, '==': lambda: x == y, '!=': lambda: x != y}[op]()
    return mkbool(t)


def mkbool(t):
    t = z3.simplify(t)
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return SymBool(t)


def mkreal(t):
    return SymReal(t)


def _zero_test(b):
    """Truth of b == 0, forking."""
    return cur().branch(real_term(b) == 0)


def ieee_div0(a):
    if is_sym(a):
        t = real_term(a)
        if cur().branch(t > 0):
            return math.inf
        if cur().branch(t < 0):
            return -math.inf
        return math.nan
    a = float(a)
    return math.nan if a == 0 or math.isnan(a) else math.copysign(math.inf, a)


def arith(op, a, b, ieee=None):
    """Binary arithmetic on scalars (at least one of them symbolic)."""
    for x in (a, b):
        if isinstance(x, complex):
            from .npshim import SymComplex
            return SymComplex.of(a)._op(op, SymComplex.of(b))
        if not (is_sym(x) or is_num(x)):
            return NotImplemented
    if special(a) or special(b):
        return _special_arith(op, a, b)
    ii = is_intlike(a) and is_intlike(b)
    if op in '+-*':
        if op == '*':
            for x in (a, b):
                if not is_sym(x) and to_frac(x) == 0:
                    return 0 if ii else 0.0
        if ii:
            x, y = int_term(a), int_term(b)
            r = x + y if op == '+' else x - y if op == '-' else x * y
            return SymInt(z3.simplify(r))
        x, y = real_term(a), real_term(b)
        r = x + y if op == '+' else x - y if op == '-' else x * y
        return SymReal(z3.simplify(r))
    if op == '/':
        if ieee is None:
            ieee = cur().opts.get('ieee_div', False)
        if is_sym(b):
            if _zero_test(b):
                if ieee:
                    return ieee_div0(a)
                raise ZeroDivisionError('division by zero')
        elif to_frac(b) == 0:
            if ieee:
                return ieee_div0(a)
            raise ZeroDivisionError('division by zero')
        if not is_sym(a) and to_frac(a) == 0:
            return 0.0
        return SymReal(z3.simplify(real_term(a) / real_term(b)))
    if op in ('//', '%'):
        if (is_sym(b) and _zero_test(b)) or (not is_sym(b) and to_frac(b) == 0):
            raise ZeroDivisionError('integer division or modulo by zero')
        if ii:
            x, y = int_term(a), int_term(b)
            # z3 div rounds so that the remainder is non-negative
            if not is_sym(b):
                q = x / y if int(b) > 0 else (-x) / (-y)
            else:
                q = z3.If(y > 0, x / y, (-x) / (-y))
            q = z3.simplify(q)
            if op == '//':
                return SymInt(q)
            return SymInt(z3.simplify(x - y * q))
        x, y = real_term(a), real_term(b)
        q = z3.ToReal(z3.ToInt(x / y))
        if op == '//':
            return SymReal(z3.simplify(q))
        return SymReal(z3.simplify(x - y * q))
    if op == '**':
        return power(a, b)
    raise Unsupported(op)


def _special_arith(op, a, b):
    def f(x):
        return float(x) if not is_sym(x) else None
    fa, fb = f(a), f(b)
    if (fa is not None and math.isnan(fa)) or (fb is not None and math.isnan(fb)):
        return math.nan
    if op == '+':
        return fa if fb is None else fb
    if op == '-':
        return fa if fb is None else -fb
    if op == '*':
        inf, s = (fa, b) if fb is None else (fb, a)
        if not is_sym(s):
            return inf * float(s)
        t = real_term(s)
        if cur().branch(t > 0):
            return inf
        if cur().branch(t < 0):
            return -inf
        return math.nan
    if op == '/':
        if fb is not None and math.isinf(fb):
            return 0.0
        t = real_term(b)
        if cur().branch(t > 0):
            return fa
        if cur().branch(t < 0):
            return -fa
        raise ZeroDivisionError
    raise Unsupported('inf ' + op)


def power(a, b):
    if is_sym(b):
        if isinstance(b, SymInt):
            b = cur().concretize(b.t)
        else:
            raise Unsupported('symbolic exponent')
    fb = to_frac(b)
    if fb == Fraction(1, 2):
        return fsqrt(a)
    if fb.denominator != 1:
        raise Unsupported('fractional exponent')
    n = int(fb)
    if n < 0:
        return arith('/', 1, power(a, -n))
    if n == 0:
        return 1 if is_intlike(a) and is_intlike(b) else 1.0
    r = a
    for _ in range(n - 1):
        r = r * a
    if not is_intlike(b) and isinstance(r, SymInt):
        r = SymReal(z3.ToReal(r.t))
    return r


def _bin(op, rev=False):
    def f(self, other):
        from . import npshim
        if isinstance(other, npshim.SArr):
            return NotImplemented
        if hasattr(other, '__array__') and getattr(other, 'ndim', 0) > 0:
            return npshim.ew2(op, other, self) if rev else npshim.ew2(op, self, other)
        return arith(op, other, self) if rev else arith(op, self, other)
    return f


class SymReal(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')
    __add__ = _bin('+')
    __radd__ = _bin('+', True)
    __sub__ = _bin('-')
    __rsub__ = _bin('-', True)
    __mul__ = _bin('*')
    __rmul__ = _bin('*', True)
    __truediv__ = _bin('/')
    __rtruediv__ = _bin('/', True)
    __floordiv__ = _bin('//')
    __rfloordiv__ = _bin('//', True)
    __mod__ = _bin('%')
    __rmod__ = _bin('%', True)
    __pow__ = _bin('**')
    __rpow__ = _bin('**', True)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return SymReal(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymReal(z3.simplify(z3.If(self.t >= 0, self.t, -self.t)))

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        # one bucket for every symbolic real: a dictionary or a set then decides by
        # ==, which splits the path, instead of by identity
        return 0x5ea1

    def __int__(self):
        raise Unsupported('int() of a symbolic value in native code')

    def __float__(self):
        raise Unsupported('float() of a symbolic value in native code')

    def __round__(self, n=None):
        return fround(self, n)

    def __trunc__(self):
        return ftrunc(self)

    def __floor__(self):
        return ffloor(self)

    def __ceil__(self):
        return fceil(self)

    def is_integer(self):
        return mkbool(z3.IsInt(self.t))

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0.0

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('float64')


class SymInt(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')
    __eq__ = _cmp('==')
    __ne__ = _cmp('!=')
    __add__ = _bin('+')
    __radd__ = _bin('+', True)
    __sub__ = _bin('-')
    __rsub__ = _bin('-', True)
    __truediv__ = _bin('/')
    __rtruediv__ = _bin('/', True)
    __floordiv__ = _bin('//')
    __rfloordiv__ = _bin('//', True)
    __mod__ = _bin('%')
    __rmod__ = _bin('%', True)
    __pow__ = _bin('**')
    __rpow__ = _bin('**', True)

    def __mul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return _bin('*')(self, o)

    def __rmul__(self, o):
        if isinstance(o, (list, tuple, str)):
            return o * self.__index__()
        return _bin('*', True)(self, o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __neg__(self):
        return SymInt(z3.simplify(-self.t))

    def __pos__(self):
        return self

    def __abs__(self):
        return SymInt(z3.simplify(z3.If(self.t >= 0, self.t, -self.t)))

    def __bool__(self):
        return cur().branch(self.t != 0)

    def __hash__(self):
        return hash(self.__index__())

    def __index__(self):
        return cur().concretize(self.t)

    __int__ = __index__

    def __float__(self):
        raise Unsupported('float() of a symbolic value in native code')

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __and__(self, o):
        return self.__index__() & o

    __rand__ = __and__

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('int64')


class SymBool(Sym):
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    __lt__ = _cmp('<')
    __le__ = _cmp('<=')
    __gt__ = _cmp('>')
    __ge__ = _cmp('>=')

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ('bool', 'bool_'):
            return mkbool(self.t == bool_term(o))
        return compare('==', self, o)

    def __ne__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ('bool', 'bool_'):
            return mkbool(self.t != bool_term(o))
        return compare('!=', self, o)

    def __hash__(self):
        return hash(bool(self))

    def __bool__(self):
        return cur().branch(self.t)

    def __and__(self, o):
        if not isinstance(o, (bool, SymBool)) and not type(o).__name__ in ('bool', 'bool_'):
            return NotImplemented
        return mkbool(z3.And(self.t, bool_term(o)))

    __rand__ = __and__

    def __or__(self, o):
        if not isinstance(o, (bool, SymBool)) and not type(o).__name__ in ('bool', 'bool_'):
            return NotImplemented
        return mkbool(z3.Or(self.t, bool_term(o)))

    __ror__ = __or__

    def __xor__(self, o):
        if not isinstance(o, (bool, SymBool)) and not type(o).__name__ in ('bool', 'bool_'):
            return NotImplemented
        return mkbool(z3.Xor(self.t, bool_term(o)))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.t))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    __add__ = _bin('+')
    __radd__ = _bin('+', True)
    __sub__ = _bin('-')
    __rsub__ = _bin('-', True)
    __mul__ = _bin('*')
    __rmul__ = _bin('*', True)
    __truediv__ = _bin('/')
    __rtruediv__ = _bin('/', True)

    def __neg__(self):
        return SymInt(-int_term(self))

    def __abs__(self):
        return SymInt(int_term(self))

    @property
    def dtype(self):
        import numpy
        return numpy.dtype('bool')


# --------------------------------------------------------------------------
# functions
# --------------------------------------------------------------------------

def ite(c, a, b):
    """If-then-else without forking where that is possible."""
    if not isinstance(c, SymBool):
        return a if c else b
    if a is b:
        return a
    ok = lambda x: (is_sym(x) or is_num(x)) and not special(x)
    if ok(a) and ok(b):
        isb = lambda x: isinstance(x, (bool, SymBool)) or type(x).__name__ in ('bool_',)
        if isb(a) and isb(b):
            return mkbool(z3.If(c.t, bool_term(a), bool_term(b)))
        if is_intlike(a) and is_intlike(b):
            return wrap_int(z3.If(c.t, int_term(a), int_term(b)))
        return wrap_real(z3.If(c.t, real_term(a), real_term(b)))
    return a if bool(c) else b


def wrap_real(t):
    return SymReal(z3.simplify(t))


def wrap_int(t):
    t = z3.simplify(t)
    if z3.is_int_value(t):
        return t.as_long()
    return SymInt(t)


def as_value(t):
    """Plain python value of a constant term, or the proxy."""
    if z3.is_int_value(t):
        return t.as_long()
    return t


def fsqrt(x):
    if not is_sym(x):
        return math.sqrt(x)
    c = cur()
    t = z3.simplify(real_term(x), som=True)
    k = ('sqrt', t.get_id())
    if k in c.defs:
        return c.defs[k][1]
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        if f >= 0:
            import math as m
            p, q = m.isqrt(f.numerator), m.isqrt(f.denominator)
            if p * p == f.numerator and q * q == f.denominator:
                return SymReal(rv(Fraction(p, q)))
    if c.branch(t < 0):
        return math.nan
    r = c.fresh('r', 'sqrt')
    c.add(r >= 0)
    c.add(r * r == t)
    out = SymReal(r)
    c.defs[k] = (t, out)
    return out


def ffloor(x):
    if is_intlike(x):
        return x if is_sym(x) else int(x)
    if not is_sym(x):
        return math.floor(x)
    return wrap_int(_toint(x.t))


def _toint(t):
    """floor as an integer; rational multiples are purified for the solver"""
    return z3.ToInt(t)


def fceil(x):
    if is_intlike(x):
        return x if is_sym(x) else int(x)
    if not is_sym(x):
        return math.ceil(x)
    return wrap_int(-_toint(-x.t))


def ftrunc(x):
    if is_intlike(x):
        return x if is_sym(x) and not isinstance(x, SymBool) else \
            (SymInt(int_term(x)) if is_sym(x) else int(x))
    if not is_sym(x):
        return int(x)
    return wrap_int(z3.If(x.t >= 0, _toint(x.t), -_toint(-x.t)))


def fround(x, n=None):
    if not is_sym(x):
        return round(x, n) if n is not None else round(x)
    if isinstance(x, (SymInt, SymBool)):
        return x
    if n:
        s = 10 ** n
        return arith('/', fround(x * s) * 1.0, s)
    t = x.t
    fl = _toint(t)
    d = t - z3.ToReal(fl)
    half = rv(Fraction(1, 2))
    r = z3.If(d < half, fl, z3.If(d > half, fl + 1, z3.If(fl % 2 == 0, fl, fl + 1)))
    r = wrap_int(r)
    if n is not None and not isinstance(r, int):
        return SymReal(z3.ToReal(r.t))
    return r


def fsign(x):
    if not is_sym(x):
        return (x > 0) - (x < 0)
    t = real_term(x)
    return wrap_real(z3.If(t > 0, z3.RealVal(1), z3.If(t < 0, z3.RealVal(-1), z3.RealVal(0))))


def fmax(a, b):
    for x in (a, b):
        if special(x) and math.isnan(float(x)):
            return x
    c = a >= b
    return ite(c, a, b)


def fmin(a, b):
    for x in (a, b):
        if special(x) and math.isnan(float(x)):
            return x
    c = a <= b
    return ite(c, a, b)


# trigonometric functions ----------------------------------------------------

def _lin(t, k, out):
    """t = sum of coefficient * atom; accumulate into out[key] = [coef, atom]."""
    if z3.is_rational_value(t):
        out.setdefault('1', [Fraction(0), None])
        out['1'][0] += k * Fraction(t.numerator_as_long(), t.denominator_as_long())
        return
    if z3.is_add(t):
        for c in t.children():
            _lin(c, k, out)
        return
    if z3.is_sub(t):
        cs = t.children()
        _lin(cs[0], k, out)
        for c in cs[1:]:
            _lin(c, -k, out)
        return
    if t.decl().kind() == z3.Z3_OP_UMINUS:
        _lin(t.children()[0], -k, out)
        return
    if z3.is_mul(t):
        cs = t.children()
        nums = [c for c in cs if z3.is_rational_value(c)]
        rest = [c for c in cs if not z3.is_rational_value(c)]
        for c in nums:
            k = k * Fraction(c.numerator_as_long(), c.denominator_as_long())
        if len(rest) == 1:
            _lin(rest[0], k, out)
            return
        if rest and nums:
            r = rest[0]
            for c in rest[1:]:
                r = r * c
            t = z3.simplify(r)
    if t.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(t.children()[1]):
        d = t.children()[1]
        _lin(t.children()[0], k / Fraction(d.numerator_as_long(), d.denominator_as_long()), out)
        return
    key = t.get_id()
    out.setdefault(key, [Fraction(0), t])
    out[key][0] += k


def _find_ite(t):
    todo, seen = [t], set()
    while todo:
        u = todo.pop()
        if u.get_id() in seen:
            continue
        seen.add(u.get_id())
        if z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE:
            return u
        todo.extend(u.children())
    return None


def _split_ites(t):
    """decide (by forking) the conditions inside a term"""
    for _ in range(32):
        u = _find_ite(t)
        if u is None:
            break
        cond = u.arg(0)
        b = bool(mkbool(cond))
        t = z3.simplify(z3.substitute(t, (cond, z3.BoolVal(b))), som=True)
    return t


def sincos(x):
    """(sin x, cos x) as real terms, using the angle addition theorems."""
    c = cur()
    t = _split_ites(z3.simplify(real_term(x), som=True))
    parts = {}
    _lin(t, Fraction(1), parts)
    s, co = z3.RealVal(0), z3.RealVal(1)
    for key, (coef, atom) in sorted(parts.items(), key=lambda kv: str(kv[0])):
        if coef == 0:
            continue
        if atom is None:
            v = float(coef)
            q = v / (math.pi / 2)
            if abs(q - round(q)) < 1e-9:
                ps = rv(Fraction([0, 1, 0, -1][round(q) % 4]))
                pc = rv(Fraction([1, 0, -1, 0][round(q) % 4]))
            else:
                ps, pc = rv(Fraction(repr(math.sin(v)))), rv(Fraction(repr(math.cos(v))))
        else:
            ps, pc = _base_sincos(c, key, atom, coef)
        s, co = z3.simplify(s * pc + co * ps), z3.simplify(co * pc - s * ps)
    return s, co


def _base_sincos(c, key, atom, coef):
    sgn = 1
    if coef < 0:
        sgn, coef = -1, -coef
    bases = c.angles.setdefault(key, [])
    for (b, s, co) in bases:
        q = float(coef / b)
        n = round(q)
        if 1 <= n <= 6 and abs(q - n) < 1e-9:
            rs, rc = s, co
            for _ in range(n - 1):
                rs, rc = rs * co + rc * s, rc * co - rs * s
            return (sgn * rs if sgn > 0 else -rs), rc
    s, co = c.fresh('r', 'sin'), c.fresh('r', 'cos')
    c.add(s * s + co * co == 1)
    c.add(z3.And(s >= -1, s <= 1, co >= -1, co <= 1))
    # relation to zero angle
    c.add(z3.Implies(atom == 0, z3.And(s == 0, co == 1)))
    bases.append((coef, s, co))
    c.keep = getattr(c, 'keep', [])
    c.keep.append(atom)
    return (s if sgn > 0 else -s), co


def fsin(x):
    return SymReal(sincos(x)[0]) if is_sym(x) else math.sin(x)


def fcos(x):
    return SymReal(sincos(x)[1]) if is_sym(x) else math.cos(x)


def ftan(x):
    if not is_sym(x):
        return math.tan(x)
    s, c = sincos(x)
    return arith('/', SymReal(s), SymReal(c))


UF_MONO = {'exp': 1, 'log': 1, 'arctan': 1, 'arcsin': 1, 'arccos': -1, 'log10': 1, 'sinh': 1}
PI = Fraction(repr(math.pi))


def uf(name, *xs):
    """A deterministic real function known only by a few axioms."""
    import numpy
    if not any(is_sym(x) for x in xs):
        return float(getattr(numpy, name)(*xs))
    c = cur()
    ts = [z3.simplify(real_term(x), som=True) for x in xs]
    tab = c.ufs.setdefault(name, [])
    for (us, v) in tab:
        if all(a.eq(b) for a, b in zip(us, ts)):
            return SymReal(v)
    v = c.fresh('r', name)
    for (us, w) in tab:
        c.add(z3.Implies(z3.And(*[a == b for a, b in zip(us, ts)]), v == w))
        if name in UF_MONO:
            if UF_MONO[name] > 0:
                c.add(z3.And(z3.Implies(us[0] < ts[0], w < v), z3.Implies(us[0] > ts[0], w > v)))
            else:
                c.add(z3.And(z3.Implies(us[0] < ts[0], w > v), z3.Implies(us[0] > ts[0], w < v)))
    t = ts[0]
    pi = rv(PI)
    if name == 'exp':
        c.add(v > 0)
        c.add(z3.And(z3.Implies(t == 0, v == 1), z3.Implies(t > 0, v > 1), z3.Implies(t < 0, v < 1)))
    elif name == 'log':
        c.add(z3.And(z3.Implies(t == 1, v == 0), z3.Implies(t > 1, v > 0), z3.Implies(t < 1, v < 0)))
    elif name == 'arctan':
        c.add(z3.And(v > -pi / 2, v < pi / 2, z3.Implies(t == 0, v == 0),
                     z3.Implies(t > 0, v > 0), z3.Implies(t < 0, v < 0)))
    elif name == 'arcsin':
        c.add(z3.And(v >= -pi / 2, v <= pi / 2, z3.Implies(t == 0, v == 0),
                     z3.Implies(t > 0, v > 0), z3.Implies(t < 0, v < 0)))
    elif name == 'arccos':
        c.add(z3.And(v >= 0, v <= pi, z3.Implies(t == 1, v == 0), z3.Implies(t == 0, v == pi / 2),
                     z3.Implies(t > 0, v < pi / 2), z3.Implies(t < 0, v > pi / 2), z3.Implies(t < 1, v > 0)))
    elif name == 'arctan2':
        c.add(z3.And(v >= -pi, v <= pi))
    tab.append((ts, v))
    _inverse_trig(c, name, ts, v)
    return SymReal(v)


def single(x):
    """x in single precision: numbers k + 1/10 change, all others are taken as exact"""
    c = cur()
    t = z3.simplify(x.t, som=True)
    tab = c.ufs.setdefault('single', [])
    for (u, v) in tab:
        if u.eq(t):
            return SymReal(v)
    v = c.fresh('r', 'single')
    tenth = rv(Fraction(1, 10))
    off = rv(Fraction(1, 10 ** 9))
    c.add(z3.Or(v == t, z3.And(z3.IsInt(t - tenth), v == t + off)))
    tab.append((t, v))
    return SymReal(v)


def _inverse_trig(c, name, ts, v):
    """sin and cos of the value of an inverse trigonometric function"""
    if name not in ('arccos', 'arcsin', 'arctan', 'arctan2'):
        return
    t = ts[0]
    s, co = c.fresh('r', 'sin'), c.fresh('r', 'cos')
    if name == 'arccos':
        c.add(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(s >= 0, co == t, s * s + co * co == 1)))
    elif name == 'arcsin':
        c.add(z3.Implies(z3.And(t >= -1, t <= 1), z3.And(co >= 0, s == t, s * s + co * co == 1)))
    elif name == 'arctan':
        c.add(z3.And(co > 0, s == t * co, s * s + co * co == 1))
    else:
        y, x = ts
        r = c.fresh('r', 'hyp')
        c.add(z3.And(r >= 0, r * r == x * x + y * y, s * s + co * co == 1,
                     z3.If(r > 0, z3.And(s * r == y, co * r == x), z3.And(s == 0, co == 1))))
    c.angles.setdefault(v.get_id(), []).append((Fraction(1), s, co))
    c.keep = getattr(c, 'keep', [])
    c.keep.append(v)


class SymPick:
    """One of finitely many concrete python values (strings mostly).

    Comparisons stay symbolic; anything else picks a value by forking."""
    __slots__ = ('opts', 't', 'val', 'done')

    def __init__(self, opts, t):
        self.opts, self.t, self.val, self.done = list(opts), t, None, False

    def get(self):
        if not self.done:
            self.val = self.opts[cur().concretize(self.t)]
            self.done = True
        return self.val

    def __eq__(self, o):
        if isinstance(o, SymPick):
            o = o.get()
        if self.done:
            return self.val == o
        ts = [self.t == i for i, v in enumerate(self.opts) if v == o]
        return mkbool(z3.Or(*ts)) if ts else False

    def __ne__(self, o):
        e = self.__eq__(o)
        return (not e) if isinstance(e, bool) else ~e

    def __hash__(self):
        return hash(self.get())

    def __str__(self):
        return str(self.get())

    def __repr__(self):
        return repr(self.get())

    def __format__(self, s):
        return format(self.get(), s)

    def __bool__(self):
        return bool(self.get())

    def __len__(self):
        return len(self.get())

    def __iter__(self):
        return iter(self.get())

    def __getitem__(self, i):
        return self.get()[i]

    def __contains__(self, x):
        return x in self.get()

    def __add__(self, o):
        return self.get() + o

    def __radd__(self, o):
        return o + self.get()

    def __fspath__(self):
        return self.get()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return getattr(self.get(), name)
