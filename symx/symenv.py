"""Symbolic side of the harness API, path exploration and obligation discharge."""
import json
import math
import os
import sys
import signal
import time
import traceback
from fractions import Fraction

import z3

from . import core, npshim, loader, relax
from .core import (Ctx, Stats, PathAbort, Unsupported, Budget, Control, SymReal, SymInt, SymBool,
                   SymPick, is_sym, is_num, solve_fresh, mkbool, special)

EXACT, TOL, MARGIN = 'exact', 'tol', 'margin'


class Rng:
    """np.random as an oracle: every draw is an input constrained by the contract of its
    distribution's support."""

    def __init__(self, env):
        self._env = env
        self.n = 0
        self.log = {}
        self.script = None

    def _name(self, what):
        self.n += 1
        return 'rng%03d_%s' % (self.n, what)

    def _many(self, size, f):
        if size is None:
            return f()
        sh = npshim.shp(size)
        tot = 1
        for s in sh:
            tot *= s
        return npshim.mk([f() for _ in range(tot)], sh, None)

    def uniform(self, low=0.0, high=1.0, size=None):
        def f():
            if not is_sym(low) and not is_sym(high) and low == high:
                self._name('u')
                self.log.setdefault('u', []).append(low)
                self.log.setdefault('ur', []).append((low, high, low))
                return npshim.coerce(low, 'f')
            c = core.cur()
            x = self._env._draw(self._name('u'), 'r')
            l, h = npshim.coerce(low, 'f'), npshim.coerce(high, 'f')
            lt, ht = core.real_term(l), core.real_term(h)
            # [low, high) ; numpy also accepts low >= high
            c.add(z3.Or(z3.And(lt < ht, x >= lt, x < ht), z3.And(lt == ht, x == lt),
                        z3.And(lt > ht, x <= lt, x > ht)))
            self.log.setdefault('u', []).append(SymReal(x))
            self.log.setdefault('ur', []).append((l, h, SymReal(x)))
            return SymReal(x)
        return self._many(size, f)

    def random(self, size=None):
        return self.uniform(0.0, 1.0, size)

    random_sample = sample = ranf = random

    def rand(self, *sh):
        return self.uniform(0.0, 1.0, sh if sh else None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        def f():
            s = npshim.coerce(scale, 'f')
            if bool(npshim.sccmp('<')(s, 0)):
                raise ValueError('scale < 0')
            if self.script is not None:
                return npshim.sc('+')(loc, npshim.sc('*')(s, self.script.pop(0)))
            # any finite value is possible for scale > 0: loc + scale * g
            g = SymReal(self._env._draw(self._name('g'), 'r'))
            self.log.setdefault('g', []).append(g)
            b = self._env.opts.get('normal_bound')
            if b is not None:
                core.cur().add(z3.And(g.t >= -b, g.t <= b))
            return npshim.sc('+')(loc, npshim.sc('*')(s, g))
        return self._many(size, f)

    def randn(self, *sh):
        return self.normal(0.0, 1.0, sh if sh else None)

    standard_normal = normal

    def poisson(self, lam=1.0, size=None):
        def f():
            if bool(npshim.sccmp('<')(lam, 0)):
                raise ValueError('lam < 0 or lam is NaN')
            x = self._env._draw(self._name('p'), 'i')
            c = core.cur()
            c.add(z3.And(x >= self._env.opts.get('poisson_min', 0), x <= self._env.opts.get('poisson_max', 2)))
            c.add(z3.Implies(core.real_term(lam) == 0, x == 0))
            self.log.setdefault('p', []).append((lam, SymInt(x)))
            return SymInt(x)
        return self._many(size, f)

    def randint(self, low, high=None, size=None, dtype=None):
        def f():
            l, h = (0, low) if high is None else (low, high)
            x = self._env._draw(self._name('i'), 'i')
            core.cur().add(z3.And(x >= core.int_term(l), x < core.int_term(h)))
            return SymInt(x)
        return self._many(size, f)

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, SymInt):
            a = a.__index__()
        items = list(range(a)) if isinstance(a, int) else list(a)
        if not items:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        ps = None
        if p is not None:
            ps = [npshim.plain(x) for x in npshim.objarr(p).ravel()]
            if len(ps) != len(items):
                raise ValueError("'a' and 'p' must have same size")
            s = ps[0]
            for x in ps[1:]:
                s = npshim.sc('+')(s, x)
            if any(bool(npshim.sccmp('<')(x, 0)) for x in ps):
                raise ValueError('probabilities are not non-negative')
            if bool(npshim.sccmp('>')(abs(npshim.sc('-')(s, 1)), 1e-8)):
                raise ValueError('probabilities do not sum to 1')

        def f():
            k = self._env._draw(self._name('c'), 'i')
            c = core.cur()
            c.add(z3.And(k >= 0, k < len(items)))
            if ps is not None:
                for i, x in enumerate(ps):
                    c.add(z3.Implies(k == i, core.real_term(x) > 0))
            if all(is_num(x) and not special(x) or is_sym(x) for x in items):
                r = items[-1]
                for i in range(len(items) - 2, -1, -1):
                    r = core.ite(mkbool(k == i), items[i], r)
                return r
            return items[c.concretize(k)]
        return self._many(size, f)

    def permutation(self, a):
        items = list(range(a)) if isinstance(a, int) else list(a)
        out = []
        while items:
            x = self._env._draw(self._name('q'), 'i')
            core.cur().add(z3.And(x >= 0, x < len(items)))
            out.append(items.pop(core.cur().concretize(x)))
        return npshim.asarr(out)

    def seed(self, *a):
        pass

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('np.random.' + n)


class Obl:
    __slots__ = ('label', 'exact', 'tol', 'margin', 'vals')

    def __init__(self, label, exact, tol=None, margin=None, vals=None):
        self.label, self.exact, self.tol, self.margin, self.vals = label, exact, tol, margin, vals


class Env:
    symbolic = True

    def __init__(self, opts):
        self.opts = opts
        self.inputs = []         # (name, kind, term, lo, hi)
        self.names = set()
        self.obls = []
        self.labels = {}
        self.rng = Rng(self)
        self.ld = None
        self.overrides = {}
        loader.Atoms.reset()
        self.cleanup = []

    # -- inputs -------------------------------------------------------------
    def _draw(self, name, kind, lo=None, hi=None):
        assert name not in self.names, name
        self.names.add(name)
        t = z3.Real(name) if kind == 'r' else z3.Int(name) if kind == 'i' else z3.Bool(name)
        self.inputs.append((name, kind, t, lo, hi))
        return t

    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        t = self._draw(name, 'r', lo if lo is not None else gt, hi if hi is not None else lt)
        c = core.cur()
        if lo is not None:
            c.add(t >= core.rv(core.to_frac(lo)))
        if hi is not None:
            c.add(t <= core.rv(core.to_frac(hi)))
        if gt is not None:
            c.add(t > core.rv(core.to_frac(gt)))
        if lt is not None:
            c.add(t < core.rv(core.to_frac(lt)))
        return SymReal(t)

    def int(self, name, lo, hi):
        t = self._draw(name, 'i', lo, hi)
        core.cur().add(z3.And(t >= lo, t <= hi))
        return SymInt(t)

    def bool(self, name):
        return SymBool(self._draw(name, 'b'))

    def pick(self, name, options):
        """one of several concrete values, chosen by forking"""
        t = self._draw(name, 'i', 0, len(options) - 1)
        core.cur().add(z3.And(t >= 0, t < len(options)))
        return options[core.cur().concretize(t)]

    def num(self, name, lo, hi):
        """small integer, made concrete by forking (sizes)"""
        return self.int(name, lo, hi).__index__()

    def flag(self, name):
        return bool(self.bool(name))

    def text(self, v):
        """text of a number"""
        if is_sym(v):
            return loader.Atoms.new(v)
        return repr(v)

    # -- program --------------------------------------------------------------
    @property
    def loader(self):
        if self.ld is None:
            self.ld = loader.Loader(random=self.rng, overrides=self.overrides)
        return self.ld

    def load(self, name):
        return self.loader.load(name)

    @property
    def np(self):
        return self.loader.numpy

    def npfunc(self, name, f):
        """a stand-in for a file function of numpy"""
        setattr(self.np, name, f)

    def stub(self, name, module):
        assert self.ld is None
        self.overrides[name] = module

    def arr(self, nested, kind='f'):
        return npshim.asarr(nested, kind)

    # -- logic ----------------------------------------------------------------
    def assume(self, c):
        if isinstance(c, SymBool):
            core.cur().add(c.t)
        elif isinstance(c, npshim.SArr):
            for e in c.raw().ravel():
                self.assume(e)
        elif not c:
            raise PathAbort()

    def And(self, *cs):
        if not any(isinstance(c, SymBool) for c in cs):
            return all(cs)
        return mkbool(z3.And(*[core.bool_term(c) for c in cs]))

    def Or(self, *cs):
        if not any(isinstance(c, SymBool) for c in cs):
            return any(cs)
        return mkbool(z3.Or(*[core.bool_term(c) for c in cs]))

    def Not(self, c):
        return ~c if isinstance(c, SymBool) else not c

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def ite(self, c, a, b):
        return core.ite(c, a, b)

    def max(self, *a):
        return loader.b_minmax(True)(*a)

    def min(self, *a):
        return loader.b_minmax(False)(*a)

    def floor(self, x):
        return core.ffloor(x)

    def ceil(self, x):
        return core.fceil(x)

    def trunc(self, x):
        return core.ftrunc(x)

    def sqrt(self, x):
        return core.fsqrt(x)

    def sin(self, x):
        return core.fsin(x)

    def cos(self, x):
        return core.fcos(x)

    def exp(self, x):
        return npshim.UF['exp'](x)

    def anchor_acos(self, degrees):
        """ties the arc cosine to its value at cos(degrees)"""
        if degrees % 90 == 0:
            return      # known already
        x = core.rv(Fraction(repr(math.cos(math.radians(degrees)))))
        core.cur().ufs.setdefault('arccos', []).append(([x], core.rv(core.PI * Fraction(degrees) / 180)))

    # -- obligations ------------------------------------------------------------
    def check(self, label, cond):
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, npshim.SArr):
            cond = npshim.np_all(cond)
        self.obls.append(Obl(label, core.bool_term(cond)))

    def check_eq(self, label, a, b, tol=1e-7, obs=True):
        """a equals b (up to rounding)"""
        self.labels[label] = self.labels.get(label, 0) + 1
        a, b = npshim.plain(a), npshim.plain(b)
        if isinstance(a, (list, tuple, npshim.np.ndarray)) or isinstance(b, (list, tuple, npshim.np.ndarray)):
            A, B = npshim.objarr(a), npshim.objarr(b)
            if A.shape != B.shape:
                self.obls.append(Obl(label, z3.BoolVal(False)))
                return
            for x, y in zip(A.ravel(), B.ravel()):
                self.labels[label] -= 1
                self.check_eq(label, x, y, tol, obs)
            self.labels[label] += 1
            return
        if not is_sym(a) and not is_sym(b):
            self.obls.append(Obl(label, z3.BoolVal(close(a, b, tol)), vals=(a, b) if obs and is_num(a) else None))
            return
        if not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)) or special(a) or special(b):
            self.obls.append(Obl(label, z3.BoolVal(False)))
            return
        if core.is_intlike(a) and core.is_intlike(b):
            self.obls.append(Obl(label, core.int_term(a) == core.int_term(b), vals=(a, b)))
            return
        x, y = core.real_term(a), core.real_term(b)
        d = x - y
        t = core.rv(core.to_frac(tol * 10))
        m = core.rv(Fraction(1, 100))
        self.obls.append(Obl(label, x == y, z3.And(d <= t, -d <= t), z3.And(d <= m, -d <= m), (a, b) if obs else None))

    def eq(self, a, b):
        """condition 'a equals b' for use inside of check"""
        return npshim.sccmp('==')(a, b)

    def same(self, a, b):
        """numeric or structural equality as a condition; nan equals nan"""
        if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
            if not isinstance(a, (list, tuple)) or not isinstance(b, (list, tuple)) or len(a) != len(b):
                return False
            return self.And(*[self.same(x, y) for x, y in zip(a, b)]) if len(a) else True
        if isinstance(a, SymPick):
            a = a.get()
        if isinstance(b, SymPick):
            b = b.get()
        if is_sym(a) or is_sym(b):
            if not (is_sym(a) or is_num(a)) or not (is_sym(b) or is_num(b)):
                return False
            return core.compare('==', a, b)
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if special(a) and special(b):
            return (a != a and b != b) or a == b
        return a == b and isinstance(a, bool) == isinstance(b, bool)

    def fail(self, label, msg=''):
        self.check(label, False)

    def reach(self, label):
        self.check(label, True)

    def call(self, fn, *a, **k):
        """(value, None) or (None, exception) of a program call"""
        try:
            return fn(*a, **k), None
        except RecursionError:
            raise Unsupported('recursion')
        except Exception as e:
            e.__traceback__ = None
            return None, e

    def draws(self, kind):
        return list(self.rng.log.get(kind, []))

    def known(self, label, text):
        self.opts.setdefault('known', []).append((label, text))


def close(a, b, tol):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    try:
        if a != a and b != b:
            return True
        if a == b:
            return True
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    except TypeError:
        return a == b


# ---------------------------------------------------------------------------
# model extraction
# ---------------------------------------------------------------------------

def num_of(v):
    if z3.is_algebraic_value(v):
        v = v.approx(20)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return None


def assignment(env, ctx, model):
    res = {}
    for name, kind, t, lo, hi in env.inputs:
        v = model.eval(t, model_completion=True)
        if kind == 'b':
            res[name] = z3.is_true(v)
        elif kind == 'i':
            res[name] = v.as_long()
        else:
            f = num_of(v)
            res[name] = float(f) if f is not None else 0.0
    # trigonometric inputs: take the angle that belongs to the (sin, cos) pair
    byid = {t.get_id(): (name, lo, hi) for name, kind, t, lo, hi in env.inputs if kind == 'r'}
    for key, bases in ctx.angles.items():
        if key in byid and bases:
            name, lo, hi = byid[key]
            coef, s, co = bases[0]
            sv, cv = num_of(model.eval(s, model_completion=True)), num_of(model.eval(co, model_completion=True))
            if sv is None or cv is None:
                continue
            k = float(coef)
            cur_v = res[name]
            if abs(math.sin(cur_v * k) - float(sv)) < 1e-9 and abs(math.cos(cur_v * k) - float(cv)) < 1e-9:
                continue
            a = math.atan2(float(sv), float(cv)) / k
            per = 2 * math.pi / k
            l = float(lo) if lo is not None else None
            h = float(hi) if hi is not None else None
            if l is not None:
                while a < l - 1e-12:
                    a += per
            if h is not None:
                while a > h + 1e-12:
                    a -= per
            res[name] = a
    return res


PYTHAGOREAN = [(Fraction(a, c), Fraction(b, c)) for a, b, c in (
    (3, 4, 5), (0, 1, 1), (-5, 12, 13), (4, 3, 5), (-3, 4, 5), (20, -21, 29), (-8, -15, 17), (1, 0, 1), (-1, 0, 1),
    (0, -1, 1), (12, 5, 13), (-4, 3, 5), (7, 24, 25), (-7, 24, 25), (5, 12, 13), (1, 50, 0), (-1, 50, 0)) if c]


def polish(env, ctx, extra, model, budget_s=4.0):
    """Prefer short dyadic values, so that the replay in floating point hits the same case."""
    s = z3.Solver()
    s.set('timeout', 600)
    for p in ctx.pc:
        s.add(p)
    for e in extra:
        s.add(e)
    t0 = time.time()
    m = model
    # angles first: the angle and its (sin, cos) pair have to agree
    angled = set()
    byid = {t.get_id(): t for name, kind, t, lo, hi in env.inputs if kind == 'r'}
    for key, bases in ctx.angles.items():
        if key not in byid or not bases or time.time() - t0 > budget_s:
            continue
        t = byid[key]
        coef, sn, cs = bases[0]
        k = float(coef)
        hit = False
        for sv, cv in PYTHAGOREAN:
            a0 = math.atan2(float(sv), float(cv)) / k
            for turn in (0, 1, -1):
                a = Fraction(repr(a0 + turn * 2 * math.pi / k))
                s.push()
                s.add(t == core.rv(a), sn == core.rv(sv), cs == core.rv(cv))
                if s.check() == z3.sat:
                    m = s.model()
                    angled.add(key)
                    hit = True
                    break
                s.pop()
                if time.time() - t0 > budget_s:
                    break
            if hit or time.time() - t0 > budget_s:
                break
    for name, kind, t, lo, hi in env.inputs:
        if time.time() - t0 > budget_s:
            break
        if t.get_id() in angled:
            continue
        v = m.eval(t, model_completion=True)
        if kind == 'b':
            s.add(t == v)
            continue
        f = num_of(v)
        if f is None:
            continue
        if kind == 'i':
            s.add(t == f.numerator)
            continue
        done = False
        for q in (1, 2, 4, 16, 256, 65536):
            g = Fraction(round(f * q), q)
            s.push()
            s.add(t == core.rv(g))
            if s.check() == z3.sat:
                m = s.model()
                done = True
                break
            s.pop()
            if time.time() - t0 > budget_s:
                break
        if not done and not z3.is_algebraic_value(v):
            s.push()
            s.add(t == v)
            if s.check() != z3.sat:
                s.pop()
            else:
                m = s.model()
    return m


# ---------------------------------------------------------------------------
# exploration of one case
# ---------------------------------------------------------------------------

class CaseResult(dict):
    pass


def seen_functions(record):
    """record functions of the program that were executed (once each)"""
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'symx')
    except ValueError:
        return lambda: None

    def start(code, off):
        if code.co_filename.startswith(loader.REPO):
            record.add((code.co_filename[len(loader.REPO) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)

    def stop():
        mon.set_events(tool, 0)
        mon.free_tool_id(tool)
    return stop


class Hang(BaseException):
    """the program does not end on this path (confirmed by a replay)"""


def watch(prop, case, env, ctx, after=45):
    """looks once at a path that takes long: has the program fallen into an endless loop?"""
    from . import confirm

    def look(*a):
        v = confirm.hang(prop, case, env, ctx)
        if v:
            raise Hang(v)
    signal.signal(signal.SIGALRM, look)
    signal.setitimer(signal.ITIMER_REAL, after)


def in_repo(e):
    """was it raised by (or on behalf of) the program?"""
    tb = e.__traceback__
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(loader.REPO + '/'):
            return True
        tb = tb.tb_next
    return False


def negs(obls, which):
    r = []
    for o in obls:
        t = getattr(o, which) if getattr(o, which) is not None else o.exact
        r.append(z3.Not(t))
    return r


def decide(ctx, stats, extra, ms, tactic_ms):
    r, m = ctx._check(*extra, ms=min(ms, 2000))
    if r == z3.unknown:
        try:
            r, m = solve_fresh(ctx, extra, tactic_ms, 'QF_NRA')
        except z3.Z3Exception:
            pass
    if r == z3.unknown:
        r, m = solve_fresh(ctx, extra, tactic_ms)
    if r == z3.unknown and ms > 2000:
        r, m = ctx._check(*extra, ms=ms)
    if r == z3.unknown and relax.refuted(ctx, extra, tactic_ms):
        r = z3.unsat
    return r, m


def run_case(prop, fn, case, opts):
    """explore all paths of one harness case; returns a CaseResult"""
    from . import confirm
    t0 = time.time()
    stats = Stats()
    budget = case.get('budget', opts.get('case_budget', 60))
    deadline = t0 + budget
    copts = dict(opts)
    copts.update(case.get('opts', {}))
    copts['deadline'] = deadline
    stack = [[]]
    funcs = set()
    res = CaseResult(case=case['name'], paths=0, aborted=0, obligations=0, discharged=0, undecided=0,
                     labels={}, complete=True, notes=[], violation=None, unconfirmed=[], samples=[],
                     excs={})
    stop = seen_functions(funcs)
    witnesses = []
    if opts.get('max_paths'):
        copts['max_paths'] = opts['max_paths']
    try:
        while stack:
            if time.time() > deadline:
                res['complete'] = False
                res['notes'].append('time budget: %d prefixes unexplored' % len(stack))
                break
            if res['paths'] + res['aborted'] >= copts.get('max_paths', 100000):
                res['complete'] = False
                res['notes'].append('path budget')
                break
            prefix = stack.pop()
            ctx = Ctx(stats, prefix, copts, stack)
            Ctx.cur = ctx
            env = Env(copts)
            ctx.env = env
            aborted = False
            unsup = False
            watch(prop, case, env, ctx)
            try:
                fn(env, **case.get('args', {}))
            except PathAbort:
                aborted = True
            except Hang as e:
                res['violation'] = e.args[0]
            except Unsupported as e:
                unsup = True
                res['complete'] = False
                note = 'unsupported: %s' % (e,)
                if note not in res['notes']:
                    res['notes'].append(note)
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
            except Budget as e:
                unsup = True
                res['complete'] = False
                if 'decisions' in str(e):
                    res['violation'] = confirm.hang(prop, case, env, ctx)
                note = 'budget: %s' % (e,)
                if note not in res['notes']:
                    res['notes'].append(note)
            except RecursionError:
                unsup = True
                res['complete'] = False
                res['notes'].append('recursion limit')
            except Exception as e:
                # the program (or the harness) raised: a violation if it is reproduced
                if os.environ.get('SYMX_DEBUG'):
                    traceback.print_exc()
                if not in_repo(e):
                    res['complete'] = False
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    note = 'harness stopped: %r (%s:%d)' % (e, os.path.basename(tb.filename), tb.lineno)
                    if note not in res['notes']:
                        res['notes'].append(note)
                    unsup = True
                else:
                    key = 'no-exception:' + type(e).__name__
                    env.labels[key] = env.labels.get(key, 0) + 1
                    env.obls.append(Obl(key, z3.BoolVal(False), vals=(repr(e)[:200],)))
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for f in env.cleanup:
                    try:
                        f()
                    except Exception:
                        pass
            if res['violation']:
                break
            if aborted and not env.obls:
                res['aborted'] += 1
                continue
            if unsup and not env.obls:
                res['unsupported'] = res.get('unsupported', 0) + 1
                continue
            if aborted or unsup:
                res['aborted'] += 1
            else:
                res['paths'] += 1
            for l, n in env.labels.items():
                res['labels'][l] = res['labels'].get(l, 0) + n
            try:
                v = discharge(prop, case, env, ctx, stats, res, copts, confirm)
            except Budget:
                res['complete'] = False
                res['undecided'] += len(env.obls)
                res['notes'].append('budget during discharge')
                v = None
            if v:
                res['violation'] = v
                break
            # reachability witness: a concrete run of the real code along this path
            if not aborted and not unsup and len(witnesses) < copts.get('witnesses', 2) and \
                    (res['paths'] <= 2 or res['paths'] % 7 == 0):
                try:
                    r, m = ctx._check(ms=3000)
                except Budget:
                    r = None
                if r == z3.sat:
                    try:
                        m = polish(env, ctx, [], m, 2.0)
                        obs = {}
                        for o in env.obls:
                            if o.vals and len(o.vals) == 2 and o.label not in obs:
                                x = o.vals[0]
                                if is_sym(x):
                                    f = num_of(m.eval(x.t, model_completion=True))
                                    obs[o.label] = None if f is None else float(f)
                                else:
                                    obs[o.label] = None if special(x) or not is_num(x) else float(x)
                        witnesses.append((assignment(env, ctx, m), obs))
                    except Exception as e:
                        res['notes'].append('witness: %r' % (e,))
    finally:
        stop()
        Ctx.cur = None
    res['wall'] = time.time() - t0
    res['queries'] = stats.queries
    res['sat'], res['unsat'], res['unknown'] = stats.sat, stats.unsat, stats.unknown
    res['fork_unknown'] = stats.fork_unknown
    res['solver_s'] = stats.solver_s
    res['functions'] = sorted('%s:%s' % f for f in funcs)
    res['witness'] = {'tried': 0, 'reached': 0, 'bad': []}
    if witnesses and not res['violation']:
        res['witness'] = confirm.witnesses(prop, case, witnesses)
        res['samples'] = [w[0] for w in witnesses[:1]]
    return res


def discharge(prop, case, env, ctx, stats, res, opts, confirm):
    obls = [o for o in env.obls if not z3.is_true(z3.simplify(o.exact))]
    res['obligations'] += len(env.obls)
    res['discharged'] += len(env.obls) - len(obls)
    if not obls:
        return None
    ms, tms = opts.get('ob_ms', 8000), opts.get('ob_fresh_ms', 12000)

    def together(which, os_):
        return decide(ctx, stats, [z3.Or(*negs(os_, which))], ms, tms)

    r, m = together('exact', obls) if len(obls) <= opts.get('batch', 40) else (z3.unknown, None)
    if r == z3.unsat:
        res['discharged'] += len(obls)
        return None
    pending = []
    if r == z3.sat and all(o.margin is None for o in obls):
        pending = obls
    else:
        for o in obls:
            r1, m1 = together('exact', [o])
            if r1 == z3.unsat:
                res['discharged'] += 1
            else:
                pending.append(o)
    for o in pending:
        got = None
        known = z3.unknown
        for which in ('margin', 'tol') if o.margin is not None else ('exact',):
            r1, m1 = together(which, [o])
            known = r1
            if r1 == z3.sat:
                neg = negs([o], which)
                v = confirm.candidate(prop, case, env, ctx, o, neg, m1, res)
                if v:
                    k = opts.get('known_labels', {}).get((case['name'], o.label))
                    if k:
                        if k['what'] not in res.setdefault('known', []):
                            res['known'].append(k['what'])
                        known = z3.unsat
                        break
                    return v
                got = True
                break
            if r1 == z3.unsat and which == 'tol':
                break
        if got:
            res['undecided'] += 1
        elif known == z3.unsat:
            res['discharged'] += 1
        else:
            res['undecided'] += 1
            note = 'undecided: %s' % o.label
            if note not in res['notes']:
                res['notes'].append(note)
    return None
