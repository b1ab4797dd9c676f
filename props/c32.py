"""C32: cross sections of the model"""
import types
from props.common import *

BOUNDS = ('grids of 2x3x4, 3x2x2 and (thorough) 4x5x2 cells, arbitrary origin, spacings, field values and positions of the sections; '
          'none, one or two positions per axis')
ASSUMPTIONS = ['matplotlib draws the values it is given at the coordinates it is given (one value per node or per face-bounded cell)',
               'a position on a face between two cells may show either of them']


class Ax:
    def __init__(self, log):
        self._log = log

    def __getattr__(self, name):
        def f(*a, **k):
            if name in ('pcolor', 'pcolormesh'):
                k = {n: v for n, v in k.items()}
                self._log.append((list(a), k))
            return Ax(self._log)
        return f


def stubs(env):
    log = []

    class Plt(types.ModuleType):
        def __getattr__(self, name):
            if name.startswith('__'):
                raise AttributeError(name)
            if name == 'subplots':
                return lambda *a, **k: (Ax(log), Ax(log))
            if name in ('pcolor', 'pcolormesh'):
                return getattr(Ax(log), name)
            return lambda *a, **k: Ax(log)
    plt = Plt('matplotlib.pyplot')
    top = types.ModuleType('matplotlib')
    top.pyplot = plt
    top.__path__ = []
    env.stub('matplotlib', top)
    env.stub('matplotlib.pyplot', plt)
    return log


def coord(env, A, a, b, vert):
    """value of a coordinate array of one or two dimensions"""
    if len(A.shape) == 1:
        return A[a] if vert else A[b]
    return A[a, b]


def drawn(env, C, X, Z, n, nz, o, d, oz, dz, cells):
    """the picture shows the given values at the place of their cells"""
    sh = tuple(C.shape)
    r = []
    if sh == (nz, n):
        turn = False
    elif sh == (n, nz):
        turn = True
    else:
        return False
    xs, zs = tuple(X.shape), tuple(Z.shape)
    if len(xs) != len(zs) or len(xs) not in (1, 2):
        return False
    one = len(xs) == 1
    if one and turn:
        return False
    faces = (xs == (n + 1,) and zs == (nz + 1,)) if one else xs == zs == (sh[0] + 1, sh[1] + 1)
    nodes = (xs == (n,) and zs == (nz,)) if one else xs == zs == sh
    if not (faces or nodes):
        return False
    off = 0 if faces else 0.5
    for a in range(sh[0] + (1 if faces else 0)):
        for b in range(sh[1] + (1 if faces else 0)):
            i, k = (a, b) if turn else (b, a)
            r.append(env.eq(coord(env, X, a, b, False), o + (i + off) * d))
            r.append(env.eq(coord(env, Z, a, b, True), oz + (k + off) * dz))
    for a in range(sh[0]):
        for b in range(sh[1]):
            i, k = (a, b) if turn else (b, a)
            r.append(env.eq(C[a, b], cells(i, k)))
    return env.And(*r)


def section(env, n, axis, count, log, twin=0):
    calls = stubs(env)
    P = env.load('hyvr.postprocess.plotting')
    o = [env.real(c + '0', -100, 100) for c in 'xyz']
    d = [env.real('d' + c, gt=0, hi=10) for c in 'xyz']
    per = env.num('periodic', 0, 1)
    g = mkgrid(env, n, *o, *d, per)
    F = nest(env, 'f', n, lo=0.1, hi=90)
    other = nest(env, 'h', n, lo=0.1, hi=90)
    m = types.SimpleNamespace(grid=g, data={'k_iso': env.arr(F), 'poros': env.arr(other), 'azim': env.arr(other)})
    s = 1 if axis == 'y' else 0                       # the axis the section is perpendicular to
    t = 1 - s
    pos = [env.real('p%d' % i, -300, 300) for i in range(count)]
    if count is False:                                # the middle of the domain
        pos = [o[s] + n[s] * d[s] / 2]
        arg = None
    elif twin == 'scalar':
        arg = pos[0]
    elif twin == 'tuple':
        arg = tuple(pos)
    elif twin == 'array':
        arg = env.arr(pos)
    else:
        arg = pos
    kw = {axis: arg, 'xy'[t]: []}
    if log:
        kw['log'] = True
    P.cross_section_pcolor(m, 'k_iso', **kw)
    ln = (lambda v: env.np.log(v)) if log else None
    lg = (lambda v: env.np.log10(v)) if log else None
    inside = [env.And(p >= o[s], p <= o[s] + n[s] * d[s]) for p in pos]
    got = iter(calls)
    shown = [bool(i) for i in inside]
    env.check('number-of-sections', len(calls) == sum(shown) or any(on_edge(env, p, o[s], n[s], d[s]) for p in pos))
    if len(calls) != sum(shown):
        return
    for p, vis in zip(pos, shown):
        if not vis:
            continue
        a, k = next(got)
        if len(a) == 1:                              # coordinates missing: drawn at 0, 1, 2...
            env.fail('coordinates')
            continue
        X, Z, C = [k.get(nm, a[i] if i < len(a) else None) for i, nm in enumerate(('X', 'Y', 'C'))]
        C, X, Z = env.np.asarray(C), env.np.asarray(X), env.np.asarray(Z)
        opts = []
        for j in range(n[s]):
            at_ = (lambda i, kk: F[i][j][kk]) if s else (lambda i, kk: F[j][i][kk])
            alts = [at_] if not log else [lambda i, kk: ln(at_(i, kk)), lambda i, kk: lg(at_(i, kk))]
            pic = env.Or(*[drawn(env, C, X, Z, n[t], n[2], o[t], d[t], o[2], d[2], f) for f in alts])
            opts.append(env.And(p >= o[s] + j * d[s], p <= o[s] + (j + 1) * d[s], pic))
        env.check('section-shows-the-cells-there', env.Or(*opts))


def on_edge(env, p, o, n, d):
    return bool(env.Or(env.eq(p, o), env.eq(p, o + n * d)))


def both(env, n):
    """sections along both axes in one call, at the middle by default"""
    calls = stubs(env)
    P = env.load('hyvr.postprocess.plotting')
    o = [env.real(c + '0', -100, 100) for c in 'xyz']
    d = [env.real('d' + c, gt=0, hi=10) for c in 'xyz']
    g = mkgrid(env, n, *o, *d)
    F = nest(env, 'f', n, lo=-90, hi=90)
    m = types.SimpleNamespace(grid=g, data={'dip': env.arr(F)})
    P.cross_section_pcolor(m, 'dip')
    env.check('number-of-sections', len(calls) == 2)
    if len(calls) != 2:
        return
    found = {}
    for a, k in calls:
        X, Z, C = [env.np.asarray(k.get(nm, a[i] if i < len(a) else None)) for i, nm in enumerate(('X', 'Y', 'C'))]
        for s in (0, 1):
            t = 1 - s
            js = [n[s] // 2] if n[s] % 2 else [n[s] // 2 - 1, n[s] // 2]
            found.setdefault(s, []).extend(
                drawn(env, C, X, Z, n[t], n[2], o[t], d[t], o[2], d[2],
                      (lambda i, kk: F[i][j][kk]) if s else (lambda i, kk: F[j][i][kk])) for j in js)
    for s in (0, 1):
        env.check('middle-section-' + 'xy'[s], env.Or(*found[s]))


def cases(tier):
    A, B = (2, 3, 4), (3, 2, 2)
    r = [dict(name='both-%dx%dx%d' % n, fn=both, args=dict(n=n)) for n in (A, B, (3, 5, 2))]
    for ax in 'yx':
        for n in (A, B) + (() if tier == 'quick' else ((4, 5, 2), (5, 4, 3))):
            nm = '%s-%dx%dx%d' % ((ax,) + n)
            r.append(dict(name=nm + '-one', fn=section, args=dict(n=n, axis=ax, count=1, log=False, twin='scalar')))
        r.append(dict(name=ax + '-two', fn=section, args=dict(n=A, axis=ax, count=2, log=False)))
        r.append(dict(name=ax + '-tuple', fn=section, args=dict(n=B, axis=ax, count=2, log=False, twin='tuple')))
        r.append(dict(name=ax + '-none', fn=section, args=dict(n=B, axis=ax, count=0, log=False)))
        r.append(dict(name=ax + '-middle', fn=section, args=dict(n=A, axis=ax, count=False, log=False)))
        r.append(dict(name=ax + '-log', fn=section, args=dict(n=A, axis=ax, count=1, log=True)))
    return r
