"""C26: random fields"""
import math
from props.common import *

BOUNDS = ('fields of up to 4 cells per axis and 6 cells in total (2-d and 3-d), arbitrary spacing, variance and '
          'correlation lengths, both covariance models, selection masks over up to 2 x 2 x 2 cells; the map from the '
          'normal draws to the field is computed exactly (discrete Fourier transforms of 1 to 4 values per axis)')
ASSUMPTIONS = ['draws are independent standard normals', 'exp is an arbitrary positive monotone function',
               'real arithmetic in place of float64']


def cosines(shape, k, d):
    return math.cos(sum(2 * math.pi * k[a] * d[a] / shape[a] for a in range(len(shape))))


def columns(env, hu, grid, ntot, *a, **kw):
    """the field for every unit vector of draws"""
    cols = []
    for i in range(2 * ntot):
        env.rng.script = [1.0 if j == i else 0.0 for j in range(2 * ntot)]
        cols.append(hu.specsim(grid, *a, **kw))
        env.check('draws', env.rng.script == [])
    env.rng.script = None
    return cols


def target(env, pos, shape, var, corl, covmod):
    """covariance between the cells of a periodic field without mean, from the covariance at the centred positions"""
    r = {}
    for i in box(shape):
        h2 = 0
        for a in range(len(shape)):
            h2 = h2 + (pos[a][i[a]] / corl[a]) * (pos[a][i[a]] / corl[a])
        r[i] = (env.exp(-h2) if covmod == 'gaussian' else env.exp(-env.sqrt(h2))) * var
    ntot = len(r)
    corner = {}
    for i in box(shape):
        src = tuple((i[a] - (shape[a] // 2)) % shape[a] for a in range(len(shape)))
        corner[i] = r[src]
    spec = {}
    for k in box(shape):
        re = im = 0
        for j in box(shape):
            ph = sum(Phase(k[a] * j[a], shape[a]) for a in range(len(shape)))
            c, s = ph.cs(env)
            re = re + corner[j] * c
            im = im + corner[j] * s
        spec[k] = (re, im)
    return spec, ntot


class Phase:
    """fraction of a turn"""

    def __init__(self, m, n):
        from fractions import Fraction
        self.f = Fraction(m, n) % 1

    def __radd__(self, o):
        return self

    def __add__(self, o):
        p = Phase(0, 1)
        p.f = (self.f + o.f) % 1
        return p

    def cs(self, env):
        h = env.sqrt(env.three) / 2
        t = {(0, 1): (1, 0), (1, 4): (0, 1), (1, 2): (-1, 0), (3, 4): (0, -1), (1, 3): (-0.5, h), (2, 3): (-0.5, -h),
             (1, 6): (0.5, h), (5, 6): (0.5, -h)}
        return t[(self.f.numerator, self.f.denominator)]


def cov(env, n, two_dim, covmod, before=False):
    hu = env.load('hyvr.utils')
    env.three = env.real('three', 3, 3)
    d = [env.real('d' + c, lo=0.5, hi=2) for c in 'xyz']
    grid = mkgrid(env, n, dx=d[0], dy=d[1], dz=d[2], periodic=env.bool('periodic'))
    shape = n[:2] if two_dim else n
    var = env.real('var', lo=0.1, hi=5)
    corl = [env.real('corl%d' % a, lo=0.5, hi=3) for a in range(len(shape))]
    ntot = 1
    for k in shape:
        ntot *= k
    if before:
        # an earlier field with other parameters leaves no trace
        g0 = mkgrid(env, n, dx=0.75, dy=1.25, dz=0.5, periodic=env.bool('periodic0')) if before == 'grid' else grid
        for v0, c0 in ((3.0, [0.625, 2.5, 1.75]), (var, [0.5, 0.75, 2.0]))[:1 if before == 'grid' else 2]:
            env.rng.script = [0.5] * (2 * ntot)
            hu.specsim(g0, v0, c0[:len(shape)], two_dim=two_dim, covmod=covmod)
    cols = columns(env, hu, grid, ntot, var, corl, two_dim=two_dim, covmod=covmod)
    for c in cols:
        env.check('shape', tuple(c.shape) == tuple(shape))
    pos = [[(i - (shape[a] - 1) / 2) * d[a] for i in range(shape[a])] for a in range(len(shape))]
    spec, ntot = target(env, pos, shape, var, corl, covmod)
    cells = box(shape)
    for j in cells:
        got = 0
        for c in cols:
            got = got + c[j] * c[cells[0]]
        want = 0
        for k in cells:
            if not any(k):
                continue
            re, im = spec[k]
            mag = env.sqrt(re * re + im * im)
            ph = sum(Phase(k[a] * (j[a] - cells[0][a]), shape[a]) for a in range(len(shape)))
            want = want + mag * ph.cs(env)[0] / ntot
        env.check_eq('covariance', got, want, obs=False)


def mask(env, n, two_dim, covmod='gaussian', fixed=False):
    """a selection returns the values of the smallest box around it, in order"""
    hu = env.load('hyvr.utils')
    env.three = env.real('three', 3, 3)
    if fixed:
        d, o = [0.5, 0.25, 2.0], [1.0, -3.0, 2.0]
    else:
        d = [env.real('d' + c, lo=0.5, hi=2) for c in 'xyz']
        o = [env.real('o' + c, -5, 5) for c in 'xyz']
    grid = mkgrid(env, n, x0=o[0], y0=o[1], z0=o[2], dx=d[0], dy=d[1], dz=d[2], periodic=env.bool('periodic'))
    shape = n[:2] if two_dim else n
    cells = box(shape)
    sel = [env.flag('sel_' + ''.join(map(str, c))) for c in cells]
    if not any(sel):
        env.assume(False)
    m = env.np.zeros(shape, dtype=bool)
    for c, s in zip(cells, sel):
        m[c] = s
    chosen = [c for c, s in zip(cells, sel) if s]
    lo = [min(c[a] for c in chosen) for a in range(len(shape))]
    hi = [max(c[a] for c in chosen) for a in range(len(shape))]
    small = tuple(h - l + 1 for l, h in zip(lo, hi))
    ntot = 1
    for k in small:
        ntot *= k
    var, corl = 2.0, [1.0, 2.0, 3.0][:len(shape)]
    draws = [env.real('draw%d' % k, -3, 3) for k in range(2 * ntot)]
    env.rng.script = list(draws)
    got = hu.specsim(grid, var, corl, selection_mask=m, two_dim=two_dim, covmod=covmod)
    env.check('draws', env.rng.script == [])
    env.check('one-value-per-cell', tuple(got.shape) == (len(chosen),))
    # the same field on a grid that is just the box
    g2 = mkgrid(env, small + (1,) if two_dim else small, dx=d[0], dy=d[1], dz=d[2], periodic=env.bool('periodic2'))
    env.rng.script = list(draws)
    ref = hu.specsim(g2, var, corl, two_dim=two_dim, covmod=covmod)
    env.rng.script = None
    for k, c in enumerate(chosen):
        env.check_eq('value', got[k], ref[tuple(c[a] - lo[a] for a in range(len(shape)))], obs=False)


def cases(tier):
    cs = []
    add = lambda name, fn, **kw: cs.append(dict(name=name, fn=fn, args=kw))
    for n, td in (((3, 1, 1), True), ((1, 3, 2), True), ((1, 1, 3), False), ((1, 3, 1), False), ((3, 1, 1), False)):
        for cm in ('gaussian', 'exp'):
            if td and cm == 'exp' and tier == 'quick':
                continue
            add('cov-%s-%dx%dx%d-%s' % ('2d' if td else '3d', n[0], n[1], n[2], cm), cov, n=n, two_dim=td, covmod=cm)
    for cm in ('gaussian', 'exp'):
        add('cov-2d-2x1x2-' + cm, cov, n=(2, 1, 2), two_dim=True, covmod=cm)
        add('cov-2d-1x2x1-' + cm, cov, n=(1, 2, 1), two_dim=True, covmod=cm)
    add('cov-2d-repeated', cov, n=(1, 3, 2), two_dim=True, covmod='gaussian', before='var')
    add('cov-3d-repeated', cov, n=(1, 1, 3), two_dim=False, covmod='gaussian', before='grid')
    add('mask-2d-2x1', mask, n=(2, 1, 2), two_dim=True)
    add('mask-2d-1x2', mask, n=(1, 2, 1), two_dim=True)
    add('mask-2d-2x2-fixed-spacing', mask, n=(2, 2, 1), two_dim=True, fixed=True)
    add('mask-2d-3x2-fixed-spacing', mask, n=(3, 2, 1), two_dim=True, fixed=True)
    add('mask-3d-1x1x2', mask, n=(1, 1, 2), two_dim=False)
    for n in ((3, 1, 1), (1, 3, 1), (1, 1, 3)):
        add('mask-3d-%dx%dx%d-fixed-spacing' % n, mask, n=n, two_dim=False, fixed=True)
    add('mask-2d-1x3-fixed-spacing', mask, n=(1, 3, 2), two_dim=True, fixed=True)
    add('mask-3d-2x1x2-fixed-spacing', mask, n=(2, 1, 2), two_dim=False, fixed=True)
    add('mask-3d-1x2x2-fixed-spacing', mask, n=(1, 2, 2), two_dim=False, fixed=True)
    add('mask-3d-2x2x1-fixed-spacing', mask, n=(2, 2, 1), two_dim=False, fixed=True)
    if tier != 'quick':
        add('mask-3d-1x1x3', mask, n=(1, 1, 3), two_dim=False)
        add('cov-2d-3x2', cov, n=(3, 2, 1), two_dim=True, covmod='exp')
        add('cov-2d-2x3', cov, n=(2, 3, 1), two_dim=True, covmod='gaussian')
        add('cov-2d-2x2', cov, n=(2, 2, 1), two_dim=True, covmod='gaussian')
        add('mask-2d-2x2', mask, n=(2, 2, 2), two_dim=True)
        add('mask-3d-3x1x1', mask, n=(3, 1, 1), two_dim=False)
        add('mask-3d-1x3x1', mask, n=(1, 3, 1), two_dim=False)
        add('mask-3d-2x1x2', mask, n=(2, 1, 2), two_dim=False)
        add('mask-3d-2x2x2-fixed-spacing', mask, n=(2, 2, 2), two_dim=False, fixed=True)
    return cs
