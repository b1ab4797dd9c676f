"""C13: architectural elements fill a stratum"""
import types
from props.common import *

BOUNDS = ('strata over up to 2 columns with arbitrary top and bottom elevations, up to 4 architectural elements per '
          'stratum, 1-2 element types with arbitrary mean thickness and probabilities, flat and random contact '
          'surfaces, avulsion off and on; every outcome of every random draw (normal draws within 4 sigma)')
ASSUMPTIONS = ['np.random.normal(m, s) = m + s g with g any real in [-4, 4]; choice picks any entry of positive '
               'probability', 'random field generator returns any field', 'real arithmetic']
OPTS = {'normal_bound': 4}


def fill(env, n, modes, avul, surf, nmax=3):
    hu = env.load('hyvr.utils')
    calls = field_oracle(env, hu, 'f', lo=-2, hi=2)
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    S = env.load('hyvr.geo.stratum')
    grid = simple_grid((n[0], n[1], 2), periodic=env.bool('periodic'))
    zt, zb = env.real('ztop', 0, 10), env.real('zbot', -10, 10)
    if surf == 'bottom':
        top = CS(grid, mode='flat', z=zt)
        bot = CS(grid, mode='random', z=zb, var=1.0, corlx=1.0, corly=1.0)
        for a, b in zip(box(n), box(n)[1:]):
            env.assume(env.And(bot.surface[a] <= bot.surface[b], bot.surface[b] <= zt))
    elif surf == 'random':
        top = CS(grid, mode='random', z=zt, var=1.0, corlx=1.0, corly=1.0)
        bot = CS(grid, mode='random', z=zb, var=1.0, corlx=1.0, corly=1.0)
    else:
        top, bot = CS(grid, mode='flat', z=zt), CS(grid, mode='flat', z=zb)
    bot.use_lower_surface_value(top)
    T = {i: top.surface[i] for i in box(n)}
    B = {i: bot.surface[i] for i in box(n)}
    ntyp = len(modes)
    means = [1.0 if surf == 'bottom' else env.real('mean%d' % k, gt=0, hi=20) for k in range(ntyp)]
    thick = top.zmean - bot.zmean
    for m in means:
        env.assume(thick <= nmax * 0.6 * m - (nmax * 0.3 * m if avul else 0))
    made = []

    class Typ:
        def __init__(self, k):
            self.name = 'type%d' % k
            self.k = k
            self.params = {'contact_model': {'mode': modes[k], 'var': 0.5 + k, 'corlx': 3.0 + k, 'corly': 5.0 + k}}

        def generate_realization(self, b, t, stratum, g):
            i = len(made)
            e = types.SimpleNamespace(k=self.k, bottom_surface=b, top_surface=t, type_name=self.name,
                                      bot={c: b.surface[c] for c in box(n)}, top={c: t.surface[c] for c in box(n)},
                                      zmean=b.zmean, zmin=b.zmin - env.real('lo%d' % i, 0, 3),
                                      zmax=t.zmax + env.real('hi%d' % i, 0, 3), ncalls=len(calls))
            made.append(e)
            return e
    probs = [env.real('p%d' % k, 0, 5) for k in range(ntyp)]
    tot = 0
    for p in probs:
        tot = tot + p
    env.assume(tot >= 0.01)
    params = {'strata': 'S', 'bg_facies': 1, 'bg_azim': 2.0, 'bg_dip': 3.0, 'ae_prob': list(probs),
              'ae_z_mean': list(means), 'avul_prob': [1.0 if avul else -1.0],
              'avul': [env.real('av0', 0, 2), env.real('av1', 0, 2)]}
    if avul:
        env.assume(params['avul'][0] <= params['avul'][1])
        for m in means:
            env.assume(params['avul'][1] <= 0.3 * m)
    n0 = len(calls)
    typs = [Typ(k) for k in range(ntyp)]
    s = S.Stratum(bot, top, params, typs, grid)

    env.check('count', env.And(s.n_ae == len(made), len(s.aes) == len(made)))
    env.check('all-kept', all(a is b for a, b in zip(s.aes, made)))
    for c in box(n):
        env.check('non-empty', env.implies(T[c] > B[c], len(made) >= 1))
    env.check('params', s.name == 'S' and s.bg_facies == 1 and s.bg_azim == 2.0 and s.bg_dip == 3.0)
    if not made:
        return
    g = env.draws('g')
    zn = top.zmean
    nc = n0
    for i, e in enumerate(made):
        env.check('type-possible', probs[e.k] > 0)
        last = i == len(made) - 1
        for c in box(n):
            above = T[c] if i == 0 else made[i - 1].bot[c]
            env.check_eq('shared-surface', e.top[c], above)
            env.check('ordered', e.bot[c] <= e.top[c])
            env.check('above-stratum-bottom', e.bot[c] >= B[c])
            if last:
                env.check_eq('bottom-reached', e.bot[c], B[c])
        h = means[e.k] * (1 + 0.1 * g[i])
        want = zn - h
        if not last:
            if avul:
                a = e.zmean - want if modes[made[i + 1].k] == 'flat' else None
                if a is not None:
                    env.check('avulsion', env.And(a >= params['avul'][0], a <= params['avul'][1]))
                    want = e.zmean
                else:
                    return
            # the contact model belongs to the element below
            below = made[i + 1]
            if modes[below.k] == 'flat':
                env.check('contact-type', e.ncalls == nc)
                for c in box(n):
                    z = env.max(env.min(want, e.top[c]), B[c])
                    env.check_eq('elevation', e.bot[c], z)
            else:
                env.check('contact-type', e.ncalls == nc + 1)
                cl = calls[nc]
                env.check('contact-parameters', cl['var'] == 0.5 + below.k and cl['corl'] ==
                          [3.0 + below.k, 5.0 + below.k])
                for c in box(n):
                    z = env.max(env.min(want + at(cl['field'], c), e.top[c]), B[c])
                    env.check_eq('elevation', e.bot[c], z)
                nc += 1
            zn = want if modes[below.k] == 'flat' or not avul else zn
        env.check_eq('zmins', s.ae_zmins[i], e.zmin)
        env.check_eq('zmaxs', s.ae_zmaxs[i], e.zmax)
        env.check('stratum-encloses', env.And(s.zmin <= e.zmin, s.zmax >= e.zmax))
    for c in box(n):
        env.check('stratum-encloses', env.And(s.zmin <= B[c], s.zmax >= T[c]))


def cases(tier):
    q = tier == 'quick'
    cs = []
    for n in ((1, 1), (1, 2)):
        cs.append(dict(name='flat-%dx%d' % n, fn=fill, args=dict(n=n, modes=('flat',), avul=False, surf='flat')))
        cs.append(dict(name='rough-%dx%d' % n, fn=fill,
                       args=dict(n=n, modes=('flat',), avul=False, surf='random', nmax=2)))
    cs.append(dict(name='two-types-1x1', fn=fill, args=dict(n=(1, 1), modes=('flat', 'random'), avul=False,
                                                            surf='flat', nmax=2)))
    cs.append(dict(name='avul-1x1', fn=fill, args=dict(n=(1, 1), modes=('flat',), avul=True, surf='flat', nmax=3)))
    cs.append(dict(name='avul-two-1x1', fn=fill, args=dict(n=(1, 1), modes=('flat', 'random'), avul=True,
                                                           surf='random', nmax=2)))
    cs.append(dict(name='deep-1x2', fn=fill, args=dict(n=(1, 2), modes=('flat',), avul=False, surf='bottom', nmax=3.2)))
    if not q:
        cs.append(dict(name='two-types-rough-2x1', fn=fill, args=dict(n=(2, 1), modes=('flat', 'random'), avul=False,
                                                                      surf='random', nmax=1.8), budget=600))
        cs.append(dict(name='deep-flat', fn=fill, args=dict(n=(1, 1), modes=('flat', 'flat'), avul=False,
                                                            surf='random', nmax=4), budget=1200))
        cs.append(dict(name='deep-rough', fn=fill, args=dict(n=(2, 2), modes=('random', 'flat'), avul=False,
                                                             surf='random', nmax=2), budget=1800))
    return cs
