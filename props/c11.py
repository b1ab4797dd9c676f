"""C11: contact surfaces"""
from props.common import *

BOUNDS = ('surfaces of up to 2 x 3 columns (thorough 3 x 3) with an arbitrary real elevation in every column, '
          'clipped by one or two other arbitrary surfaces in either order')
ASSUMPTIONS = ['the random field generator may return any real field of the requested size',
               'real arithmetic in place of float64']


def build(env, CS, grid, calls, name, n, kind):
    z = env.real('z_' + name, -100, 100)
    if kind == 'flat':
        s = CS(grid, mode='flat', z=z)
        vals = {i: z for i in box(n)}
    else:
        var = env.real('var_' + name, 0, 10)
        cl = env.real('corlx_' + name, gt=0, hi=10), env.real('corly_' + name, gt=0, hi=10)
        k = len(calls)
        s = CS(grid, mode='random', z=z, var=var, corlx=cl[0], corly=cl[1])
        env.check('field-used', len(calls) == k + 1)
        c = calls[k]
        env.check('field-two-dim', bool(c['two_dim']))
        env.check_eq('field-variance', c['var'], var)
        env.check_eq('field-lengths', c['corl'], list(cl))
        vals = {i: at(c['field'], i) + z for i in box(n)}
    env.check('shape', tuple(s.surface.shape) == tuple(n))
    for i in box(n):
        env.check_eq('initial', s.surface[i], vals[i])
    bounds(env, s, n)
    m = 0
    for i in box(n):
        m = m + vals[i]
    env.check_eq('mean', s.zmean, m / len(vals))
    for i in box(n):
        env.check('tight', env.And(s.zmin <= vals[i], s.zmax >= vals[i]))
    env.check('attained', env.And(env.Or(*[s.zmin == v for v in vals.values()]),
                                  env.Or(*[s.zmax == v for v in vals.values()])))
    return s, vals


def bounds(env, s, n):
    for i in box(n):
        env.check('bounds-enclose', env.And(s.zmin <= s.surface[i], s.surface[i] <= s.zmax))


def clip(env, n, kinds, ops):
    hu = env.load('hyvr.utils')
    calls = field_oracle(env, hu, 'f')
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    grid = simple_grid((n[0], n[1], 2), periodic=env.bool('periodic'))
    s, cur = build(env, CS, grid, calls, 's', n, kinds[0])
    others = []
    for k, op in enumerate(ops):
        o, ov = build(env, CS, grid, calls, 'o%d' % k, n, kinds[1 + k])
        if op == 'low':
            s.use_lower_surface_value(o)
            cur = {i: env.ite(cur[i] > ov[i], ov[i], cur[i]) for i in cur}
        else:
            s.use_higher_surface_value(o)
            cur = {i: env.ite(cur[i] < ov[i], ov[i], cur[i]) for i in cur}
        for i in box(n):
            env.check_eq('clipped-' + op, s.surface[i], cur[i])
        others.append((o, ov))
        for p, pv in others:
            for i in box(n):
                env.check_eq('other-unchanged', p.surface[i], pv[i])
            bounds(env, p, n)
        bounds(env, s, n)


def cases(tier):
    cs = []
    for ops in (('low',), ('high',)):
        for n in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((2, 3), (3, 2)) if tier != 'quick' else ()):
            cs.append(dict(name='rr-%s-%dx%d' % (ops[0], n[0], n[1]), fn=clip,
                           args=dict(n=n, kinds=('random', 'random'), ops=ops)))
        cs.append(dict(name='fr-%s-1x2' % ops[0], fn=clip, args=dict(n=(1, 2), kinds=('flat', 'random'), ops=ops)))
        cs.append(dict(name='rf-%s-2x1' % ops[0], fn=clip, args=dict(n=(2, 1), kinds=('random', 'flat'), ops=ops)))
        cs.append(dict(name='ff-%s-2x2' % ops[0], fn=clip, args=dict(n=(2, 2), kinds=('flat', 'flat'), ops=ops)))
    for ops in (('low', 'high'), ('high', 'low')):
        for n in ((1, 2), (2, 1)) + (((2, 2),) if tier != 'quick' else ()):
            cs.append(dict(name='rrr-%s-%dx%d' % ('-'.join(ops), n[0], n[1]), fn=clip,
                           args=dict(n=n, kinds=('random', 'random', 'random'), ops=ops)))
        cs.append(dict(name='frf-%s-1x2' % '-'.join(ops), fn=clip,
                       args=dict(n=(1, 2), kinds=('flat', 'random', 'flat'), ops=ops)))
    return cs
