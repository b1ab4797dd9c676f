"""C19: orientation of bulbs in a trough"""
import math
from props.geo import *
from props.c18 import P3, P4

BOUNDS = ('one trough with bulb structure at an arbitrary position, an arbitrary point in it; axes (1.5, 1, 1.25) '
          'and others from a fixed list, orientations with sin/cos in fifths, and maximum dips of 90 and 30 degrees')
ASSUMPTIONS = ['real arithmetic', 'the normal has a component in x-direction (otherwise the code relies on the '
               'division by zero of C)', 'azimuth and dip are compared through their sines and cosines',
               'the Cython source is executed as Python after removing its type declarations']


def bulb(env, alpha, axes, plane, maxdip=90.0, structure='bulb'):
    grid = simple_grid((4, 3, 2))
    env.anchor_acos(maxdip)
    X, Y, Z = env.real('xc', -3, 3), env.real('yc', -3, 3), env.real('zc', -3, 3)
    a, b, c = axes
    dmax = maxdip
    params = trough_params(structure=structure, te_xyz=[[X, Y, Z]], length=2 * a, width=2 * b, depth=c,
                           paleoflow=[alpha, alpha], dip=[dmax, dmax], facies=[3], bulbset_dist=9.0)
    ae = element(env, 'hyvr.geo.trough_ae', 'TroughAE', params, grid)
    u, v, w = env.real('u', -3, 3), env.real('v', -3, 3), env.real('w', -3, 0)
    if plane == 'u':
        env.assume(v == 0)
    elif plane == 'v':
        env.assume(u == 0)
    elif plane == 'w':
        env.assume(w == 0)
    elif plane == 'uv':
        env.assume(v == u / 2)
    env.assume((u / a) * (u / a) + (v / b) * (v / b) + (w / c) * (w / c) <= 0.99)
    deg = math.pi / 180
    sa, ca = round(math.sin(alpha * deg), 12), round(math.cos(alpha * deg), 12)
    # gradient of (u/a)^2 + (v/b)^2 + (w/c)^2 in model coordinates
    gu, gv, gw = u / (a * a), v / (b * b), w / (c * c)
    g = (gu * ca - gv * sa, gu * sa + gv * ca, gw)
    env.assume(env.Or(g[0] > 1e-3, g[0] < -1e-3))
    x, y, z = X + u * ca - v * sa, Y + u * sa + v * ca, Z + w
    ids, ang = cell_arrays(env)
    ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, 0, 0, grid)
    env.check('inside', ids[0] == 3)
    az, dip = ang[0], ang[1]
    env.check('azimuth-range', env.And(az >= -90.000001, az <= 90.000001))
    env.check('dip-capped', env.And(dip <= dmax, dip >= -dmax))
    sd, cd = env.sin(dip * deg), env.cos(dip * deg)
    sz, cz = env.sin(az * deg), env.cos(az * deg)
    t = 1e-6
    # horizontal direction of the normal
    env.check('azimuth', env.And(cz * g[1] + sz * g[0] <= t, cz * g[1] + sz * g[0] >= -t))
    if bool(env.And(dip < dmax, dip > -dmax)):
        N = (-sd * cz, sd * sz, cd)
        for i, j in ((0, 2), (1, 2)):
            k = N[i] * g[j] - N[j] * g[i]
            env.check('normal', env.And(k <= t, k >= -t))
    else:
        env.reach('capped')
        # the true dip is at least the maximum
        env.check('cap-only-if-steep', gw * gw * (1 - round(math.cos(dmax * deg) ** 2, 9))
                  <= (g[0] * g[0] + g[1] * g[1]) * round(math.cos(dmax * deg) ** 2, 9) + t)
        s = env.ite(dip > 0, 1, -1)
        env.check('cap-sign', s * g[0] * gw <= t)


def axis(env, alpha, axes, maxdip, structure='bulb'):
    """below the centre of the trough the shell is horizontal"""
    grid = simple_grid((4, 3, 2))
    X, Y, Z = env.real('xc', -3, 3), env.real('yc', -3, 3), env.real('zc', -3, 3)
    a, b, c = axes
    params = trough_params(structure=structure, te_xyz=[[X, Y, Z]], length=2 * a, width=2 * b, depth=c,
                           paleoflow=[alpha, alpha], dip=[maxdip, maxdip], facies=[3], bulbset_dist=9.0)
    ae = element(env, 'hyvr.geo.trough_ae', 'TroughAE', params, grid)
    w = env.real('w', -0.99 * c, 0)
    ids, ang = cell_arrays(env)
    ae.maybe_assign_points_to_object(0, ids, ang, X, Y, Z + w, 0, 0, grid)
    env.check('inside', ids[0] == 3)
    env.check('horizontal', env.And(ang[0] == 0, ang[1] == 0))


def cases(tier):
    A = (1.5, 1.0, 1.25)
    cs = []
    for p in ('u', 'v', 'w', 'uv'):
        cs.append(dict(name='turned-%s' % p, fn=bulb, args=dict(alpha=P3, axes=A, plane=p)))
    cs += [dict(name='straight-u', fn=bulb, args=dict(alpha=0.0, axes=A, plane='u')),
           dict(name='straight-uv', fn=bulb, args=dict(alpha=0.0, axes=(2.0, 0.5, 1.0), plane='uv')),
           dict(name='back-uv', fn=bulb, args=dict(alpha=-P4, axes=(2.0, 1.0, 0.5), plane='uv')),
           dict(name='capped-u', fn=bulb, args=dict(alpha=0.0, axes=A, plane='u', maxdip=30.0)),
           dict(name='capped-turned', fn=bulb, args=dict(alpha=P3, axes=A, plane='u', maxdip=30.0)),
           dict(name='capped-across', fn=bulb, args=dict(alpha=-P4, axes=A, plane='v', maxdip=30.0))]
    cs += [dict(name='axis', fn=axis, args=dict(alpha=0.0, axes=A, maxdip=90.0)),
           dict(name='axis-turned', fn=axis, args=dict(alpha=P3, axes=A, maxdip=30.0, structure='bulb_sets'))]
    if tier != 'quick':
        cs += [dict(name='capped-uv', fn=bulb, args=dict(alpha=0.0, axes=A, plane='uv', maxdip=30.0)),
               dict(name='sets-u', fn=bulb, args=dict(alpha=0.0, axes=A, plane='u', structure='bulb_sets'))]
        cs += [dict(name='full-%d' % al, fn=bulb, args=dict(alpha=al, axes=A, plane=None), budget=3000) for al in (0.0, P3)]
    return cs
