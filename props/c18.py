"""C18: what a trough (truncated ellipsoid) assigns to a cell"""
import math
from props.geo import *

BOUNDS = ('one or two troughs at given arbitrary positions with arbitrary size and an arbitrary query point; '
          'orientation arbitrary for the shape, from {0, 30, 90, -50} degrees where the layer number of a point is '
          'decided; all four internal structures and "random"; lag arbitrary; periodic and non-periodic domains')
ASSUMPTIONS = ['real arithmetic; sin and cos of constant angles rounded to 16 digits',
               'periodic domains: troughs not longer and wider than the domain',
               'facies sequences are arbitrary here (their order: C21)',
               'the Cython source is executed as Python after removing its type declarations']


def shape(env, u, v, dz, a, b, c):
    return env.And(dz <= 0, (u / a) * (u / a) + (v / b) * (v / b) + (dz / c) * (dz / c) <= 1)


def trough(env, alpha, structure, periodic=0, sized=True, lag=True, cut=False):
    grid = simple_grid((4, 3, 2), x0=env.real('x0', -5, 5), y0=env.real('y0', -5, 5), z0=-2.0, periodic=periodic)
    X, Y, Z = env.real('xc', -9, 9), env.real('yc', -9, 9), env.real('zc', -2, 2)
    if sized:
        L, W, D = env.real('len', lo=0.2, hi=8), env.real('wid', lo=0.2, hi=8), env.real('dep', lo=0.1, hi=4)
    else:
        L, W, D = 2.5, 1.5, 1.25
    fac = [3, 5]
    hlag = env.real('lag', lo=0, hi=2) if lag else 0.0
    az = [env.real('az0', -90, 90), env.real('az1', -90, 90)]
    dp = [env.real('dip0', 0, 90), env.real('dip1', 0, 90)]
    if structure == 'random':
        az, dp = [0.0, 0.0], [P3, P3]
    env.assume(az[0] <= az[1])
    env.assume(dp[0] <= dp[1])
    pal = [alpha, alpha]
    if alpha is None:
        pal = [env.real('pal0', -180, 180), env.real('pal1', -180, 180)]
        env.assume(pal[0] <= pal[1])
    params = trough_params(structure=structure, te_xyz=[[X, Y, Z]], length=L, width=W, depth=D, paleoflow=pal,
                           azimuth=az, dip=dp, facies=fac, lag_height=hlag, lag_facies=9)
    ae = element(env, 'hyvr.geo.trough_ae', 'TroughAE', params, grid)
    env.check('one', ae.n_objects == 1 and len(ae.object_list) == 1)
    o = ae.object_list[0]
    a, b, c = L / 2, W / 2, D
    env.check_eq('size', [o.a, o.b, o.c], [a, b, c])
    env.check_eq('zrange', [ae.object_zmins[0], ae.object_zmaxs[0]], [Z - c, Z])
    env.check('alpha', env.And(o.alpha >= pal[0], o.alpha <= pal[1]))
    ae.object_num_ha[0] = 5
    if periodic:
        env.assume(env.And(L <= grid.lx, W <= grid.ly))
        env.assume(env.And(X >= grid.x0, X <= grid.xmax, Y >= grid.y0, Y <= grid.ymax))
    x, y, z = env.real('x', -9, 9), env.real('y', -9, 9), env.real('z', -6, 3)
    env.assume(env.And(x >= grid.x0, x <= grid.xmax, y >= grid.y0, y <= grid.ymax))
    if cut:
        # bulbs: points of a vertical plane through the centre, away from the axis
        env.assume(env.And(y == Y, env.Or(x > X + 0.01, x < X - 0.01)))
    ids, ang = cell_arrays(env)
    ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, 0, 0, grid)
    deg = math.pi / 180
    sa, ca = env.sin(o.alpha * deg), env.cos(o.alpha * deg)
    ins = []
    for i in ((-1, 0, 1) if periodic else (0,)):
        for j in ((-1, 0, 1) if periodic else (0,)):
            dx, dy = x - X + i * grid.lx, y - Y + j * grid.ly
            ins.append(shape(env, dx * ca + dy * sa, -dx * sa + dy * ca, z - Z, a, b, c))
    inside = env.Or(*ins)
    got = bool(ids[0] != -1)
    if not got:
        env.check('not-member', env.Not(inside))
        return
    env.check('member', inside)
    env.check_eq('ha', ids[2], 5)
    in_lag = env.And(z < Z - c + hlag)
    if bool(in_lag):
        env.check('lag', ids[0] == 9)
        env.check_eq('lag-angles', [ang[0], ang[1]], [0, 0])
        return
    env.check('facies', env.Or(ids[0] == 3, ids[0] == 5))
    if structure == 'massive':
        env.check('azim', env.And(ang[0] >= az[0] + o.alpha, ang[0] <= az[1] + o.alpha))
        env.check('dip', env.And(ang[1] >= dp[0], ang[1] <= dp[1]))


def layers(env, alpha, structure, dist, az=0.0, dip=0.0, size=(3.0, 2.0, 1.5), centre=(2.0, 1.0), periodic=0):
    """which layer a point belongs to"""
    grid = simple_grid((4, 3, 2), periodic=periodic)
    hu = env.load('hyvr.utils')
    made = []

    def alt(num, params):
        num = int(num)
        f = [env.int('fac_%d_%d' % (len(made), i), 0, 9) for i in range(num)]
        made.append(f)
        return env.arr(f, 'i')
    patch(hu, 'get_alternating_facies', alt)
    L, W, D = size
    params = trough_params(structure=structure, te_xyz=[[centre[0], centre[1], 0.5]], length=L, width=W, depth=D,
                           paleoflow=[alpha, alpha], azimuth=[az, az], dip=[dip, dip], dipset_dist=dist,
                           bulbset_dist=dist, facies=[0, 1])
    ae = element(env, 'hyvr.geo.trough_ae', 'TroughAE', params, grid)
    ae.object_num_ha[0] = 5
    env.check('one-sequence', len(made) == 1)
    x, y, z = env.real('x', 0, 4), env.real('y', 0, 3), env.real('z', 0.5 - D - 0.5, 1)
    dx, dy, dz = x - centre[0], y - centre[1], z - 0.5
    if periodic:
        # the nearest image
        dx = env.ite(dx > 2, dx - 4, env.ite(dx < -2, dx + 4, dx))
        dy = env.ite(dy > 1.5, dy - 3, env.ite(dy < -1.5, dy + 3, dy))
    deg = math.pi / 180
    sa, ca = math.sin(alpha * deg), math.cos(alpha * deg)
    u, v = dx * ca + dy * sa, -dx * sa + dy * ca
    l2 = (u / (L / 2)) * (u / (L / 2)) + (v / (W / 2)) * (v / (W / 2)) + (dz / D) * (dz / D)
    env.assume(env.And(dz <= 0, l2 <= 0.999))
    if structure == 'bulb_sets':
        # points of a vertical plane, away from the axis of the trough
        env.assume(env.And(dy == 0, env.Or(dx >= 0.01, dx <= -0.01)))
    ids, ang = cell_arrays(env)
    ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, 0, 0, grid)
    env.check_eq('ha', ids[2], 5)
    num = len(made[0])
    if structure == 'dip':
        env.check_eq('azim', ang[0], az + alpha)
        env.check_eq('dip', ang[1], dip)
    within, ok = [], []
    for r in shifts(env, dist if structure == 'dip' else 1.0):
        if structure == 'dip':
            ra, rd = (az + alpha) * deg, dip * deg
            q = (math.sin(rd) * math.cos(ra) * dx - math.sin(rd) * math.sin(ra) * dy + math.cos(rd) * dz + r) / dist
            lay = env.trunc(q) + num // 2
        else:
            q = (env.sqrt(l2) + r) * D / dist
            lay = env.ceil(q)
        within.append(env.And(lay >= 0, lay < num))
        ok += [env.And(q > k - 1e-6, q < k + 1e-6) for k in range(-num, num)]
        ok += [env.And(lay == k, ids[0] == made[0][k]) for k in range(num)]
    env.check('layer-in-sequence', env.Or(*within))
    env.check('layer-facies', env.Or(*ok))


def order(env, n):
    """given positions: every one becomes a trough, from top to bottom"""
    grid = simple_grid((4, 3, 2))
    pos = [[env.real('x%d' % k, -9, 9), env.real('y%d' % k, -9, 9), env.real('z%d' % k, -9, 9)] for k in range(n)]
    params = trough_params(te_xyz=pos)
    ae = element(env, 'hyvr.geo.trough_ae', 'TroughAE', params, grid)
    env.check('number', ae.n_objects == n)
    o = ae.object_list
    for k in range(n - 1):
        env.check('top-to-bottom', o[k].z >= o[k + 1].z)
    for p in pos:
        env.check('present', env.Or(*[env.And(t.x == p[0], t.y == p[1], t.z == p[2]) for t in o]))
    for k, t in enumerate(o):
        env.check('given', env.Or(*[env.And(t.x == p[0], t.y == p[1], t.z == p[2]) for p in pos]))
        env.check_eq('stored', [ae.object_x[k], ae.object_y[k], ae.object_z[k]], [t.x, t.y, t.z])
        env.check_eq('zrange', [ae.object_zmins[k], ae.object_zmaxs[k]], [t.z - 1, t.z])


P3 = 36.86989764584402     # sin 3/5, cos 4/5
P4 = 53.13010235415598     # sin 4/5, cos 3/5


def cases(tier):
    cs = [dict(name='shape-any-massive', fn=trough, args=dict(alpha=None, structure='massive'), budget=200)]
    for al in (0.0, 30.0, 90.0, -50.0):
        cs.append(dict(name='shape-%d' % al, fn=trough, args=dict(alpha=al, structure='massive')))
    cs.append(dict(name='bulb-shape', fn=trough, args=dict(alpha=0.0, structure='bulb', sized=False, cut=True)))
    cs.append(dict(name='random-shape', fn=trough, args=dict(alpha=0.0, structure='random', sized=False, cut=True)))
    cs.append(dict(name='periodic-0', fn=trough, args=dict(alpha=0.0, structure='massive', periodic=1)))
    cs.append(dict(name='periodic-37', fn=trough, args=dict(alpha=P3, structure='massive', periodic=1, sized=False,
                                                            lag=False), budget=150))
    for al, az, d in ((0.0, 0.0, 0.0), (0.0, 0.0, P3), (P3, P3, P3), (0.0, 90.0, P4), (-P4, 0.0, P3)):
        for dist in (0.75, 1.5, 4.0):
            cs.append(dict(name='dip-%d-%d-%d-%g' % (al, az, d, dist), fn=layers,
                           args=dict(alpha=al, structure='dip', dist=dist, az=az, dip=d)))
    for al, az, d, dist in ((0.0, 0.0, 0.0, 0.5), (0.0, 0.0, P3, 0.75), (P3, 0.0, P3, 0.5)):
        cs.append(dict(name='deep-%d-%d-%g' % (al, d, dist), fn=layers,
                       args=dict(alpha=al, structure='dip', dist=dist, az=az, dip=d, size=(1.0, 0.75, 3.0))))
    for c in ((0.25, 2.75), (3.5, 0.5)):
        cs.append(dict(name='images-%g' % c[0], fn=layers,
                       args=dict(alpha=0.0, structure='dip', dist=0.75, dip=P3, size=(2.0, 1.5, 1.0), centre=c, periodic=1)))
    for al, ds in ((0.0, (0.75, 1.5)), (P3, (1.5,) if tier == 'quick' else (1.5, 0.75))):
        for dist in ds:
            cs.append(dict(name='bulbs-%d-%g' % (al, dist), fn=layers, args=dict(alpha=al, structure='bulb_sets', dist=dist),
                           budget=60 if tier == 'quick' else 600))
    cs += [dict(name='order-%d' % n, fn=order, args=dict(n=n)) for n in (0, 1, 2, 3, 4)]
    return cs
