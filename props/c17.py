"""C17: what a sheet assigns to a cell"""
import math
import types
from props.geo import *
from props import c14

BOUNDS = ('sheet elements of 1-2 sheets over 1-2 columns with arbitrary surfaces; an arbitrary query point in an '
          'arbitrary column; azimuth and dip ranges arbitrary; dipping sets with arbitrary set distance (at least a '
          'quarter of the domain diagonal; fixed small distances at the ends of domains of up to 40 cells), all facies outcomes; for the layer number of a point the angles are '
          'taken from {0, 10, 30, 45, 90, 200, 300} degrees, for the plane equation they are arbitrary')
ASSUMPTIONS = ['real arithmetic; sin and cos of constant angles rounded to 16 digits',
               'facies sequences are arbitrary here (their order: C21)']


def query(env, ae, grid, n, cls):
    x, y, z = env.real('x', 0, n[0]), env.real('y', 0, n[1]), env.real('z', -12, 12)
    c = (env.num('xi', 0, n[0] - 1), env.num('yi', 0, n[1] - 1))
    ids, ang = env.np.empty(4, dtype=env.np.int32), env.np.empty(2, dtype=env.np.float64)
    ids[0] = ids[1] = ids[2] = ids[3] = -1
    ang[0] = ang[1] = float('nan')
    return x, y, z, c, ids, ang


def massive(env, n, nsheets):
    grid = simple_grid((n[0], n[1], 1), periodic=env.bool('periodic'))
    T, B = c14.surface(env, 'top', n), c14.surface(env, 'bot', n)
    for c in box(n):
        env.assume(B[c] <= T[c])
    az = [env.real('az0', -180, 180), env.real('az1', -180, 180)]
    dp = [env.real('dip0', -90, 90), env.real('dip1', -90, 90)]
    env.assume(az[0] <= az[1])
    env.assume(dp[0] <= dp[1])
    fac = [env.int('f0', 0, 9), env.int('f1', 0, 9)]
    params = sheet_params(azimuth=az, dip=dp, facies=fac)
    if nsheets > 1:
        th = params['lens_thickness'] = env.real('th', lo=0.1, hi=30)
        hi, lo = T[(0, 0)], B[(0, 0)]
        for c in box(n):
            hi, lo = env.max(hi, T[c]), env.min(lo, B[c])
        env.assume(hi - lo <= nsheets * th)
    ae, top, bot = c14.make(env, n, params, T, B, grid)
    for k in range(ae.n_objects):
        ae.object_num_ha[k] = 40 + k
    x, y, z, c, ids, ang = query(env, ae, grid, n, None)
    for k, o in enumerate(ae.object_list):
        ids[0] = ids[2] = -1
        ae.maybe_assign_points_to_object(k, ids, ang, x, y, z, c[0], c[1], grid)
        inside = env.And(z >= o.bottom_surface.surface[c], z <= o.top_surface.surface[c])
        env.check('member', env.implies(inside, ids[0] != -1))
        env.check('not-member', env.implies(env.Not(inside), ids[0] == -1))
        env.check('facies', env.implies(inside, env.And(env.Or(*[ids[0] == f for f in fac]), ids[0] == o.facies)))
        env.check('ha', env.implies(inside, ids[2] == 40 + k))
        env.check('angles-in-range', env.And(o.azim >= az[0], o.azim <= az[1], o.dip >= dp[0], o.dip <= dp[1]))
        got = ids[0] != -1
        if env.symbolic or got:
            if bool(got):
                env.check_eq('azim', ang[0], o.azim)
                env.check_eq('dip', ang[1], o.dip)


def dipset(env, n, az, dip, far=None):
    """layer number of a point, for fixed angles"""
    nz = n[2] if far else 2
    grid = simple_grid((n[0], n[1], nz), x0=env.real('x0', -5, 5), y0=env.real('y0', -5, 5), z0=-1.0, periodic=env.bool('periodic'))
    if far:
        # a long domain with many layers, at its ends
        n = n[:2]
        zt, zb = nz - 1.0, -1.0
    else:
        zt, zb = env.real('zt', -1, 1), env.real('zb', -1, 1)
        env.assume(zb <= zt)
    T, B = {c: zt for c in box(n)}, {c: zb for c in box(n)}
    hu = env.load('hyvr.utils')
    diag = math.sqrt(grid.nx ** 2 + grid.ny ** 2 + 4)
    dist = far or env.real('dist', lo=diag / 4, hi=2 * diag)
    made = []

    def alt(num, params):
        f = [env.int('fac_%d_%d' % (len(made), i), 0, 9) for i in range(num)]
        made.append(f)
        return env.arr(f, 'i')
    patch(hu, 'get_alternating_facies', alt)
    params = sheet_params(structure='dip', dipset_dist=dist, azimuth=[az, az], dip=[dip, dip], facies=[0, 1])
    ae, top, bot = c14.make(env, n, params, T, B, grid)
    ae.object_num_ha[0] = 5
    env.check('one-sheet', ae.n_objects == 1 and len(made) == 1)
    if far:
        c = (env.pick('xi', sorted({0, n[0] - 1})), env.pick('yi', sorted({0, n[1] - 1})))
        z = env.real('z', nz - 2, nz - 1)
    else:
        c = (env.num('xi', 0, n[0] - 1), env.num('yi', 0, n[1] - 1))
        z = env.real('z', -1, 1)
    x, y = grid.x0 + c[0] + 0.5, grid.y0 + c[1] + 0.5
    ids, ang = env.np.empty(4, dtype=env.np.int32), env.np.empty(2, dtype=env.np.float64)
    ids[0] = ids[1] = ids[2] = ids[3] = -1
    ang[0] = ang[1] = float('nan')
    ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, c[0], c[1], grid)
    inside = bool(env.And(z >= zb, z <= zt))
    if not inside:
        env.check('not-member', ids[0] == -1)
        return
    env.check_eq('azim', ang[0], az)
    env.check_eq('dip', ang[1], dip)
    env.check_eq('ha', ids[2], 5)
    a, d = math.radians(az), math.radians(dip)
    nv = (-math.sin(d) * math.cos(a), math.sin(d) * math.sin(a), math.cos(d))
    xc, yc = grid.x0 + grid.lx / 2, grid.y0 + grid.ly / 2
    num = len(made[0])
    within, ok = [], []
    for r in shifts(env):
        dd = nv[0] * (x - xc) + nv[1] * (y - yc) + nv[2] * (z - zb) - r * dist
        q = dd / dist
        lay = env.trunc(q)
        # the layer is one of the sequence, and the zero plane is in the middle
        within.append(env.And(lay + num // 2 >= 0, lay + num // 2 < num))
        # points close to a layer boundary are excluded: rounding decides there
        ok += [env.And(q > k - 1e-6, q < k + 1e-6) for k in range(-9, 10) if not far] + [
            env.And(q > k - 1e-6, q < k + 1e-6) for k in range(-num // 2, num // 2 + 1) if far]
        ok += [env.And(lay == k - num // 2, ids[0] == made[0][k]) for k in range(num)]
    env.check('layer-in-sequence', env.Or(*within))
    env.check('layer-facies', env.Or(*ok))


def plane(env):
    """normal vector and offset for arbitrary angles"""
    grid = simple_grid((1, 2, 2), x0=env.real('x0', -5, 5), y0=env.real('y0', -5, 5), z0=-1.0, periodic=env.bool('periodic'))
    n = (1, 2)
    hu = env.load('hyvr.utils')
    patch(hu, 'get_alternating_facies', lambda num, p: env.arr([0] * num, 'i'))
    T = {c: 1.0 for c in box(n)}
    B = {c: env.real('zb%d' % c[1], -1, 1) for c in box(n)}
    zb = (B[(0, 0)] + B[(0, 1)]) / 2
    az = [env.real('az0', -180, 180), env.real('az1', -180, 180)]
    dp = [env.real('dip0', -90, 90), env.real('dip1', -90, 90)]
    env.assume(az[0] <= az[1])
    env.assume(dp[0] <= dp[1])
    dist = env.real('dist', lo=3, hi=5)
    params = sheet_params(structure='dip', dipset_dist=dist, azimuth=az, dip=dp, facies=[0, 1])
    ae, top, bot = c14.make(env, n, params, T, B, grid)
    o = ae.object_list[0]
    env.check('angles-in-range', env.And(o.azim >= az[0], o.azim <= az[1], o.dip >= dp[0], o.dip <= dp[1]))
    names = ['object_normvec_x', 'object_normvec_y', 'object_normvec_z', 'object_shift', 'object_layer_dist',
             'object_dipsets']
    if not all(hasattr(ae, m) for m in names):
        return      # another representation of the planes: the layer cases decide
    deg = math.pi / 180
    sa, ca, sd, cd = env.sin(o.azim * deg), env.cos(o.azim * deg), env.sin(o.dip * deg), env.cos(o.dip * deg)
    N = (-sd * ca, sd * sa, cd)
    env.check_eq('normal', [ae.object_normvec_x[0], ae.object_normvec_y[0], ae.object_normvec_z[0]], list(N))
    off = N[0] * (grid.x0 + 0.5) + N[1] * (grid.y0 + 1) + N[2] * zb
    env.check('offset', env.And(ae.object_shift[0] >= off - 1e-6, ae.object_shift[0] <= off + dist + 1e-6))
    env.check_eq('distance', ae.object_layer_dist[0], dist)
    env.check('flag', bool(ae.object_dipsets[0]))


def cases(tier):
    cs = [dict(name='massive-1x1', fn=massive, args=dict(n=(1, 1), nsheets=1)),
          dict(name='massive-1x2', fn=massive, args=dict(n=(1, 2), nsheets=1)),
          dict(name='massive-2x1-2', fn=massive, args=dict(n=(2, 1), nsheets=2)),
          dict(name='plane', fn=plane)]
    angs = [(0.0, 0.0), (0.0, 30.0), (90.0, 30.0), (200.0, 10.0)]
    if tier != 'quick':
        angs += [(300.0, 45.0), (45.0, 90.0), (30.0, 10.0)]
        cs.append(dict(name='massive-2x2-3', fn=massive, args=dict(n=(2, 2), nsheets=3), budget=1500))
    for a, d in angs:
        cs.append(dict(name='dip-%d-%d' % (a, d), fn=dipset, args=dict(n=(1, 2), az=a, dip=d)))
    for n, a, d, dist in (((1, 40, 1), 90.0, 90.0, 0.9), ((40, 1, 1), 0.0, 90.0, 0.9), ((1, 1, 40), 0.0, 0.0, 0.9),
                          ((12, 12, 1), 225.0, 90.0, 0.3), ((12, 12, 12), 225.0, 54.7, 0.1), ((2, 2, 40), 200.0, 10.0, 1.5)):
        cs.append(dict(name='long-%dx%dx%d' % n, fn=dipset, args=dict(n=n, az=a, dip=d, far=dist)))
    return cs
