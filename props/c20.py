"""C20: what a channel (extruded parabola) assigns to a cell"""
import math
from props.geo import *

BOUNDS = ('one or two channels along 1-4 centreline points, straight, bent and long (arbitrary for single cells and up to 2 points, otherwise '
          'from fixed lists), arbitrary width, depth and lag, an arbitrary point, or all cells of a grid of up to 4x4 '
          'columns and 2 layers visited from top to bottom in the order of the program')
ASSUMPTIONS = ['real arithmetic; sin and cos of constant angles rounded to 16 digits',
               'the centreline is given (its shape: C23)', 'cells of a column are visited from top to bottom (C16)',
               'facies sequences are arbitrary here (their order: C21)', 'dip of dipping sets between 0 and 90 degrees',
               'the Cython source is executed as Python after removing its type declarations']


def make(env, grid, params, xs, ys, vx=None, vy=None, zt=0.0):
    """a channel element with one channel at the given elevation"""
    vx, vy = vx or [1.0] * len(xs), vy or [0.0] * len(xs)
    out = env.arr([[xs[i], ys[i], vx[i], vy[i]] for i in range(len(xs))])
    f = lambda *a, **k: out
    patch(env.load('hyvr.geo.channel_utils'), 'ferguson_curve', f)
    patch(env.load('hyvr.geo.channel_ae'), 'ferguson_curve', f)
    params['agg'] = 1.0
    # one level only: top of the element one aggradation above the channel top
    ae = element(env, 'hyvr.geo.channel_ae', 'ChannelAE', params, grid, ztop=zt + 1.0, zbot=zt - 0.5)
    assert ae.n_objects == 1
    ae.object_num_ha[0] = 5
    return ae


def point(env, npts, structure='massive', lag=True):
    """one cell (of a coarse grid: no other cell is marked as too far)"""
    grid = simple_grid((4, 3, 2), dx=100.0, dy=100.0, periodic=env.bool('periodic'))
    W, D = env.real('width', lo=0.2, hi=8), env.real('depth', lo=0.1, hi=4)
    hlag = env.real('lag', lo=0, hi=2) if lag else 0.0
    dp = [env.real('dip0', 0, 90), env.real('dip1', 0, 90)]
    env.assume(dp[0] <= dp[1])
    if npts < 3:
        xs = [env.real('x%d' % i, -5, 9) for i in range(npts)]
        ys = [env.real('y%d' % i, -5, 9) for i in range(npts)]
    else:
        xs, ys = [-0.5, 1.25, 3.0, 4.5][:npts], [0.5, 2.0, 1.5, 0.25][:npts]
    params = channel_params(width=W, depth=D, lag_height=hlag, lag_facies=9, dip=dp, facies=[3, 5], buffer=0.0)
    zt = env.real('zt', -3, 3)
    ae = make(env, grid, params, xs, ys, zt=zt)
    o = ae.object_list[0]
    env.check_eq('zrange', [ae.object_zmins[0], ae.object_zmaxs[0]], [zt - D, zt])
    x, y, z = env.real('x', 0, 4), env.real('y', 0, 3), env.real('z', -9, 6)
    ids, ang = cell_arrays(env)
    ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, 0, 0, grid)
    ins = []
    for i in range(npts):
        d2 = (x - xs[i]) * (x - xs[i]) + (y - ys[i]) * (y - ys[i])
        ins.append(d2 * 4 * D <= W * W * (z - zt + D))
    inside = env.And(z <= zt, env.Or(*ins))
    if not bool(ids[0] != -1):
        env.check('not-member', env.Not(inside))
        return
    env.check('member', inside)
    env.check_eq('ha', ids[2], 5)
    if bool(z < zt - D + hlag):
        env.check('lag', ids[0] == 9)
        env.check_eq('lag-angles', [ang[0], ang[1]], [0, 0])
    else:
        env.check('facies', env.Or(ids[0] == 3, ids[0] == 5))
        env.check('facies-of-object', ids[0] == o.facies)
        env.check('dip', env.And(ang[1] >= dp[0], ang[1] <= dp[1]))


def sweep(env, n, dx, dy, xs, ys, structure='massive', dip=0.0, widths=(0.5, 1.0, 2.5)):
    """all cells of a grid, in the order of the program"""
    grid = simple_grid(n, dx=dx, dy=dy, z0=-2.0, periodic=env.bool('periodic'))
    W = env.pick('width', list(widths))
    D = env.real('depth', lo=0.1, hi=4)
    params = channel_params(width=W, depth=D, facies=[3], structure=structure, dipset_dist=2.0, dip=[dip, dip])
    ae = make(env, grid, params, xs, ys, zt=-0.5)
    zs = [env.real('z%d' % k, -4, 0) for k in range(n[2])]
    for k in range(1, n[2]):
        env.assume(zs[k] < zs[k - 1])
    for i in range(n[0]):
        for j in range(n[1]):
            for k in range(n[2]):
                ids, ang = cell_arrays(env)
                x, y, z = (i + 0.5) * dx, (j + 0.5) * dy, zs[k]
                ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, i, j, grid)
                d2 = min((x - a) ** 2 + (y - b) ** 2 for a, b in zip(xs, ys))
                # (rounding of the square root: cells on the boundary may be on either side)
                excess = d2 * 4 * D - W * W * (z + 0.5 + D)
                env.check('member', env.implies(env.And(z <= -0.5, excess <= -1e-9), ids[0] != -1))
                env.check('not-member', env.implies(env.Or(z > -0.5, excess >= 1e-9), ids[0] == -1))


def again(env, n, lines):
    """several elements of one type, one after the other on the same grid"""
    grid = simple_grid(n, z0=-2.0, periodic=env.bool('periodic'))
    W, D = 1.0, env.real('depth', lo=0.1, hi=4)
    params = channel_params(width=W, depth=D, facies=[3])
    for k, (xs, ys) in enumerate(lines):
        ae = make(env, grid, params, xs, ys, zt=-0.5)
        z = env.real('z%d' % k, -4, 0)
        for i, j in box(n[:2]):
            ids, ang = cell_arrays(env)
            ae.maybe_assign_points_to_object(0, ids, ang, i + 0.5, j + 0.5, z, i, j, grid)
            d2 = min((i + 0.5 - a) ** 2 + (j + 0.5 - b) ** 2 for a, b in zip(xs, ys))
            excess = d2 * 4 * D - W * W * (z + 0.5 + D)
            env.check('member', env.implies(env.And(z <= -0.5, excess <= -1e-9), ids[0] != -1))
            env.check('not-member', env.implies(env.Or(z > -0.5, excess >= 1e-9), ids[0] == -1))


def pair(env, lines, structure, order, wide=None):
    """two channels of one element, with centrelines of different length"""
    grid = simple_grid((4, 3, 2), dx=1.5, dy=2.0, periodic=env.bool('periodic'))
    hu = env.load('hyvr.utils')
    patch(hu, 'get_alternating_facies', lambda num, params: env.arr([3] * int(num), 'i'))
    W, D = wide or env.real('width', lo=0.2, hi=3), env.real('depth', lo=0.1, hi=4)
    hlag = env.real('lag', lo=0, hi=2)
    made = []

    def curve(*a, **k):
        xs, ys = lines[len(made) % 2]
        made.append(1)
        return env.arr([[p, q, 1.0, 0.0] for p, q in zip(xs, ys)])
    patch(env.load('hyvr.geo.channel_utils'), 'ferguson_curve', curve)
    patch(env.load('hyvr.geo.channel_ae'), 'ferguson_curve', curve)
    params = channel_params(width=W, depth=D, lag_height=hlag, lag_facies=9, dip=[30.0, 30.0], facies=[3], buffer=0.0,
                            agg=1.0, channel_no=2, structure=structure, dipset_dist=2.0)
    ae = element(env, 'hyvr.geo.channel_ae', 'ChannelAE', params, grid, ztop=1.0, zbot=-0.5)
    env.check('two-channels', ae.n_objects == 2)
    for k in range(2):
        ae.object_num_ha[k] = 5 + k
    for (k, i, j) in order:
        x, y, z = (i + 0.5) * 1.5, (j + 0.5) * 2.0, env.real('z_%d_%d_%d' % (k, i, j), -5, 1)
        # a cell of the same column is visited from top to bottom
        ids, ang = cell_arrays(env)
        ae.maybe_assign_points_to_object(k, ids, ang, x, y, z, i, j, grid)
        xs, ys = lines[k]
        d2 = min((x - a) ** 2 + (y - b) ** 2 for a, b in zip(xs, ys))
        excess = d2 * 4 * D - W * W * (z + D)
        env.check('member', env.implies(env.And(z <= 0, excess <= -1e-9), ids[0] != -1))
        env.check('not-member', env.implies(env.Or(z > 0, excess >= 1e-9), ids[0] == -1))
        if bool(ids[0] != -1):
            env.check_eq('ha', ids[2], 5 + k)
            if bool(z < hlag - D):
                env.check('lag', ids[0] == 9)
                env.check_eq('lag-angles', [ang[0], ang[1]], [0, 0])
            else:
                env.check('facies', ids[0] == 3)
                env.check_eq('dip', ang[1], 30)


LINES = {'straight': ([0.0, 1.5, 3.5], [1.0, 1.0, 1.0]), 'bent': ([0.0, 1.5, 2.25, 2.25], [1.0, 1.0, 2.0, 4.5]),
         'long-x': ([0.0, 60.0], [1.0, 1.0]), 'long-y': ([1.0, 1.0], [-30.0, 30.0]),
         'back': ([3.0, 2.25, 2.25], [0.5, 1.5, 3.0])}


def dipsets(env, dip, dist, part, line='straight', depth=None):
    """layers of a channel with dipping sets"""
    grid = simple_grid((4, 3, 2), periodic=env.bool('periodic'))
    hu = env.load('hyvr.utils')
    made = []

    def alt(num, params):
        num = int(num)
        f = [env.int('fac_%d_%d' % (len(made), i), 0, 9) for i in range(num)]
        made.append(f)
        return env.arr(f, 'i')
    patch(hu, 'get_alternating_facies', alt)
    D = depth or env.real('depth', lo=0.5, hi=3)
    W = 4.0
    xs, ys = LINES[line]
    npts = len(xs)
    path = [0.0]
    for a in range(1, npts):
        path.append(path[-1] + math.hypot(xs[a] - xs[a - 1], ys[a] - ys[a - 1]))
    if part == 'layers':
        vx, vy = [1.0, 0.8, 0.0, 0.6][:npts], [0.0, -0.6, 1.0, 0.8][:npts]
    else:
        vx = [env.real('vx%d' % i, -1, 1) for i in range(npts)]
        vy = [env.real('vy%d' % i, -1, 1) for i in range(npts)]
        if line != 'straight':
            vx[1:], vy[1:] = [0.8, 0.0, 0.6][:npts - 1], [-0.6, 1.0, 0.8][:npts - 1]
    params = channel_params(width=W, depth=D, structure='dip', dipset_dist=dist, dip=[dip, dip], facies=[0, 1])
    ae = make(env, grid, params, xs, ys, vx, vy)
    env.check('one-sequence', len(made) == 1)
    i = env.num('i', 0, npts - 1)
    x = xs[i] + 0.25
    if part == 'layers':
        z = env.real('z', -1 if depth else -3, 0)
    else:
        z = -env.real('below', 0, 0.25)
    y = ys[i]
    ids, ang = cell_arrays(env)
    ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, min(i, 2), 1, grid)
    inside = bool(0.0625 * 4 * D <= W * W * (z + D))
    if not inside:
        env.check('not-member', ids[0] == -1)
        return
    env.check_eq('ha', ids[2], 5)
    env.check_eq('dip', ang[1], dip)
    if part == 'azimuth':
        azimuth(env, x, y, xs, ys, vx, vy, ang)
        return
    deg = math.pi / 180
    sd, cd = math.sin(dip * deg), math.cos(dip * deg)
    num = len(made[0])
    ok, within = [], []
    for r in shifts(env, dist):
        q = (path[i] * sd + (z + D) * cd + r) / dist
        lay = env.floor(q)
        within.append(env.And(lay >= 0, lay < num))
        ok += [env.And(q > k - 1e-6, q < k + 1e-6) for k in range(num)]
        ok += [env.And(lay == k, ids[0] == made[0][k]) for k in range(num)]
    env.check('layer-in-sequence', env.Or(*within))
    env.check('layer-facies', env.Or(*ok))


def azimuth(env, x, y, xs, ys, vx, vy, ang):
    # azimuth: direction of the inverse distance weighted velocity
    w = [1 / math.hypot(x - a, y - b) for a, b in zip(xs, ys)]
    ux, uy = sum(a * b for a, b in zip(w, vx)), sum(a * b for a, b in zip(w, vy))
    deg = math.pi / 180
    ca, sa = env.cos(ang[0] * deg), env.sin(ang[0] * deg)
    t = 1e-6
    env.check('azimuth', env.And(ca * uy - sa * ux <= t, ca * uy - sa * ux >= -t, ca * ux + sa * uy >= -t))


def cases(tier):
    cs = [dict(name='point-%d' % n, fn=point, args=dict(npts=n)) for n in (1, 2, 3, 4)]
    L2 = ([0.5, 3.5], [0.5, 9.5])
    L3 = ([0.0, 1.0, 2.0], [12.0, 11.0, 12.0])
    for name, n, dx, dy, (xs, ys) in (('unit', (3, 3, 1), 1.0, 1.0, ([-1.0], [0.7])), ('diagonal', (4, 4, 1), 1.0, 1.0, ([3.25], [3.375])),
                                      ('corner', (4, 4, 1), 1.0, 1.0, ([3.25], [0.5])), ('left', (5, 2, 1), 0.5, 1.0, ([0.25], [1.5])), ('long-y', (2, 4, 1), 1.0, 3.0, L3),
                                      ('long-x', (4, 2, 1), 3.0, 1.0, ([10.0], [1.0])),
                                      ('small', (4, 3, 1), 0.5, 0.5, ([1.75], [1.0])),
                                      ('flat', (3, 10, 1), 3.0, 0.5, ([7.4, 9.0], [4.6, 6.0])),
                                      ('flat-back', (4, 10, 1), 3.0, 0.5, ([4.4, 0.0], [4.2, 6.0])),
                                      ('steep', (10, 3, 1), 0.5, 3.0, ([4.6], [7.4])),
                                      ('steep-back', (10, 4, 1), 0.5, 3.0, ([4.7, 6.0], [1.4, 0.0])),
                                      ('two', (2, 3, 2), 1.0, 4.0, L2),
                                      ('column', (1, 4, 2), 1.0, 2.0, ([0.5], [7.25]))):
        cs.append(dict(name='sweep-' + name, fn=sweep, args=dict(n=n, dx=dx, dy=dy, xs=xs, ys=ys)))
    cs.append(dict(name='again', fn=again, args=dict(n=(4, 4, 1), lines=[([3.25], [3.375]), ([0.75], [0.5]), ([2.5], [1.25])])))
    for name, n, x, y in (('x', (10, 1, 1), 4.75, 0.25), ('y', (1, 10, 1), 0.25, 4.75)):
        cs.append(dict(name='sweep-wide-' + name, fn=sweep, args=dict(n=n, dx=0.5, dy=0.5, xs=[x], ys=[y], widths=(3.5, 5.5))))
    for d in (0.0, 36.86989764584402, 90.0):
        for dist in (1.0, 2.5):
            cs.append(dict(name='dip-%d-%g' % (d, dist), fn=dipsets, args=dict(dip=d, dist=dist, part='layers')))
    cs.append(dict(name='dip-azimuth', fn=dipsets, args=dict(dip=30.0, dist=1.0, part='azimuth')))
    for line in ('bent', 'back'):
        for d, dist in ((36.86989764584402, 2.5), (90.0, 1.0), (0.0, 1.0)):
            cs.append(dict(name='dip-%s-%d' % (line, d), fn=dipsets, args=dict(dip=d, dist=dist, part='layers', line=line)))
        cs.append(dict(name='dip-azimuth-' + line, fn=dipsets, args=dict(dip=30.0, dist=1.0, part='azimuth', line=line)))
    cs.append(dict(name='dip-long-x', fn=dipsets, args=dict(dip=90.0, dist=0.9, part='layers', line='long-x')))
    cs.append(dict(name='dip-long-y', fn=dipsets, args=dict(dip=90.0, dist=0.9, part='layers', line='long-y')))
    cs.append(dict(name='dip-deep', fn=dipsets, args=dict(dip=0.0, dist=0.5, part='layers', depth=40.0)))
    A, B = ([0.5], [0.25]), ([5.0, 5.5, 4.0], [4.5, 1.0, 0.5])
    for st in ('massive', 'dip'):
        for k, (p, q) in enumerate(((A, B), (B, A))):
            cs.append(dict(name='pair-%s-%d' % (st, k), fn=pair, args=dict(
                lines=(p, q), structure=st, wide=2.0 if st == 'dip' else None,
                order=((0, 0, 0), (1, 0, 0), (0, 3, 2)) + (((1, 3, 2),) if st == 'massive' else ()))))
    cs.append(dict(name='sweep-dip', fn=sweep, args=dict(n=(3, 3, 1), dx=1.0, dy=1.0, xs=[-1.0, 3.5], ys=[0.7, 3.5],
                                                         structure='dip')))
    return cs
