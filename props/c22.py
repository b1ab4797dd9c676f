"""C22: where troughs and channels are placed and how large they are"""
import itertools
import math
from props.geo import *

BOUNDS = ('up to 3 levels of troughs with 0-2 troughs drawn per level (6 levels with 1 trough, 1 level with 6), up to 3 '
          'levels with 1-2 channels (6 levels with 1 channel, 2 with 6); arbitrary '
          'domain origin and extent, element top and bottom, sizes, buffers and trends; distance between levels from '
          '{0.75, 1}; mean flow directions 0, 37, 90, -53, 180 degrees; every outcome of every random draw '
          '(normal draws within 4 standard deviations)')
ASSUMPTIONS = ['real arithmetic; sin and cos of constant angles rounded to 16 digits',
               'sizes, densities and distances are positive', 'the centreline itself: C23',
               'the Cython source is executed as Python after removing its type declarations']
OPTS = {'normal_bound': 4, 'poisson_max': 2}


def uniform_over(env, v, lo, hi):
    """v is the image of a uniform draw under the affine map onto [lo, hi)"""
    c = []
    for l, h, d in env.draws('ur'):
        if isinstance(l, (int, float)) and isinstance(h, (int, float)) and l == h:
            continue
        e = (d - l) * (hi - lo) - (v - lo) * (h - l)
        c.append(env.And(e <= 1e-9, e >= -1e-9))
    return env.Or(*c)


def distinct_draws(env):
    """independent draws have different values"""
    us = shifts(env)
    for i in range(len(us)):
        for j in range(i):
            env.assume(env.Or(us[i] > us[j] + 1e-3, us[i] < us[j] - 1e-3))
    gs = env.draws('g')
    for i in range(len(gs)):
        for j in range(i):
            env.assume(env.Or(gs[i] > gs[j] + 1e-3, gs[i] < gs[j] - 1e-3))


def surfaces(env):
    """uneven bottom and top of an element"""
    T = {(0, 0): env.real('zt0', -1, 3), (0, 1): env.real('zt1', -1, 3)}
    B = {(0, 0): env.real('zb0', -4, 3), (0, 1): env.real('zb1', -4, 3)}
    return T, B


def contact(env, grid, H):
    """a contact surface with given elevations"""
    hu = env.load('hyvr.utils')
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    patch(hu, 'specsim', lambda *a, **k: env.arr([[H[(0, 0)], H[(0, 1)]]]))
    return CS(grid, mode='random', z=0.0, var=1.0, corlx=1.0, corly=1.0)


def troughs(env, agg, migrate, nmax=2, trend=True, sized=True, nmin=0, per=(0, 2)):
    env.opts['poisson_min'], env.opts['poisson_max'] = per
    g = simple_grid((1, 2, 2), periodic=env.bool('periodic'))
    x0, y0 = env.real('x0', -5, 5), env.real('y0', -5, 5)
    lx, ly, lz, z0 = env.real('lx', 0.5, 9), env.real('ly', 0.5, 9), env.real('lz', 1, 5), env.real('z0', -5, 0)
    if not sized:
        lx, ly, lz, z0 = 3.0, 2.0, 4.0, -2.0
    for k, v in dict(x0=x0, y0=y0, z0=z0, lx=lx, ly=ly, lz=lz, xmax=x0 + lx, ymax=y0 + ly, zmax=z0 + lz, dx=lx,
                     dy=ly / 2, dz=lz / 2).items():
        setattr(g, k, v)
    L, W, D = (env.real(n, lo=0.2, hi=8) for n in ('length', 'width', 'depth'))
    buf = env.real('buffer', 0, 1) if sized else 0.5
    dens = env.real('density', 0.05, 3)
    T, B = surfaces(env)
    tm, bm = (T[0, 0] + T[0, 1]) / 2, env.max(B[0, 0], B[0, 1])
    low = bm + D * buf
    env.assume(tm - nmax * agg <= low)
    if nmin:
        env.assume(tm - (nmin - 1) * agg > low)
    pal = [env.real('pal0', -180, 180), env.real('pal1', -180, 180)]
    env.assume(pal[0] < pal[1] - 0.1)
    tr = [env.real('tr0', 0.1, 3), env.real('tr1', 0.1, 3)] if trend else None
    mig = None
    if migrate:
        mig = [env.real('m0', -3, 3), env.real('m1', 0.1, 3), env.real('m2', -3, 3), env.real('m3', 0.1, 3)]
    params = trough_params(length=L, width=W, depth=D, buffer=buf, trough_density=dens, agg=agg, migrate=mig,
                           paleoflow=pal, size_ztrend=tr)
    C = env.load('hyvr.geo.trough_ae').TroughAE
    top, bot = contact(env, g, T), contact(env, g, B)
    import types
    ae = C(bot, top, 'el', params, types.SimpleNamespace(bg_facies=7, bg_azim=8.0, bg_dip=9.0), g)
    objs = list(ae.object_list)
    distinct_draws(env)
    pois = env.draws('p')
    for lam, n in pois:
        env.check_eq('density', lam, dens * lx * ly)
    counts = [int(n) for lam, n in pois]
    # levels
    nlev = len(counts)
    if migrate and counts:
        env.check('drawn-once', nlev == 1)
        nlev = len(objs) // counts[0] if counts[0] else 1
        counts = counts[:1] * nlev
        if counts[0] == 0:
            env.check('no-troughs', not objs)
            return
    env.check('number', len(objs) == sum(counts) and ae.n_objects == len(objs))
    if len(objs) != sum(counts):
        return
    env.check('all-levels', tm - nlev * agg <= low)
    if nlev:
        env.check('levels-above-bottom', tm - (nlev - 1) * agg > low)
    k = 0
    prev = None
    norm = []
    for i, n in enumerate(counts):
        lev = objs[k:k + n]
        k += n
        for o in lev:
            env.check_eq('level', o.z, tm - i * agg)
            f = 1
            if trend:
                f = tr[0] + (o.z - z0) * (tr[1] - tr[0]) / lz
            env.check_eq('size', [o.a, o.b, o.c], [L * f / 2, W * f / 2, D * f])
            env.check('flow-direction', uniform_over(env, o.alpha, pal[0], pal[1]))
            if i == 0 or not migrate:
                env.check('x', uniform_over(env, o.x, x0, x0 + lx))
                env.check('y', uniform_over(env, o.y, y0, y0 + ly))
                norm += [(o.x - x0) / lx, (o.y - y0) / ly]
        if i and migrate:
            gs = env.draws('g')
            ok = []
            for perm in itertools.permutations(range(n)):
                c = []
                for o, j in zip(lev, perm):
                    ex, ey = o.x - prev[j].x, o.y - prev[j].y
                    c.append(env.Or(*[near(env, ex, mig[0] + mig[1] * h) for h in gs]))
                    c.append(env.Or(*[near(env, ey, mig[2] + mig[3] * h) for h in gs]))
                ok.append(env.And(*c))
            env.check('migrated', env.Or(*ok))
            if n == 1 and sized:
                env.check('migration-independent',
                          env.Not(near(env, (lev[0].x - prev[0].x - mig[0]) * mig[3], (lev[0].y - prev[0].y - mig[2]) * mig[1])))
        prev = lev
    for i in range(len(norm)):
        for j in range(i):
            env.check('positions-independent', env.Not(near(env, norm[i], norm[j])))


def near(env, a, b, t=1e-6):
    return env.And(a - b <= t, a - b >= -t)


def channels(env, angle, agg, nch, mig, trend=False, nmax=2, nmin=0):
    g = simple_grid((1, 2, 2), periodic=env.bool('periodic'))
    x0, y0 = env.real('x0', -5, 5), env.real('y0', -5, 5)
    lx, ly, lz, z0 = env.real('lx', 0.5, 9), env.real('ly', 0.5, 9), 4.0, -2.0
    for k, v in dict(x0=x0, y0=y0, z0=z0, lx=lx, ly=ly, lz=lz, xmax=x0 + lx, ymax=y0 + ly, zmax=z0 + lz, dx=lx,
                     dy=ly / 2, dz=lz / 2).items():
        setattr(g, k, v)
    W, D = (env.real(n, lo=0.2, hi=8) for n in ('width', 'depth'))
    buf = env.real('buffer', 0, 1)
    T, B = surfaces(env)
    tm, bm = (T[0, 0] + T[0, 1]) / 2, (B[0, 0] + B[0, 1]) / 2
    tr = [env.real('tr0', 0.1, 3), env.real('tr1', 0.1, 3)] if trend else None

    def factor(z):
        if not trend:
            return 1
        return env.ite(z <= z0, tr[0], env.ite(z >= z0 + lz, tr[1], tr[0] + (z - z0) * (tr[1] - tr[0]) / lz))
    low = bm + D * factor((tm + bm) / 2) * buf
    env.assume(tm - (nmax + 1) * agg <= low)
    if nmin:
        env.assume(tm - nmin * agg > low)
    m = env.real('mig', 0.1, 2) if mig else None
    h, k, ds, eps = env.real('h', 0.1, 0.9), env.real('k', 0.1, 0.9), env.real('ds', 0.5, 2), env.real('eps', 0, 1)
    params = channel_params(width=W, depth=D, buffer=buf, agg=agg, channel_no=nch, mig=m, flow_angle=angle,
                            size_ztrend=tr, h=h, k=k, ds=ds, eps_factor=eps, dip=[0.0, 0.0])
    calls = []

    def curve(grid, h, k, ds, eps_factor, flow_angle, domain_length, xstart, ystart, width):
        calls.append(dict(h=h, k=k, ds=ds, eps=eps_factor, ang=flow_angle, len=domain_length, x=xstart, y=ystart,
                          w=width))
        c = float(len(calls))
        return env.arr([[c, c + 0.25, 1.0, 0.0], [c + 1, c + 0.5, 0.75, -0.5]])
    patch(env.load('hyvr.geo.channel_utils'), 'ferguson_curve', curve)
    patch(env.load('hyvr.geo.channel_ae'), 'ferguson_curve', curve)
    C = env.load('hyvr.geo.channel_ae').ChannelAE
    top, bot = contact(env, g, T), contact(env, g, B)
    import types
    ae = C(bot, top, 'el', params, types.SimpleNamespace(bg_facies=7, bg_azim=8.0, bg_dip=9.0), g)
    objs = list(ae.object_list)
    env.check('number', env.And(len(objs) % nch == 0, ae.n_objects == len(objs), len(calls) == len(objs)))
    if len(objs) % nch or len(calls) != len(objs):
        return
    nlev = len(objs) // nch
    env.check('all-levels', tm - (nlev + 1) * agg <= low)
    if nlev:
        env.check('levels-above-bottom', tm - nlev * agg > low)
    distinct_draws(env)
    a = math.radians(angle)
    s, c = math.sin(a), math.cos(a)
    dw = abs(s) * lx + abs(c) * ly
    dl = abs(c) * lx + abs(s) * ly
    last = [None] * nch
    seen, moves = [], []
    for i in range(nlev):
        for j in range(nch):
            o = objs[i * nch + j]
            z = tm - (i + 1) * agg
            f = factor(z)
            env.check_eq('level', [o.ztop, o.zmax], [z, z])
            env.check_eq('size', [o.width, o.depth], [W * f, D * f])
            env.check_eq('zmin', o.zmin, z - D * f)
            q = calls[i * nch + j]
            env.check_eq('centreline', [o.x_center[0], o.y_center[0], o.x_center[1], o.y_center[1], o.vx[0], o.vx[1],
                                        o.vy[0], o.vy[1]],
                         [i * nch + j + 1, i * nch + j + 1.25, i * nch + j + 2, i * nch + j + 1.5, 1, 0.75, 0, -0.5])
            env.check_eq('curve-params', [q['h'], q['k'], q['ds'], q['eps'], q['ang'], q['len'], q['w']],
                         [h, k, ds, eps, a, dl, W * f], 1e-6)
            ex, ey = q['x'] - (x0 + lx / 2), q['y'] - (y0 + ly / 2)
            env.check('start-upstream', near(env, ex * c + ey * s, -(dl + W * f) / 2, 1e-4))
            lat = ey * c - ex * s
            if i == 0:
                lo, hi = -dw / 2, dw / 2
                env.check('start-lateral', env.And(lat >= lo - 1e-4, lat <= hi + 1e-4))
                env.check('start-drawn', env.Or(*[near(env, lat, lo + u * dw, 1e-4) for u in shifts(env)]))
                for p in seen:
                    env.check('start-independent', env.Not(near(env, lat, p)))
                seen.append(lat)
            elif not mig:
                env.check('same-start', near(env, lat, last[j], 1e-4))
            else:
                d = lat - last[j]
                env.check('migration', env.And(d <= m + 1e-4, d >= -m - 1e-4))
                env.check('migration-drawn', env.Or(*[near(env, d, m * (2 * u - 1), 1e-3) for u in shifts(env)],
                                                    *[near(env, -d, m * (2 * u - 1), 1e-3) for u in shifts(env)]))
                for p in moves:
                    env.check('migration-independent', env.Not(near(env, d, p)))
                moves.append(d)
            last[j] = lat


def cases(tier):
    cs = []
    for agg in (0.75, 1.0):
        cs.append(dict(name='troughs-%g' % agg, fn=troughs, args=dict(agg=agg, migrate=False)))
        cs.append(dict(name='migrating-%g' % agg, fn=troughs, args=dict(agg=agg, migrate=True, sized=False)))
    cs.append(dict(name='migrating-3', fn=troughs, args=dict(agg=1.0, migrate=True, sized=False, trend=False, nmax=3)))
    cs.append(dict(name='troughs-3', fn=troughs, args=dict(agg=1.0, migrate=False, sized=False, trend=False, nmax=3)))
    for mig in (True, False):
        nm = 'migrating' if mig else 'troughs'
        cs.append(dict(name=nm + '-deep', fn=troughs, args=dict(agg=0.5, migrate=mig, sized=False, trend=False, nmax=6,
                                                                nmin=6, per=(1, 1))))
        cs.append(dict(name=nm + '-many', fn=troughs, args=dict(agg=1.0, migrate=mig, sized=False, trend=False,
                                                                nmax=2 if mig else 1, nmin=2 if mig else 1,
                                                                per=(3, 3) if mig else (6, 6))))
    P3, P4 = 36.86989764584402, 53.13010235415598
    for ang in (0.0, P3, 90.0, -P4, 180.0):
        cs.append(dict(name='channels-%d' % ang, fn=channels, args=dict(angle=ang, agg=1.0, nch=2, mig=False)))
    cs.append(dict(name='channels-mig', fn=channels, args=dict(angle=0.0, agg=0.75, nch=2, mig=True)))
    cs.append(dict(name='channels-trend', fn=channels, args=dict(angle=0.0, agg=0.75, nch=1, mig=False, trend=True)))
    cs.append(dict(name='channels-3', fn=channels, args=dict(angle=P3, agg=0.75, nch=1, mig=True, nmax=3)))
    for mig in (True, False):
        cs.append(dict(name='channels-deep-%s' % mig, fn=channels, args=dict(angle=P3, agg=0.5, nch=1, mig=mig, nmax=6,
                                                                             nmin=6)))
        cs.append(dict(name='channels-many-%s' % mig, fn=channels, args=dict(angle=0.0, agg=0.5, nch=3 if mig else 6, mig=mig, nmax=2,
                                                                             nmin=2)))
    return cs
