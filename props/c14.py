"""C14: sheets fill a sheet element"""
import types
from props.geo import *

BOUNDS = ('elements over 1-2 columns with arbitrary top and bottom elevations per column, up to 6 sheets (arbitrary '
          'sheet thickness), massive elements, linear size trends over an arbitrary vertical domain')
ASSUMPTIONS = ['real arithmetic in place of float64', 'internal structure massive (dipping sets: C17)']


def surface(env, name, n):
    return {c: env.real('%s_%s' % (name, '_'.join(map(str, c))), -10, 10) for c in box(n)}


def make(env, n, params, T, B, grid, bg=(7, 8.0, 9.0)):
    """a sheet element between two given surfaces"""
    hu = env.load('hyvr.utils')
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    SheetAE = env.load('hyvr.geo.sheet_ae').SheetAE
    fields = [T, B]
    patch(hu, 'specsim', lambda *a, **k: env.arr([[fields[0][(i, j)] for j in range(n[1])] for i in range(n[0])]))
    top = CS(grid, mode='random', z=0.0, var=1.0, corlx=1.0, corly=1.0)
    fields[0] = B
    bot = CS(grid, mode='random', z=0.0, var=1.0, corlx=1.0, corly=1.0)
    st = types.SimpleNamespace(bg_facies=bg[0], bg_azim=bg[1], bg_dip=bg[2])
    return SheetAE(bot, top, 'sheet', params, st, grid), top, bot


def tile(env, n, kind, nmax):
    T, B = surface(env, 'top', n), surface(env, 'bot', n)
    cols = box(n)
    for c in cols:
        env.assume(B[c] <= T[c])
    zmax, zmin = T[cols[0]], B[cols[0]]
    for c in cols[1:]:
        zmax, zmin = env.max(zmax, T[c]), env.min(zmin, B[c])
    grid = simple_grid((n[0], n[1], 1), periodic=env.bool('periodic'))
    if kind == 'massive':
        params = sheet_params()
        th = None
    else:
        th = env.real('thickness', lo=0.05, hi=30)
        params = sheet_params(lens_thickness=th)
        if kind == 'trend':
            z0, lz = env.real('z0', -30, 10), env.real('lz', 1, 40)
            grid.z0, grid.lz, grid.zmax = z0, lz, z0 + lz
            tr = [0.5, 2.0]
            params['size_ztrend'] = tr
            zm = (zmin + zmax) / 2
            f = env.ite(zm <= z0, tr[0], env.ite(zm >= z0 + lz, tr[1], tr[0] + (tr[1] - tr[0]) * (zm - z0) / lz))
            th = th * f
        env.assume(zmax - zmin <= nmax * th)
    ae, top, bot = make(env, n, params, T, B, grid)
    objs = ae.object_list
    env.check('at-least-one', len(objs) >= 1 and ae.n_objects == len(objs))
    if kind == 'massive':
        env.check('one-massive-sheet', len(objs) == 1)
    above = T
    for k, o in enumerate(objs):
        last = k == len(objs) - 1
        nxt = {}
        for c in cols:
            t, b = o.top_surface.surface[c], o.bottom_surface.surface[c]
            env.check_eq('top', t, above[c])
            if last:
                want = B[c]
            else:
                want = env.max(env.min(zmax - (k + 1) * th, above[c]), B[c])
            env.check_eq('bottom', b, want)
            env.check_eq('stored-top', ae.object_top_surface[k, c[0], c[1]], above[c])
            env.check_eq('stored-bottom', ae.object_bottom_surface[k, c[0], c[1]], want)
            env.check('extent', env.And(ae.object_zmins[k] <= want, ae.object_zmaxs[k] >= above[c]))
            nxt[c] = want
        if not last and th is not None:
            env.check('not-too-many', zmax - (k + 1) * th > zmin)
        if last and th is not None:
            env.check('not-too-few', zmax - (k + 1) * th <= zmin)
        above = nxt
    for c in cols:
        env.check_eq('element-surfaces-kept', [top.surface[c], bot.surface[c]], [T[c], B[c]])


def cases(tier):
    cs = [dict(name='massive-1x1', fn=tile, args=dict(n=(1, 1), kind='massive', nmax=1)),
          dict(name='massive-2x1', fn=tile, args=dict(n=(2, 1), kind='massive', nmax=1)),
          dict(name='lens-1x1', fn=tile, args=dict(n=(1, 1), kind='lens', nmax=4)),
          dict(name='lens-1x1-6', fn=tile, args=dict(n=(1, 1), kind='lens', nmax=6)),
          dict(name='lens-1x2', fn=tile, args=dict(n=(1, 2), kind='lens', nmax=2)),
          dict(name='lens-2x1', fn=tile, args=dict(n=(2, 1), kind='lens', nmax=3), budget=100),
          dict(name='trend-1x1', fn=tile, args=dict(n=(1, 1), kind='trend', nmax=2)),
          dict(name='trend-1x2', fn=tile, args=dict(n=(1, 2), kind='trend', nmax=1.5), budget=100)]
    if tier != 'quick':
        cs += [dict(name='lens-2x2', fn=tile, args=dict(n=(2, 2), kind='lens', nmax=3), budget=2400),
               dict(name='lens-1x1-8', fn=tile, args=dict(n=(1, 1), kind='lens', nmax=8), budget=1200),
               dict(name='trend-1x1-4', fn=tile, args=dict(n=(1, 1), kind='trend', nmax=4), budget=1200)]
    return cs
