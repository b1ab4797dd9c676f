"""C16: every cell gets the values of the topmost thing that contains it"""
import types
from props.geo import *
from props import c14

BOUNDS = ('up to 2 strata with up to 2 elements each and up to 2 objects per element, over 1-2 columns of 2-3 cells '
          '(thorough: 4 cells, 3 objects); arbitrary element and stratum surfaces per column, arbitrary objects that '
          'are open to the top (a lower limit per column and a common upper limit; the lowest object of an element may have an upper limit of its own in every column), arbitrary enclosing bounds')
ASSUMPTIONS = ['surfaces are ordered as C12-C14 guarantee; objects of an element are sorted by their upper limit and '
               'reach up to or above the element bottom in every column they occupy', 'real arithmetic']


class Ob:
    pass


def element(env, name, num, tid, n, top, bot, nobj, sheet, grid, SheetAE, local=False):
    """top/bot: dict column -> elevation"""
    cols = box(n)
    if sheet:
        th = env.real(name + '_th', lo=0.2, hi=9)
        hi, lo = top[cols[0]], bot[cols[0]]
        for c in cols[1:]:
            hi, lo = env.max(hi, top[c]), env.min(lo, bot[c])
        env.assume(hi - lo <= nobj * th)
        params = sheet_params(lens_thickness=th, ae_id=tid, azimuth=[tid + 0.25, tid + 0.25],
                              dip=[tid + 0.75, tid + 0.75], facies=[50 + tid])
        ae, _, _ = c14.make(env, n, params, top, bot, grid)
        ae.num = num
        for k in range(ae.n_objects):
            ae.object_num_ha[k] = 100 * num + k
        return ae
    ae = Ob()
    ae.num, ae.type_id = num, tid
    ae.bg_facies, ae.bg_azim, ae.bg_dip = 10 + num, 20.0 + num, 30.0 + num
    s = lambda d: types.SimpleNamespace(surface=env.arr([[d[(i, j)] for j in range(n[1])] for i in range(n[0])]))
    ae.top_surface, ae.bottom_surface = s(top), s(bot)
    ae.n_objects = nobj
    lo, hi, local_hi = [], [], []
    zl, zm = bot[cols[0]], top[cols[0]]
    for c in cols:
        zl, zm = env.min(zl, bot[c]), env.max(zm, top[c])
    zmins, zmaxs = [], []
    for k in range(nobj):
        h = env.real('%s_hi%d' % (name, k), -1, 5)
        loc = {c: h for c in cols}
        l = {c: env.real('%s_lo%d_%s' % (name, k, '_'.join(map(str, c))), -1, 6) for c in cols}
        mn = env.real('%s_min%d' % (name, k), -2, 5)
        for c in cols:
            env.assume(env.Or(l[c] > h, env.And(mn <= l[c], h >= bot[c])))
            if k == nobj - 1 and local:
                # the lowest object may end below its upper limit in a column
                loc[c] = env.real('%s_loc%d_%s' % (name, k, '_'.join(map(str, c))), -1, 5)
                env.assume(loc[c] <= h)
        env.assume(mn <= h)
        if k:
            env.assume(h <= hi[-1])
        lo.append(l)
        hi.append(h)
        local_hi.append(loc)
        zmins.append(mn)
        zmaxs.append(h)
        zl, zm = env.min(zl, mn), env.max(zm, h)
    ae.object_zmins, ae.object_zmaxs = env.arr(zmins), env.arr(zmaxs)
    ae.zmin, ae.zmax = zl, zm
    ae.lo, ae.hi = lo, local_hi

    def assign(oi, ids, ang, x, y, z, xi, yi, g):
        if z <= local_hi[oi][(xi, yi)] and z >= lo[oi][(xi, yi)]:
            ids[0] = 60 + 10 * num + oi
            ids[2] = 100 * num + oi
            ang[0], ang[1] = 200.0 + 10 * num + oi, 300.0 + 10 * num + oi
    ae.maybe_assign_points_to_object = assign
    return ae


def expected(env, strata, c, z, SheetAE):
    """search everything, top down"""
    for si, st in enumerate(strata):
        for ae in st.aes:
            if isinstance(ae, SheetAE):
                for k in range(ae.n_objects):
                    if z <= ae.object_list[k].top_surface.surface[c] and z >= ae.object_list[k].bottom_surface.surface[c]:
                        return (50 + ae.type_id, ae.type_id + 0.25, ae.type_id + 0.75, ae.num, 100 * ae.num + k,
                                ae.type_id, si)
                continue
            for k in range(ae.n_objects):
                if z <= ae.hi[k][c] and z >= ae.lo[k][c]:
                    return (60 + 10 * ae.num + k, 200.0 + 10 * ae.num + k, 300.0 + 10 * ae.num + k, ae.num,
                            100 * ae.num + k, ae.type_id, si)
            if z <= ae.top_surface.surface[c] and z >= ae.bottom_surface.surface[c]:
                return (ae.bg_facies, ae.bg_azim, ae.bg_dip, ae.num, -1, ae.type_id, si)
    return None


def assign(env, n, spec, local=False):
    """spec: list of strata; each a list of elements (sheet?, number of objects)"""
    A = env.load('hyvr.assign_points')
    SheetAE = env.load('hyvr.geo.sheet_ae').SheetAE
    grid = mkgrid(env, n, periodic=env.bool('periodic'))
    cols = box(n[:2])
    above = {c: float(n[2]) for c in cols}
    strata = []
    num = 0
    total = sum(len(s) for s in spec)
    for si, st in enumerate(spec):
        s = Ob()
        s.aes, zmins, zmaxs = [], [], []
        for sheet, nobj in st:
            if num == total - 1:
                bot = {c: 0.0 for c in cols}
            else:
                bot = {c: env.real('b%d_%s' % (num, '_'.join(map(str, c))), 0, n[2]) for c in cols}
                for c in cols:
                    env.assume(bot[c] <= above[c])
            ae = element(env, 'e%d' % num, num, num % 3 + 3, n[:2], above, bot, nobj, sheet, grid, SheetAE, local)
            s.aes.append(ae)
            zmins.append(ae.zmin)
            zmaxs.append(ae.zmax)
            above = bot
            num += 1
        s.n_ae = len(s.aes)
        s.ae_zmins, s.ae_zmaxs = env.arr(zmins), env.arr(zmaxs)
        s.zmin, s.zmax = zmins[0], zmaxs[0]
        for a, b in zip(zmins, zmaxs):
            s.zmin, s.zmax = env.min(s.zmin, a), env.max(s.zmax, b)
        strata.append(s)
    m = Ob()
    m.grid, m.n_strata, m.strata, m.data = grid, len(strata), strata, {}
    m.strata_zmins = env.arr([s.zmin for s in strata])
    m.strata_zmaxs = env.arr([s.zmax for s in strata])
    A.assign_points(m)
    names = ['facies', 'azim', 'dip', 'ae', 'ha', 'hat', 'strata']
    for nm in names:
        env.check('shape', tuple(m.data[nm].shape) == tuple(n))
    for c in cols:
        for k in range(n[2]):
            e = expected(env, strata, c, k + 0.5, SheetAE)
            if e is None:
                env.fail('harness')
                return
            for nm, v in zip(names, e):
                env.check_eq(nm, m.data[nm][c[0], c[1], k], v)


def cases(tier):
    B, S = False, True
    cs = []

    def add(name, n, spec, **kw):
        cs.append(dict(name=name, fn=assign, args=dict(n=n, spec=spec, local=kw.pop('local', False)), **kw))
    add('objects-1', (1, 1, 3), [[(B, 1)]])
    add('objects-2', (1, 1, 3), [[(B, 2)]])
    add('inclined-1', (1, 1, 4), [[(B, 1)]], local=True)
    add('inclined-2', (1, 1, 3), [[(B, 2)]], local=True)
    add('two-elements', (1, 1, 3), [[(B, 0), (B, 1)]])
    add('two-elements-b', (1, 1, 3), [[(B, 1), (B, 0)]])
    add('two-strata', (1, 1, 3), [[(B, 1)], [(B, 1)]])
    add('three-strata', (1, 1, 3), [[(B, 0)], [(B, 0)], [(B, 0)]])
    add('sheets', (1, 1, 3), [[(S, 2)], [(S, 1)]])
    add('sheet-then-bg', (1, 1, 2), [[(S, 1), (B, 0)]])
    add('bg-then-sheet', (1, 1, 3), [[(B, 1)], [(S, 1)]])
    add('columns-y', (1, 2, 2), [[(B, 1), (B, 0)]])
    add('columns-x', (2, 1, 2), [[(B, 0)], [(B, 1)]])
    add('columns-2x2', (2, 2, 1), [[(B, 0)], [(B, 0)]])
    add('columns-sheet', (1, 2, 2), [[(S, 1)], [(S, 1)]])
    add('strata-elements', (1, 1, 3), [[(B, 0), (B, 0)], [(B, 0), (B, 0)]])
    if tier != 'quick':
        add('objects-3', (1, 1, 4), [[(B, 3)]], budget=1500)
        add('deep', (1, 1, 4), [[(B, 1), (B, 1)], [(B, 1)]], budget=2400)
        add('columns-objects', (2, 1, 3), [[(B, 2)]], budget=2400)
        add('mixed', (1, 2, 2), [[(B, 1), (S, 1)], [(B, 0)]], budget=2400)
    return cs
