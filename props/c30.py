"""C30: numbering of elements and objects; generated models are consistent end to end"""
from props.geo import *

BOUNDS = ('1-2 strata of sheet elements, up to 3 elements and up to 3 sheets per element, over 1-2 columns of 2 cells; '
          '2-3 strata of different geometry (sheets, one trough at any height of its element, channels); '
          'arbitrary contact elevations, element thicknesses and sheet thicknesses, all random draws (normal within '
          '4 sigma)')
ASSUMPTIONS = ['random field generator returns any field', 'real arithmetic']
OPTS = {'normal_bound': 4}


def endtoend(env, n, ns, ratio, lens, mode='flat', cells=True, runs=1):
    hu = env.load('hyvr.utils')
    calls = field_oracle(env, hu, 'f', lo=-1, hi=1)
    Model = env.load('hyvr.geo.model').Model
    lz = float(n[2])
    zc = [env.real('zc%d' % k, 0, lz) for k in range(ns - 1)]
    cms = [{'mode': mode, 'z': z, 'var': 1.0, 'corlx': 1.0, 'corly': 1.0} for z in zc]
    elements, means = {}, []
    for k in range(ns):
        th = env.real('th%d' % k, lo=0.1, hi=10) if lens else -1.0
        elements['s%d' % k] = sheet_params(ae_id=5 + k, facies=[2 * k, 2 * k + 1], lens_thickness=th,
                                           azimuth=[10.0 * k, 10.0 * k], dip=[1.0 * k, 1.0 * k])
        means.append(env.real('mean%d' % k, lo=0.2, hi=50))
        # bounds the number of elements and sheets
        env.assume(means[k] * 0.6 * ratio >= lz)
        if lens:
            env.assume(th * lens >= lz)
    sd = {'strata': ['S%d' % k for k in range(ns)], 'contact_models': cms, 'bg_facies': [0] * ns,
          'bg_azim': [0.0] * ns, 'bg_dip': [0.0] * ns, 'ae_in_strata': [['s%d' % k] for k in range(ns)],
          'ae_prob': [[1.0]] * ns, 'ae_z_mean': [[m] for m in means], 'avul': [[0.0, 0.0]] * ns,
          'avul_prob': [[-1.0]] * ns}
    m = Model(model_dict(n, periodic=env.bool('periodic')), sd, elements, {})
    for again in range(runs):
        m.generate_model()
        if not consistent(env, m, n, ns, cells):
            return


def kinds(env):
    """an element type makes elements of its own geometry and structure"""
    grid = simple_grid((2, 2, 2))
    T = env.load('hyvr.geo.ae_types').AEType
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    import types
    hu = env.load('hyvr.utils')
    patch(hu, 'get_alternating_facies', lambda num, p: env.arr([3] * int(num), 'i'))
    out = env.arr([[0.5, 0.5, 1.0, 0.0]])
    for mod in ('channel_utils', 'channel_ae'):
        patch(env.load('hyvr.geo.' + mod), 'ferguson_curve', lambda *a, **k: out)
    g = env.pick('geometry', ['sheet', 'trough', 'channel'])
    st = env.pick('structure', {'sheet': ['massive', 'flat', 'dip'], 'channel': ['massive', 'flat', 'dip'],
                                'trough': ['massive', 'flat', 'dip', 'bulb', 'bulb_sets']}[g])
    f, d, dist = env.int('f', 0, 9), env.real('d', 0, 90), 1.5
    p = {'sheet': sheet_params, 'trough': trough_params, 'channel': channel_params}[g](
        structure=st, facies=[f], dip=[d, d], dipset_dist=dist, bulbset_dist=dist, ae_id=4)
    if g == 'trough':
        p.update(te_xyz=[[0.5, 0.5, -0.5]], paleoflow=[30.0, 30.0])
    p['geometry'] = g
    t = T(p, 'nm')
    zt, zb = env.real('zt', 0, 0.25), env.real('zb', -1.5, -1.25)
    top, bot = CS(grid, mode='flat', z=zt), CS(grid, mode='flat', z=zb)
    ae = t.generate_realization(bot, top, types.SimpleNamespace(bg_facies=1, bg_azim=2.0, bg_dip=3.0), grid)
    want = {'sheet': ('sheet_ae', 'SheetAE'), 'trough': ('trough_ae', 'TroughAE'), 'channel': ('channel_ae', 'ChannelAE')}
    env.check('class', isinstance(ae, getattr(env.load('hyvr.geo.' + want[g][0]), want[g][1])))
    env.check('name', ae.type_name == 'nm')
    env.check_eq('type-id', ae.type_id, 4)
    env.check_eq('surfaces', [ae.top_surface.surface[0, 0], ae.bottom_surface.surface[1, 1]], [zt, zb])
    env.check('objects', env.And(ae.n_objects >= 1, ae.n_objects == len(ae.object_list)))
    if ae.n_objects < 1:
        return
    o = ae.object_list[0]
    if st in ('massive', 'flat'):
        env.check_eq('massive', [o.facies, ae.object_facies[0]], [f, f])
        env.check_eq('no-layers', ae.object_num_facies[0], 0)
    if st in ('dip', 'bulb_sets'):
        env.check('layers', env.And(ae.object_num_facies[0] >= 2, ae.object_num_facies[0] == len(o.facies_array)))
    if g != 'sheet' and st in ('massive', 'flat', 'dip'):
        env.check_eq('dip', o.dip, d)


LINE = ([0.25, 1.75], [0.5, 0.75])


def mixed(env, n, order, runs=1, hydraulics=False):
    """one stratum each of sheets, troughs and channels, from the settings to the cells"""
    hu = env.load('hyvr.utils')
    out = env.arr([[p, q, 1.0, 0.0] for p, q in zip(*LINE)])
    for mod in ('channel_utils', 'channel_ae'):
        patch(env.load('hyvr.geo.' + mod), 'ferguson_curve', lambda *a, **k: out)
    Model = env.load('hyvr.geo.model').Model
    lz = float(n[2])
    ns = len(order)
    zc = [env.real('zc%d' % k, 0, lz) for k in range(ns - 1)]
    for k in range(1, ns - 1):
        env.assume(zc[k - 1] <= zc[k])
    zt = env.real('zt', 0, lz)
    i = order.index('tr')
    env.assume(zt >= ([0.0] + zc)[i])      # the trough belongs to its element
    env.assume(zt <= (zc + [lz])[i])
    elements = {
        'sh': dict(sheet_params(ae_id=5, facies=[2], azimuth=[3.0, 3.0], dip=[4.0, 4.0]), geometry='sheet'),
        'tr': dict(trough_params(ae_id=6, facies=[3], azimuth=[5.0, 5.0], dip=[6.0, 6.0], te_xyz=[[0.75, 0.5, zt]],
                                 length=3.0, width=1.5, depth=1.25, paleoflow=[0.0, 0.0], bg_facies=8, bg_azim=8.5,
                                 bg_dip=8.75), geometry='trough'),
        'ch': dict(channel_params(ae_id=7, facies=[4], dip=[7.0, 7.0], width=2.0, depth=0.75, agg=1.5, buffer=0.0),
                   geometry='channel')}
    sd = {'strata': ['S%d' % k for k in range(ns)], 'contact_models': [{'mode': 'flat', 'z': z} for z in zc],
          'bg_facies': [20 + k for k in range(ns)], 'bg_azim': [30.0 + k for k in range(ns)],
          'bg_dip': [40.0 + k for k in range(ns)], 'ae_in_strata': [[g] for g in order],
          'ae_prob': [[1.0]] * ns, 'ae_z_mean': [[1000.0]] * ns, 'avul': [[0.0, 0.0]] * ns, 'avul_prob': [[-1.0]] * ns}
    m = Model(model_dict(n), sd, elements, {})
    for again in range(runs):
        m.generate_model()
        bounds = [lz] + [z for z in reversed(zc)] + [0.0]
        objs, num = {}, 0
        env.check('number-of-strata', len(m.strata) == ns)
        for si, s in enumerate(m.strata):
            g = order[ns - 1 - si]
            thick = bounds[si] > bounds[si + 1]
            env.check('one-element', env.Or(len(s.aes) == 1, env.And(len(s.aes) == 0, env.Not(thick))))
            for ae in s.aes:
                env.check_eq('element-number', ae.num, num)
                env.check('kind', ae.type_name == g)
                env.check_eq('type-id', ae.type_id, elements[g]['ae_id'])
                num += 1
                for c in box(n[:2]):
                    env.check_eq('surfaces', [ae.top_surface.surface[c], ae.bottom_surface.surface[c]],
                                 [bounds[si], bounds[si + 1]])
                if g == 'tr':
                    env.check('one-trough', ae.n_objects == 1)
                if g == 'ch':
                    k = env.floor((bounds[si] - bounds[si + 1]) / 1.5)
                    rest = (bounds[si] - bounds[si + 1]) / 1.5 - k
                    env.check('channels', env.Or(ae.n_objects == k, rest <= 1e-6, rest >= 1 - 1e-6))
                for k, o in enumerate(ae.object_list):
                    env.check_eq('object-number', ae.object_num_ha[k], len(objs))
                    objs[len(objs)] = (g, bounds[si] - 1.5 * (k + 1))
        env.load('hyvr.assign_points').assign_points(m)
        for c in box(n[:2]):
            for k in range(n[2]):
                x, y, z = c[0] + 0.5, c[1] + 0.5, k + 0.5
                want = find(env, m, order, bounds, zt, x, y, z)
                if want is None:
                    continue
                for nm, v in zip(('facies', 'azim', 'dip', 'ha', 'ae', 'hat', 'strata'), want):
                    env.check_eq(nm, m.data[nm][c[0], c[1], k], v)


def find(env, m, order, bounds, zt, x, y, z):
    """the values of a cell: topmost object, else background; None on the boundary of something"""
    ns = len(order)
    nobj = nae = 0
    eps = 1e-6

    def side(v):
        if bool(v > eps):
            return 1
        return -1 if bool(v < -eps) else 0
    for si, s in enumerate(m.strata):
        b = ns - 1 - si
        for ae in s.aes:
            g = order[b]
            if side(z - bounds[si]) == 0 or side(z - bounds[si + 1]) == 0:
                return None
            inside = side(bounds[si] - z) > 0 and side(z - bounds[si + 1]) > 0
            bg = {'tr': (8, 8.5, 8.75)}.get(g, (20 + b, 30.0 + b, 40.0 + b))
            for k in range(ae.n_objects):
                if g == 'sh':
                    hit = 1 if inside else -1
                elif g == 'tr':
                    dz = z - zt
                    e = 1 - ((x - 0.75) / 1.5) ** 2 - ((y - 0.5) / 0.75) ** 2 - (dz / 1.25) * (dz / 1.25)
                    a, q = side(-dz), side(e)
                    hit = -1 if -1 in (a, q) else 0 if 0 in (a, q) else 1
                else:
                    dz = z - (bounds[si] - 1.5 * (k + 1))
                    d2 = min((x - p) ** 2 + (y - q) ** 2 for p, q in zip(*LINE))
                    a, q = side(-dz), side(0.75 + dz - d2 * 4 * 0.75 / 4)
                    hit = -1 if -1 in (a, q) else 0 if 0 in (a, q) else 1
                if hit == 0:
                    return None
                if hit > 0:
                    v = {'sh': (2, 3.0, 4.0), 'tr': (3, 5.0, 6.0), 'ch': (4, 0.0, 7.0)}[g]
                    return v + (nobj + k, nae, {'sh': 5, 'tr': 6, 'ch': 7}[g], si)
            if inside:
                return bg + (-1, nae, {'sh': 5, 'tr': 6, 'ch': 7}[g], si)
            nobj += ae.n_objects
            nae += 1
    env.fail('cell-in-a-stratum')
    return None


def consistent(env, m, n, ns, cells):
    env.check('number-of-strata', len(m.strata) == ns and m.n_strata == ns)
    num = ha = 0
    seen = []
    for si, s in enumerate(m.strata):
        for ae in s.aes:
            env.check_eq('element-number', ae.num, num)
            num += 1
            for k, o in enumerate(ae.object_list):
                env.check_eq('object-number', ae.object_num_ha[k], ha)
                env.check_eq('object-number-attr', o.num_ha, ha)
                seen.append((si, ae, o))
                ha += 1
    if not cells:
        return True
    env.load('hyvr.assign_points').assign_points(m)
    d = m.data
    for c in box(n[:2]):
        for k in range(n[2]):
            z = k + 0.5
            h = d['ha'][c[0], c[1], k]
            h = h.__index__() if hasattr(h, '__index__') else int(h)
            if not 0 <= h < ha:
                env.fail('object-exists')
                return False
            si, ae, o = seen[h]
            env.check('contains', env.And(z <= o.top_surface.surface[c], z >= o.bottom_surface.surface[c]))
            env.check_eq('facies', d['facies'][c[0], c[1], k], o.facies)
            env.check_eq('azim', d['azim'][c[0], c[1], k], o.azim)
            env.check_eq('dip', d['dip'][c[0], c[1], k], o.dip)
            env.check_eq('element', d['ae'][c[0], c[1], k], ae.num)
            env.check_eq('type', d['hat'][c[0], c[1], k], ae.type_id)
            env.check_eq('stratum', d['strata'][c[0], c[1], k], si)
            ty = int(ae.type_name[1:])
            env.check('facies-of-type', env.Or(d['facies'][c[0], c[1], k] == 2 * ty,
                                               d['facies'][c[0], c[1], k] == 2 * ty + 1))
            env.check('stratum-of-type', m.strata[si].name == 'S%d' % ty)
    return True


def cases(tier):
    cs = []

    def add(name, **kw):
        b = kw.pop('budget', 90)
        cs.append(dict(name=name, fn=endtoend, args=kw, budget=b))
    add('massive-1', n=(1, 1, 2), ns=1, ratio=2, lens=0)
    add('massive-2', n=(1, 1, 2), ns=2, ratio=2, lens=0)
    add('sheets-1', n=(1, 1, 3), ns=1, ratio=1, lens=3)
    add('sheets-2', n=(1, 1, 2), ns=2, ratio=1, lens=2)
    add('columns', n=(1, 2, 2), ns=2, ratio=1, lens=0, mode='random')
    add('numbers', n=(1, 1, 1), ns=2, ratio=1.5, lens=2, cells=False)
    add('twice', n=(1, 1, 2), ns=2, ratio=1, lens=0, runs=2)
    add('twice-sheets', n=(1, 1, 1), ns=1, ratio=1, lens=2, runs=2)
    add('twice-columns', n=(1, 1, 2), ns=2, ratio=2, lens=0, mode='random', runs=2)
    cs.append(dict(name='kinds', fn=kinds))

    def mix(name, **kw):
        cs.append(dict(name='mixed-' + name, fn=mixed, args=kw, budget=120))
    mix('tr-sh', n=(2, 1, 3), order=('sh', 'tr'))
    mix('ch-tr', n=(1, 1, 3), order=('tr', 'ch'))
    mix('tr-ch-sh', n=(1, 1, 3), order=('sh', 'ch', 'tr'))
    mix('ch-sh-tr', n=(1, 1, 3), order=('tr', 'sh', 'ch'))
    mix('twice', n=(1, 1, 2), order=('tr', 'ch'), runs=2)
    if tier != 'quick':
        mix('long', n=(2, 1, 4), order=('sh', 'tr', 'ch'))
        add('sheets-2-2', n=(1, 1, 3), ns=2, ratio=2, lens=2, budget=2400)
        add('columns-sheets', n=(2, 1, 2), ns=2, ratio=1, lens=2, mode='random', budget=2400)
    return cs
