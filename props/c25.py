"""C25: hydraulic parameters of every cell"""
import math
import types
from props.geo import *

BOUNDS = ('grids of 2-3 cells (thorough 4) along each axis; every assignment of the cells to objects, facies and the '
          'backgrounds of up to three elements, in one stratum or two; arbitrary conductivity, porosity and anisotropy ratio per facies, arbitrary '
          'random fields, arbitrary element and global trends in x and z; arbitrary azimuth and dip (degrees) per cell')
ASSUMPTIONS = ['random field generator returns any field', 'exp is an arbitrary positive function',
               'cells of the background carry the background facies of their element (C16)', 'real arithmetic']

NF = 3


def hydraulics(env, **kw):
    h = {'hydrofacies': ['fa', 'fb', 'fc'],
         'k_h': [env.real('k%d' % f, gt=0, hi=10) for f in range(NF)],
         'n': [env.real('n%d' % f, gt=0, hi=1) for f in range(NF)],
         'k_ratio': [env.real('r%d' % f, lo=0.1, hi=10) for f in range(NF)],
         'sig_y': [100.0 + f for f in range(NF)], 'sig_n': [200.0 + f for f in range(NF)],
         'ycorlengths': [[1.0 + f, 2.0 + f, 3.0 + f] for f in range(NF)],
         'ncorlengths': [[11.0 + f, 12.0 + f, 13.0 + f] for f in range(NF)],
         'k_ztrend': None, 'k_xtrend': None, 'n_ztrend': None, 'n_xtrend': None}
    h.update(kw)
    return h


def model(env, n, cellkinds, het, level, trends, hyd, az, dp, together=False):
    """cellkinds: cell -> (ha, facies, ae)"""
    Model = env.load('hyvr.geo.model').Model
    sd = {'strata': ['S'], 'contact_models': [], 'bg_facies': [0], 'bg_azim': [0.0], 'bg_dip': [0.0],
          'ae_in_strata': [['s0', 's1']], 'ae_prob': [[0.5, 0.5]], 'ae_z_mean': [[1.0, 1.0]],
          'avul': [[0.0, 0.0]], 'avul_prob': [[-1.0]]}
    elements = {'s0': sheet_params(), 's1': sheet_params()}
    m = Model(model_dict(n, heterogeneity=het, heterogeneity_level=level, periodic=env.bool('periodic')), sd, elements, {})
    mk = lambda i: types.SimpleNamespace(num=i, bg_facies=(2, 1, 1)[i], type_params=dict(elements['s%d' % min(i, 1)], **trends[min(i, 1)]),
                                         type_name='s%d' % min(i, 1), bg_azim=0.0, bg_dip=0.0)
    m.strata = [types.SimpleNamespace(aes=[mk(0)], n_ae=1), types.SimpleNamespace(aes=[mk(1)], n_ae=1)]
    m.n_strata = 2
    if together:
        m.strata = [types.SimpleNamespace(aes=[mk(0), mk(1), mk(2)], n_ae=3)]
        m.n_strata = 1
    nestc = lambda f: [[[f((i, j, k)) for k in range(n[2])] for j in range(n[1])] for i in range(n[0])]
    m.data['ha'] = env.arr(nestc(lambda c: cellkinds[c][0]), 'i')
    m.data['facies'] = env.arr(nestc(lambda c: cellkinds[c][1]), 'i')
    m.data['ae'] = env.arr(nestc(lambda c: cellkinds[c][2]), 'i')
    m.data['azim'] = env.arr(nestc(lambda c: az[c]))
    m.data['dip'] = env.arr(nestc(lambda c: dp[c]))
    m.generate_hydraulic_parameters(hyd)
    return m


def kinds(env, n, options):
    return {c: env.pick('cell%d%d%d' % c, options) for c in box(n)}


def base(env, m, n, ck, hyd, k, por):
    d = m.data
    for c in box(n):
        f = ck[c][1]
        env.check_eq('conductivity', d['k_iso'][c], k[c], obs=False)
        env.check_eq('porosity', d['poros'][c], por[c])
        env.check_eq('anisotropy', d['anirat'][c], hyd['k_ratio'][f])
    for nm in ('k_iso', 'poros', 'anirat'):
        env.check('shape', tuple(d[nm].shape) == tuple(n))
    env.check('shape', tuple(d['ktensors'].shape) == tuple(n) + (3, 3))


def zero(n):
    return {c: 0.0 for c in box(n)}


def plain(env, n, het):
    """one value per facies"""
    hu = env.load('hyvr.utils')
    field_oracle(env, hu, 'f')
    ck = kinds(env, n, [(-1, 2, 0), (-1, 1, 1), (0, 0, 0), (0, 1, 0), (1, 0, 1), (1, 2, 1)])
    hyd = hydraulics(env)
    m = model(env, n, ck, het, 'facies', ({}, {}), hyd, zero(n), zero(n))
    base(env, m, n, ck, hyd, {c: hyd['k_h'][ck[c][1]] for c in ck}, {c: hyd['n'][ck[c][1]] for c in ck})


def internal(env, n, where, axis, ktr, options=None, together=False):
    hu = env.load('hyvr.utils')
    calls = field_oracle(env, hu, 'f', lo=-3, hi=3)
    ck = kinds(env, n, options or [(-1, 2, 0), (-1, 1, 1), (0, 0, 0), (0, 1, 0), (1, 0, 1)])
    pair = lambda nm: [env.real(nm + '_0', lo=0.1, hi=5), env.real(nm + '_1', lo=0.1, hi=5)]
    trends = ({}, {})
    glob = {}
    if where == 'both':
        trends = ({'k_%strend' % axis: pair('tk0'), 'n_%strend' % axis: pair('tn0')}, {'k_%strend' % axis: pair('tk1')})
        glob = {ktr + '_%strend' % axis: pair('gk')}
    elif where == 'element':
        trends = ({'k_%strend' % a: pair('tk0' + a) for a in axis}, {'n_%strend' % a: pair('tn1' + a) for a in axis})
    elif where == 'global':
        glob = {'%s_%strend' % (ktr, a): pair('g' + a) for a in axis}
    hyd = hydraulics(env, **glob)
    m = model(env, n, ck, True, 'internal', trends, hyd, zero(n), zero(n), together)
    cells = box(n)

    def fac(par, q, c):
        r = 1.0
        for a, i, num in (('x', c[0], n[0]), ('z', c[2], n[2])):
            t = par.get('%s_%strend' % (q, a))
            if t is not None:
                r = r * (t[0] + (t[1] - t[0]) * i / (num - 1) if num > 1 else t[0])
        return r
    k, por = {}, {}
    for c in cells:
        ha, f, ae = ck[c]
        group = [ck[e][0] == ha and ck[e][1] == f and (ha != -1 or ck[e][2] == ae) for e in cells]
        val = []
        for q, sig, cor in (('y', hyd['sig_y'], hyd['ycorlengths']), ('n', hyd['sig_n'], hyd['ncorlengths'])):
            hit = [cl for cl in calls if cl['mask'] is not None and cl['mask'][cells.index(c)]
                   and cl['var'] == sig[f]]
            if not hit:
                env.fail('field-of-facies')
                return
            cl = hit[-1]
            env.check('field-of-group', cl['mask'] == group)
            env.check('field-parameters', cl['corl'] == cor[f] and cl['covmod'] == 'exp' and not cl['two_dim'])
            val.append(cl['field'][sum(cl['mask'][:cells.index(c)])])
        k[c] = env.exp(val[0]) * hyd['k_h'][f] * fac(trends[min(ae, 1)], 'k', c) * fac(hyd, 'k', c)
        por[c] = (val[1] + hyd['n'][f]) * fac(trends[min(ae, 1)], 'n', c) * fac(hyd, 'n', c)
    base(env, m, n, ck, hyd, k, por)


def tensors(env, n, het, level):
    hu = env.load('hyvr.utils')
    field_oracle(env, hu, 'f')
    ck = kinds(env, n, [(-1, 2, 0), (0, 1, 1)])
    hyd = hydraulics(env)
    az = {c: env.real('az%d%d%d' % c, -180, 180) for c in ck}
    dp = {c: env.real('dp%d%d%d' % c, -90, 90) for c in ck}
    m = model(env, n, ck, het, level, ({}, {}), hyd, az, dp)
    deg = math.pi / 180
    for c in ck:
        k, r = m.data['k_iso'][c], hyd['k_ratio'][ck[c][1]]
        sa, ca, sd, cd = env.sin(az[c] * deg), env.cos(az[c] * deg), env.sin(dp[c] * deg), env.cos(dp[c] * deg)
        v = (ca * sd, -sa * sd, cd)
        for a in range(3):
            for b in range(3):
                env.check_eq('tensor', m.data['ktensors'][c[0], c[1], c[2], a, b],
                             k * ((1 if a == b else 0) + (1 / r - 1) * v[a] * v[b]), obs=False)


def cases(tier):
    cs = []

    def add(name, fn, **kw):
        cs.append(dict(name=name, fn=fn, args=kw))
    for n in ((2, 1, 1), (1, 2, 1), (1, 1, 3)):
        s = '%dx%dx%d' % n
        add('homogeneous-' + s, plain, n=n, het=False)
        add('facies-' + s, plain, n=n, het=True)
    few = [(-1, 2, 0), (-1, 1, 1), (0, 0, 0), (1, 0, 1)]
    add('internal-1x1x2', internal, n=(1, 1, 2), where=None, axis='', ktr='k')
    add('internal-1x2x1', internal, n=(1, 2, 1), where=None, axis='', ktr='k')
    add('together-1x1x2', internal, n=(1, 1, 2), where=None, axis='', ktr='k', together=True)
    add('together-three', internal, n=(1, 1, 3), where=None, axis='', ktr='k', together=True,
        options=[(-1, 2, 0), (0, 0, 0), (-1, 1, 1), (-1, 1, 2)])
    add('together-2x1x1', internal, n=(2, 1, 1), where=None, axis='', ktr='k', together=True)
    add('internal-2x1x1', internal, n=(2, 1, 1), where=None, axis='', ktr='k')
    add('internal-1x1x3', internal, n=(1, 1, 3), where=None, axis='', ktr='k')
    for q in 'kn':
        add('global-%s-z' % q, internal, n=(1, 1, 3), where='global', axis='z', ktr=q, options=few)
        add('global-%s-x' % q, internal, n=(3, 1, 1), where='global', axis='x', ktr=q, options=few)
        add('global-%s-xz' % q, internal, n=(2, 1, 2), where='global', axis='xz', ktr=q, options=few[1:3])
        add('both-%s-z' % q, internal, n=(1, 1, 2), where='both', axis='z', ktr=q, options=few, together=True)
        add('both-%s-x' % q, internal, n=(2, 1, 1), where='both', axis='x', ktr=q, options=few)
    add('element-z', internal, n=(1, 1, 3), where='element', axis='z', ktr='k', options=few)
    add('element-x', internal, n=(3, 1, 1), where='element', axis='x', ktr='k', options=few)
    add('element-xz', internal, n=(2, 1, 2), where='element', axis='xz', ktr='k', options=few[1:3])
    add('element-xz-y', internal, n=(2, 2, 1), where='element', axis='x', ktr='k', options=few[1:3])
    add('tensors-hom', tensors, n=(1, 1, 2), het=False, level='facies')
    add('tensors-het', tensors, n=(2, 1, 1), het=True, level='facies')
    add('tensors-internal', tensors, n=(1, 2, 1), het=True, level='internal')
    if tier != 'quick':
        add('internal-2x2x1', internal, n=(2, 2, 1), where=None, axis='', ktr='k')
        add('internal-1x2x2', internal, n=(1, 2, 2), where=None, axis='', ktr='k')
        add('all-2x1x2', internal, n=(2, 1, 2), where='both', axis='z', ktr='k', options=few)
        add('facies-2x2x1', plain, n=(2, 2, 1), het=True)
    return cs
