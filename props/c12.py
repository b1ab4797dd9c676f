"""C12: strata fill the model domain"""
from props.geo import *

BOUNDS = ('1 to 4 strata over up to 2 columns, flat and random contact models with arbitrary mean '
          'elevation (also above the domain top, below its bottom, and crossing each other), arbitrary origin and '
          'cell height')
ASSUMPTIONS = ['random field generator returns any field', 'each stratum holds one sheet element (elements within '
               'a stratum: C13)', 'real arithmetic']
OPTS = {'normal_bound': 4}


def strata(env, n, modes):
    hu = env.load('hyvr.utils')
    calls = field_oracle(env, hu, 'f', lo=-5, hi=5)
    Model = env.load('hyvr.geo.model').Model
    z0, dz = env.real('z0', -20, 20), env.real('dz', lo=0.1, hi=5)
    ns = len(modes) + 1
    zc = [env.real('zc%d' % k, -40, 40) for k in range(ns - 1)]
    cms = []
    for k, m in enumerate(modes):
        cm = {'mode': m, 'z': zc[k]}
        if m == 'random':
            cm.update(var=1.0 + k, corlx=2.0 + k, corly=3.0 + k)
        cms.append(cm)
    elements = {}
    for k in range(ns):
        elements['sheet%d' % k] = sheet_params(ae_id=k, facies=[k])
    sd = {'strata': ['S%d' % k for k in range(ns)], 'contact_models': cms,
          'bg_facies': [10 + k for k in range(ns)], 'bg_azim': [20.0 + k for k in range(ns)],
          'bg_dip': [30.0 + k for k in range(ns)], 'ae_in_strata': [['sheet%d' % k] for k in range(ns)],
          'ae_prob': [[1.0]] * ns, 'ae_z_mean': [[1000.0 + k] for k in range(ns)], 'avul': [[0.0, 0.0]] * ns,
          'avul_prob': [[0.0]] * ns}
    m = Model(model_dict(n, z0=z0, dz=dz, periodic=env.bool('periodic')), sd, elements, {})
    m.generate_model()
    ztop = z0 + n[2] * dz
    cols = box(n[:2])
    env.check('number', m.n_strata == ns and len(m.strata) == ns)
    env.check('bounds-listed', len(m.strata_zmins) == ns and len(m.strata_zmaxs) == ns)
    above = {c: ztop for c in cols}
    nf = 0
    for i, s in enumerate(m.strata):
        k = ns - 1 - i
        env.check('order', s.name == 'S%d' % k)
        env.check('parameters', s.bg_facies == 10 + k and s.bg_azim == 20.0 + k and s.bg_dip == 30.0 + k)
        env.check('elements', [a.type_name for a in s.aes] in ([], ['sheet%d' % k]))
        env.check_eq('zmins', m.strata_zmins[i], s.zmin)
        env.check_eq('zmaxs', m.strata_zmaxs[i], s.zmax)
        new = {}
        for c in cols:
            env.check_eq('top-is-bottom-of-above', s.top_surface.surface[c], above[c])
            if i == ns - 1:
                z = z0
            elif modes[k - 1] == 'flat':
                z = zc[k - 1]
            else:
                z = zc[k - 1] + at(calls[nf]['field'], c)
            new[c] = env.min(z, above[c])
            env.check_eq('bottom', s.bottom_surface.surface[c], new[c])
            env.check('extent', env.And(s.zmin <= new[c], s.zmax >= above[c]))
        if i < ns - 1 and modes[k - 1] == 'random':
            env.check('contact-parameters', calls[nf]['var'] == float(k) and calls[nf]['corl'] == [k + 1.0, k + 2.0])
            nf += 1
        above = new
    env.check('fields-used', len(calls) == nf)


def cases(tier):
    cs = [dict(name='one', fn=strata, args=dict(n=(1, 2, 2), modes=())),
          dict(name='flat-2', fn=strata, args=dict(n=(2, 1, 2), modes=('flat',))),
          dict(name='flat-3', fn=strata, args=dict(n=(1, 2, 1), modes=('flat', 'flat'))),
          dict(name='random-2', fn=strata, args=dict(n=(2, 1, 1), modes=('random',))),
          dict(name='random-flat-3', fn=strata, args=dict(n=(1, 1, 1), modes=('random', 'flat'))),
          dict(name='flat-random-3', fn=strata, args=dict(n=(1, 1, 2), modes=('flat', 'random'))),
          dict(name='random-2-2x2', fn=strata, args=dict(n=(2, 2, 1), modes=('random',)))]
    cs.append(dict(name='four', fn=strata, args=dict(n=(1, 1, 2), modes=('flat', 'random', 'flat')), budget=200))
    if tier != 'quick':
        cs += [dict(name='random-random-3', fn=strata, args=dict(n=(1, 2, 1), modes=('random', 'random')), budget=1500)]
    return cs
