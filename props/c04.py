"""C04: what is written in the parameter file is what the model gets"""
from props.ini import *
from props import fakefs

BOUNDS = ('parameter files with two strata, three hydrofacies and a sheet, a trough and a channel element; every '
          'numeric option an arbitrary value; every optional option present or missing; every facies name')
ASSUMPTIONS = ['reading the file into sections and strings is left to configparser']

DEFAULTS = {
    'run': {'runname': None, 'modeldir': None, 'numsim': 1, 'outputs': [], 'overwrite_old_output': False},
    'model': {'x0': 0.0, 'y0': 0.0, 'z0': 0.0, 'periodic': False, 'hydraulics': True, 'anisotropy': True,
              'heterogeneity': True, 'heterogeneity_level': 'internal'},
    'hydraulics': {'k_ztrend': None, 'k_xtrend': None, 'n_ztrend': None, 'n_xtrend': None},
}
ELEM = {'altfacies': None, 'size_ztrend': None, 'k_ztrend': None, 'k_xtrend': None, 'n_xtrend': None,
        'n_ztrend': None, 'dip': [0.0, 0.0], 'azimuth': [0.0, 0.0], 'bg_facies': -1, 'dipset_dist': None}
NANS = ['bg_azim', 'bg_dip']
EROS = {'buffer': 0.0, 'lag_height': 0.0, 'lag_facies': -1}
DEFAULTS['sh'] = dict(ELEM)
DEFAULTS['tr'] = dict(ELEM, bulbset_dist=None, te_xyz=None, migrate=None, **EROS)
DEFAULTS['ch'] = dict(ELEM, mig=0.0, flow_angle=0.0, **EROS)
SPECIAL = {'contact_model', 'facies', 'bg_facies', 'strata_contact_models'}


def parse(env, secs):
    r = settings(env, parser(env, secs))
    run, model, strata, hyd, flow, elems = r
    return dict({'run': run, 'model': model, 'strata': strata, 'hydraulics': hyd, 'flowtrans': flow}, **elems), elems


def common(env, V, secs, got, elems):
    """everything that was written arrives"""
    env.check('elements', sorted(elems) == [s for s in sorted(secs) if s in ('sh', 'tr', 'ch')])
    for s, d in secs.items():
        for k, v in d.items():
            if k in SPECIAL:
                continue
            if k not in got[s]:
                env.fail('option-kept')
                continue
            expect(env, 'value', got[s][k], v)
    if 'strata' in got:
        env.check('bg-facies', got['strata']['bg_facies'] == [FAC.index(f) for f in secs['strata']['bg_facies']])
    for e in elems:
        env.check('facies', elems[e]['facies'] == [FAC.index(f) for f in secs[e]['facies']])


def defaults(env):
    V, secs = minimal(env)
    got, elems = parse(env, secs)
    common(env, V, secs, got, elems)
    for s, d in DEFAULTS.items():
        for k, v in d.items():
            if k not in got[s]:
                env.fail('default-given')
                continue
            expect(env, 'default', got[s][k], v)
    for e in elems:
        for k in NANS:
            env.check('background-inherited', not env.symbolic and got[e][k] != got[e][k] or
                      env.symbolic and isinstance(got[e][k], float) and got[e][k] != got[e][k])
    expect(env, 'dy-is-dx', got['model']['dy'], secs['model']['dx'])
    expect(env, 'dz-is-dx', got['model']['dz'], secs['model']['dx'])
    env.check('no-flowtrans', got['flowtrans'] == {})


def spacing(env):
    V, secs = minimal(env)
    for k in ('dy', 'dz', 'x0', 'y0', 'z0'):
        if env.flag('has_' + k):
            secs['model'][k] = V.r(k)
    got, elems = parse(env, secs)
    common(env, V, secs, got, elems)
    for k in ('dy', 'dz'):
        expect(env, 'spacing', got['model'][k], secs['model'].get(k, secs['model']['dx']))
    for k in ('x0', 'y0', 'z0'):
        expect(env, 'origin', got['model'][k], secs['model'].get(k, 0.0))


def flags(env):
    V, secs = minimal(env)
    for k in ('periodic', 'hydraulics', 'anisotropy', 'heterogeneity'):
        secs['model'][k] = env.pick(k, [True, False])
    secs['model']['heterogeneity_level'] = env.pick('level', ['facies', 'internal'])
    secs['run']['overwrite_old_output'] = env.pick('ow', [True, False])
    got, elems = parse(env, secs)
    common(env, V, secs, got, elems)


def runsec(env):
    V, secs = minimal(env)
    outs = ['vtr', 'py', 'mat', 'npz', 'h5', 'mf', 'mf6', 'hgs']
    n = env.num('nout', 1, 2)
    a = env.num('first', 0, 7)
    secs['run']['outputs'] = [outs[a], outs[(a + 3) % 8]][:n]
    secs['run']['numsim'] = env.int('numsim', 1, 500)
    secs['run']['runname'] = 'My_Run.1'
    secs['run']['modeldir'] = '/some/where'
    secs['flowtrans'] = {'hin': V.r('hin', 3), 'hout': V.r('hout', 3)}
    for k in ('gradh', 'q_in', 'kw_gradh', 'kw_q_in'):
        if env.flag('has_' + k):
            secs['flowtrans'][k] = V.r(k)
    got, elems = parse(env, secs)
    common(env, V, secs, got, elems)
    for k in ('gradh', 'q_in', 'kw_gradh', 'kw_q_in'):
        expect(env, 'flow-default', got['flowtrans'][k], secs['flowtrans'].get(k))


OPT = {'sh': [], 'tr': [('te_xyz', (2, 3)), ('migrate', 4), ('bulbset_dist', None), ('buffer', None)],
       'ch': [('mig', None), ('flow_angle', None), ('buffer', None)]}
OPTALL = [('size_ztrend', 2), ('k_ztrend', 2), ('k_xtrend', 2), ('n_xtrend', 2), ('n_ztrend', 2), ('dip', 2),
          ('azimuth', 2), ('bg_azim', None), ('bg_dip', None), ('dipset_dist', None)]


def element(env, which, half):
    """optional options of an element, one at a time and all together"""
    V, secs = minimal(env)
    opts = OPTALL + OPT[which]
    k = env.num('which', -1, len(opts) - 1)
    for i, (nm, n) in enumerate(opts):
        if k in (-1, i):
            secs[which][nm] = V.rr(nm, *n) if isinstance(n, tuple) else V.r(nm, n)
    got, elems = parse(env, secs)
    common(env, V, secs, got, elems)
    for i, (nm, n) in enumerate(opts):
        if nm not in secs[which]:
            if nm in NANS:
                env.check('default', isinstance(got[which][nm], float) and got[which][nm] != got[which][nm])
            else:
                expect(env, 'default', got[which][nm], DEFAULTS[which][nm])
        for o in ('sh', 'tr', 'ch'):
            if o != which and nm in DEFAULTS[o] and nm not in NANS:
                expect(env, 'other-elements-untouched', got[o][nm], DEFAULTS[o][nm])


def facies(env, which):
    V, secs = minimal(env)
    f = [env.num('f%d' % i, 0, 2) for i in range(2)]
    secs[which]['facies'] = [FAC[i] for i in f]
    alt = env.flag('alt')
    if alt:
        a0 = env.num('a', 0, 2)
        a = [a0, (a0 + 1) % 3, (f[0] + a0) % 3]
        secs[which]['altfacies'] = [[FAC[a[0]]], [FAC[a[1]], FAC[a[2]]]]
    bg = env.num('bg', -1, 2)
    if bg >= 0:
        secs[which]['bg_facies'] = FAC[bg]
    lag = env.num('lag', -1, 2) if which != 'sh' else -1
    if lag >= 0:
        secs[which]['lag_facies'] = FAC[lag]
        secs[which]['lag_height'] = V.r('lagh', lo=1, hi=2)
    r = settings(env, parser(env, secs))
    e = r[5][which]
    env.check('facies', e['facies'] == f)
    env.check('altfacies', e['altfacies'] == ([[a[0]], [a[1], a[2]]] if alt else None))
    env.check('bg', e['bg_facies'] == bg)
    if which != 'sh':
        env.check('lag', e['lag_facies'] == lag)
        expect(env, 'lag-height', e['lag_height'], secs[which].get('lag_height', 0.0))


def strata_facies(env):
    V, secs = minimal(env)
    f = [env.num('f%d' % i, 0, 2) for i in range(2)]
    one = env.flag('one')
    secs['strata']['bg_facies'] = FAC[f[0]] if one else [FAC[i] for i in f]
    got = settings(env, parser(env, secs))[2]
    env.check('bg-facies', got['bg_facies'] == ([f[0]] * 2 if one else f))


def broadcast(env):
    """a single value stands for all facies / strata / elements"""
    V, secs = minimal(env)
    n = len(FAC)
    v = {}
    for k in ('k_h', 'sig_y', 'k_ratio', 'n', 'sig_n'):
        v[k] = secs['hydraulics'][k] = V.r('one_' + k)
    cl = secs['hydraulics']['ycorlengths'] = V.r('cl', 3)
    nc = secs['hydraulics']['ncorlengths'] = V.r('nc')
    ap = secs['strata']['ae_prob'] = V.r('aprob')
    av = secs['strata']['avul'] = V.r('avul', 2)
    avp = secs['strata']['avul_prob'] = V.r('avp')
    az = secs['strata']['bg_azim'] = V.r('az')
    tr = secs['sh']['k_ztrend'] = V.r('trend')
    r = settings(env, parser(env, secs))
    for k in v:
        expect(env, 'per-facies', r[3][k], [v[k]] * n)
    expect(env, 'lengths', r[3]['ycorlengths'], [cl] * n)
    expect(env, 'lengths', r[3]['ncorlengths'], [[nc] * 3] * n)
    expect(env, 'per-element', r[2]['ae_prob'], [[ap], [ap, ap]])
    expect(env, 'per-stratum', r[2]['avul'], [av, av])
    expect(env, 'per-stratum', r[2]['avul_prob'], [[avp], [avp]])
    expect(env, 'per-stratum', r[2]['bg_azim'], [az, az])
    expect(env, 'pair', r[5]['sh']['k_ztrend'], [tr, tr])


def deep(env, label, got, want):
    if isinstance(want, dict):
        env.check(label, isinstance(got, dict) and set(want) <= set(got))
        for k in want:
            if isinstance(got, dict) and k in got:
                deep(env, label, got[k], want[k])
    elif isinstance(want, (list, tuple)):
        env.check(label, isinstance(got, (list, tuple)) and len(got) == len(want))
        if isinstance(got, (list, tuple)):
            for g, w in zip(got, want):
                deep(env, label, g, w)
    elif isinstance(want, float) and want != want:
        env.check(label, got != got)
    else:
        expect(env, label, got, want)


def whole(env):
    """from the file to the model: element type numbers are positions in the list of elements, and the model gets
    the sections of the file"""
    import inspect
    V, secs = minimal(env)
    order = env.pick('order', [['sh', 'tr', 'ch'], ['tr', 'ch', 'sh'], ['ch', 'sh', 'tr'], ['ch', 'tr', 'sh']])
    secs['strata']['ae'] = order
    d = [env.real('cell_' + a, 0.5, 2) for a in 'xyz']
    o = [env.real('orig_' + a, -5, 5) for a in 'xyz']
    n = (2, 1, 3)
    secs['model'] = {'dx': d[0], 'dy': d[1], 'dz': d[2], 'lx': 2 * d[0], 'ly': d[1], 'lz': 3 * d[2], 'x0': o[0],
                     'y0': o[1], 'z0': o[2]}
    secs['flowtrans'] = {'hin': V.r('hin', 3), 'hout': V.r('hout', 3)}
    secs['run']['numsim'] = 3
    if env.flag('overwrite'):
        secs['run']['overwrite_old_output'] = True
    fs = fakefs.FS(env)
    fs.install()
    fs.mkdirs('/w/m')
    fs.nodes['/w/m/r.ini'] = content = dump(env, secs)
    p = configparser.ConfigParser()
    p.read_string(content)
    G = env.load('hyvr.geo.model')
    Real, sig = G.Model, inspect.signature(G.Model.__init__)

    class Recorder(Real):
        def __init__(self, *a, **k):
            self.given = list(sig.bind(self, *a, **k).arguments.values())[1:]
            Real.__init__(self, *a, **k)
    patch(G, 'Model', Recorder)
    P = params(env)
    patch(P, 'Model', Recorder)
    want = P.parse_inifile(p)
    run, m, hyd = P.setup_from_inifile('/w/m/r.ini', env.pick('ow', [None, True, False]))
    deep(env, 'hydraulics-returned', hyd, want[3])
    deep(env, 'run-returned', {k: run[k] for k in want[0] if k in run and k not in ('runname', 'modeldir', 'rundir')},
         {k: v for k, v in want[0].items() if k not in ('runname', 'modeldir', 'rundir')})
    for name, got, sec in zip(('model', 'strata', 'elements', 'flowtrans'), m.given,
                              (want[1], want[2], want[5], want[4])):
        deep(env, name + '-section', got, sec)
    for e in order:
        env.check('type-number', m.given[2][e]['ae_id'] == order.index(e))
    deep(env, 'flowtrans-kept', m.flowtrans, want[4])
    g = m.grid
    env.check('grid-size', (g.nx, g.ny, g.nz) == n)
    for i, a in enumerate('xyz'):
        env.check_eq('grid-origin', getattr(g, a + '0'), o[i])
        env.check_eq('grid-spacing', getattr(g, 'd' + a), d[i])
        env.check_eq('grid-extent', getattr(g, a + 'max'), o[i] + n[i] * d[i])


def cases(tier):
    cs = [dict(name='defaults', fn=defaults), dict(name='spacing', fn=spacing), dict(name='flags', fn=flags),
          dict(name='run', fn=runsec), dict(name='strata-facies', fn=strata_facies),
          dict(name='broadcast', fn=broadcast), dict(name='whole', fn=whole)]
    for w in ('sh', 'tr', 'ch'):
        cs.append(dict(name='element-' + w, fn=element, args=dict(which=w, half=0)))
        cs.append(dict(name='facies-' + w, fn=facies, args=dict(which=w)))
    return cs
