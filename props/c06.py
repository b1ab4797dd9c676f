"""C06: parameter files of the old format describe the same model"""
from props.ini import *
from props import fakefs

BOUNDS = ('old-format files with 1-3 strata, a sheet, a truncated ellipsoid and an extruded parabola, all numbers '
          'arbitrary, options under their old and very old names, optional options present or missing')
ASSUMPTIONS = ['reading the file into sections and strings is left to configparser',
               'the meaning of the old options is taken from the new names of the same quantities']

OLD = {'dataoutputs': None, 'anisotropy': 'flag_anisotropy', 'het': 'flag_het', 'modeloutputs': 'l_modeloutputs',
       'periodic': 'flag_periodic', 'ssm': 'l_seq', 'ssm_top': 'r_ssm_top', 'ssm_contact_model': 'll_ssm_contact_model',
       'ae': 'l_ae', 'ssm_ae': 'll_ssm_ae', 'ae_prob': 'll_ae_prob', 'ae_z_mean': 'll_ae_z_mean',
       'avul_prob': 'll_avul_prob', 'avul': 'll_avul', 'contact_model': 'r_contact_model', 'facies': 'l_facies',
       'altfacies': 'll_altfacies', 'geo_ztrend': 'r_geo_ztrend', 'k_ztrend': 'r_k_ztrend', 'k_xtrend': 'r_k_xtrend',
       'n_ztrend': 'r_n_ztrend', 'n_xtrend': 'r_n_xtrend', 'migrate': 'r_migrate', 'lag': 'r_lag', 'dip': 'r_dip',
       'azimuth': 'r_azimuth', 'paleoflow': 'r_paleoflow', 'te_xyz': 'll_te_xyz', 'gen': 'flag_gen', 'hydro': 'l_hydro',
       'k_h': 'r_k_h', 'sig_y': 'r_sig_y', 'k_ratio': 'r_k_ratio', 'n': 'r_n', 'sig_n': 'r_sig_n',
       'ycorlengths': 'll_ycorlengths', 'ncorlengths': 'll_ncorlengths'}


def read(env, secs, very_old=False):
    fs = fakefs.FS(env).install()
    if very_old:
        secs = {s: {OLD.get(k) or k: v for k, v in d.items()} for s, d in secs.items()}
    fs.mkdirs('/w/m')
    fs.nodes['/w/m/old.ini'] = dump(env, secs)
    return fs, params(env)


def old(env, ns=2, contact='flat'):
    V = Vals(env)
    hy = hydraulics(V)
    hy['hydro'] = hy.pop('hydrofacies')
    m = dict(model(V), hetlev='internal')
    st = {'ssm': ['s%d' % k for k in range(ns)], 'ssm_top': V.r('top', ns), 'ssm_contact': contact,
          'ae': ['sh', 'te', 'ep'], 'ssm_ae': [['sh', 'te']] + [['ep']] * (ns - 1),
          'ae_prob': [V.r('p0', 2)] + [V.r('p%d' % k, 1) for k in range(1, ns)],
          'ae_z_mean': [V.r('zm0', 2)] + [V.r('zm%d' % k, 1) for k in range(1, ns)],
          'avul_prob': V.rr('ap', ns, 1), 'avul': V.rr('av', ns, 2),
          'bg': [env.num('bgf', 0, 2) * 1.0, V.r('bga'), V.r('bgd')]}
    if contact == 'random':
        st['ssm_contact_model'] = V.rr('cm', ns, 3)
    el = lambda g, f: {'geometry': g, 'structure': 'massive', 'contact': 'flat', 'facies': f}
    er = lambda nm: {'agg': V.r(nm + '_agg'), 'dip': V.r(nm + '_dip', 2), 'width': V.r(nm + '_w'),
                     'depth': V.r(nm + '_d')}
    te = dict(el('trunc_ellip', [2, 0]), length=V.r('te_l'), el_z=V.r('te_z'), paleoflow=V.r('te_pf', 2),
              azimuth=V.r('te_az', 2), **er('te'))
    ep = dict(el('ext_par', [1]), h=V.r('ep_h'), k=V.r('ep_k'), ds=V.r('ep_ds'), eps_factor=V.r('ep_e'),
              channel_no=env.int('ep_no', 1, 9), **er('ep'))
    return V, {'run': {'dataoutputs': ['py', 'vtr'], 'modeloutputs': ['mf']}, 'model': m, 'strata': st,
               'hydraulics': hy, 'flowtrans': {'hin': V.r('hin', 3), 'hout': V.r('hout', 3)},
               'sh': dict(el('sheet', [0, 1]), lens_thickness=V.r('sh_l')), 'te': te, 'ep': ep}


SAME = {'sh': ['lens_thickness', 'facies'], 'te': ['agg', 'dip', 'width', 'depth', 'length', 'paleoflow', 'azimuth',
                                                   'facies'],
        'ep': ['agg', 'dip', 'width', 'depth', 'h', 'k', 'ds', 'eps_factor', 'facies'],
        'hydraulics': ['k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'],
        'model': ['dx', 'lx', 'ly', 'lz'], 'strata': ['ae', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul'],
        'flowtrans': ['hin', 'hout']}


def convert(env, ns, contact, very_old):
    V, secs = old(env, ns, contact)
    fs, P = read(env, secs, very_old)
    run, m, st, hy, flow, el = lenient(P.parameters('/w/m/old.ini'))
    got = dict({'model': m, 'strata': st, 'hydraulics': hy, 'flowtrans': flow}, **el)
    for s in SAME:
        for k in SAME[s]:
            expect(env, 'same', got[s][k], secs[s][k])
    env.check('outputs', sorted(run['outputs']) == ['mf', 'py', 'vtr'])
    env.check('run-defaults', run['overwrite_old_output'] is False and run['numsim'] == 1 and
              run['runname'] == 'old' and str(run['rundir']) == '/w/m/old')
    env.check('model-defaults', m['anisotropy'] is True and m['heterogeneity'] is True and m['hydraulics'] is True and
              m['heterogeneity_level'] == 'internal' and m['periodic'] is False)
    expect(env, 'origin', [m['x0'], m['y0'], m['z0']], [0.0] * 3)
    expect(env, 'spacing', [m['dy'], m['dz']], [secs['model']['dx']] * 2)
    expect(env, 'hydrofacies', hy['hydrofacies'], FAC)
    s = secs['strata']
    expect(env, 'strata', st['strata'], s['ssm'])
    expect(env, 'ae-in-strata', st['ae_in_strata'], s['ssm_ae'])
    env.check('bg-facies', st['bg_facies'] == [int(s['bg'][0])] * ns and
              all(isinstance(f, int) for f in st['bg_facies']))
    expect(env, 'bg-angles', [st['bg_azim'], st['bg_dip']], [[s['bg'][1]] * ns, [s['bg'][2]] * ns])
    cms = st['contact_models']
    env.check('contacts', len(cms) == ns - 1)
    for i, cm in enumerate(cms):
        env.check('contact-mode', cm['mode'] == contact)
        expect(env, 'contact-z', cm['z'], s['ssm_top'][i])
        if contact == 'random':
            expect(env, 'contact-parameters', [cm['var'], cm['corlx'], cm['corly']], s['ssm_contact_model'][i])
    env.check('geometries', [el['sh']['geometry'], el['te']['geometry'], el['ep']['geometry']] ==
              ['sheet', 'trough', 'channel'])
    expect(env, 'density', el['te']['trough_density'], secs['te']['el_z'])
    expect(env, 'channel-number', el['ep']['channel_no'], secs['ep']['channel_no'])
    expect(env, 'flow-angle', el['ep']['flow_angle'], 0.0)
    for e in el.values():
        env.check('element-background', e['bg_facies'] == -1 and e['bg_azim'] != e['bg_azim'] and
                  e['bg_dip'] != e['bg_dip'])
        env.check('element-contact', e['contact_model'] == {'mode': 'flat'})
        for k in ('size_ztrend', 'k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend', 'altfacies', 'dipset_dist'):
            env.check('element-defaults', e[k] is None)
    for k in ('te', 'ep'):
        expect(env, 'no-lag', [el[k]['lag_height'], el[k]['lag_facies'], el[k]['buffer']], [0.0, -1, 0.0])


def options(env, very_old):
    """optional options of the old format"""
    V, secs = old(env)
    which = env.num('which', 0, 6)
    e = env.pick('element', ['sh', 'te', 'ep'])
    f = env.num('f', 0, 2)
    if which == 0:
        secs[e]['bg'] = [f * 1.0, V.r('ba'), V.r('bd')]
    elif which == 1:
        for k in ('geo_ztrend', 'k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
            secs[e][k] = V.r(k, 2)
    elif which == 2:
        secs[e]['structure'] = 'dip'
        secs[e]['dipset_d'] = V.r('dd')
    elif which == 3:
        e = 'te'
        secs[e]['structure'] = env.pick('st', ['bulb', 'bulb_l', 'random', 'flat'])
        secs[e]['bulbset_d'] = V.r('bd')
    elif which == 4:
        e = 'te' if e == 'sh' else e
        secs[e]['lag'] = [V.r('lh'), f * 1.0]
    elif which == 5:
        secs[e]['contact'] = 'random'
        secs[e]['contact_model'] = V.r('cm', 3)
    else:
        secs[e]['altfacies'] = [[(f + i) % 3, 1][:1 + i] for i in range(len(secs[e]['facies']))]
    fs, P = read(env, secs, very_old)
    el = lenient(P.parameters('/w/m/old.ini'))[5]
    g, w = el[e], secs[e]
    if which == 0:
        env.check('bg-facies', g['bg_facies'] == f and isinstance(g['bg_facies'], int))
        expect(env, 'bg-angles', [g['bg_azim'], g['bg_dip']], w['bg'][1:])
    elif which == 1:
        for k in ('k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend'):
            expect(env, 'trend', g[k], w[k])
        expect(env, 'size-trend', g['size_ztrend'], w['geo_ztrend'])
    elif which == 2:
        expect(env, 'dipset', [g['structure'], g['dipset_dist']], ['dip', w['dipset_d']])
    elif which == 3:
        expect(env, 'bulbset', g['bulbset_dist'], w['bulbset_d'])
        env.check('structure', g['structure'] == {'bulb_l': 'bulb_sets'}.get(w['structure'], w['structure']))
    elif which == 4:
        expect(env, 'lag-height', g['lag_height'], w['lag'][0])
        env.check('lag-facies', g['lag_facies'] == f and isinstance(g['lag_facies'], int))
    elif which == 5:
        cm = g['contact_model']
        env.check('contact', cm['mode'] == 'random')
        expect(env, 'contact-parameters', [cm['var'], cm['corlx'], cm['corly']], w['contact_model'])
    else:
        expect(env, 'altfacies', g['altfacies'], w['altfacies'])
    for o in el:
        if o != e:
            env.check('others-untouched', el[o]['structure'] == 'massive' and el[o]['bg_facies'] == -1 and
                      el[o]['size_ztrend'] is None and el[o]['contact_model'] == {'mode': 'flat'})


def flags(env, very_old):
    V, secs = old(env)
    v = [env.flag(k) for k in ('ani', 'het', 'per', 'gen', 'ow')]
    secs['run'].update(anisotropy=v[0], het=v[1], flag_ow=v[4], numsim=env.int('numsim', 1, 99), runname='nm')
    secs['model'].update(periodic=v[2], hetlev=env.pick('lev', ['facies', 'internal']), dy=V.r('dy'), dz=V.r('dz'),
                         x0=V.r('x0'), y0=V.r('y0'), z0=V.r('z0'))
    secs['hydraulics'].update(gen=v[3], k_ztrend=V.r('kz', 2), n_xtrend=V.r('nx', 2))
    fs, P = read(env, secs, very_old)
    run, m, st, hy, flow, el = lenient(P.parameters('/w/m/old.ini'))
    env.check('flags', [m['anisotropy'], m['heterogeneity'], m['periodic'], m['hydraulics'],
                        run['overwrite_old_output']] == v)
    env.check('level', m['heterogeneity_level'] == secs['model']['hetlev'])
    for k in ('dy', 'dz', 'x0', 'y0', 'z0'):
        expect(env, 'grid', m[k], secs['model'][k])
    expect(env, 'numsim', run['numsim'], secs['run']['numsim'])
    env.check('runname', run['runname'] == 'nm' and str(run['rundir']) == '/w/m/nm')
    for k in ('k_ztrend', 'n_xtrend'):
        expect(env, 'trend', hy[k], secs['hydraulics'][k])


def refused(env):
    """settings that have no counterpart any more are refused, not ignored"""
    V, secs = old(env)
    w = env.num('what', 0, 7)
    if w == 0:
        secs['model']['display'] = True
    elif w == 1:
        secs['strata']['ae_table'] = 'table.txt'
    elif w == 2:
        secs['strata']['save_aelu'] = True
    elif w == 3:
        secs['strata']['ssm_contact'] = 'user'
    elif w == 4:
        secs['sh']['contact'] = 'user'
    elif w == 5:
        secs['run']['modeloutputs'] = ['py']
    elif w == 6:
        s = env.pick('sec', ['model', 'strata', 'hydraulics', 'flowtrans'])
        del secs[s]
    else:
        s, o = env.pick('opt', [('model', 'dx'), ('model', 'hetlev'), ('strata', 'ssm'), ('strata', 'bg'),
                                ('strata', 'ssm_top'), ('te', 'el_z'), ('te', 'azimuth'), ('ep', 'ds'),
                                ('sh', 'facies'), ('sh', 'contact'), ('ep', 'channel_no'), ('hydraulics', 'k_h')])
        del secs[s][o]
    fs, P = read(env, secs)
    got, err = env.call(P.parameters, '/w/m/old.ini')
    env.check('refused', err is not None)


def cases(tier):
    cs = []
    for vo in (False, True):
        x = '-very-old' if vo else ''
        for ns, c in ((1, 'flat'), (2, 'flat'), (2, 'random'), (3, 'random')):
            cs.append(dict(name='convert-%d-%s%s' % (ns, c, x), fn=convert, args=dict(ns=ns, contact=c, very_old=vo)))
        cs.append(dict(name='options' + x, fn=options, args=dict(very_old=vo)))
        cs.append(dict(name='flags' + x, fn=flags, args=dict(very_old=vo)))
    cs.append(dict(name='refused', fn=refused))
    return cs
