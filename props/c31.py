"""C31: incomplete or inconsistent parameter files are refused"""
from props.ini import *

BOUNDS = ('parameter files with two strata and a sheet, a trough and a channel element that have exactly one defect: '
          'any required section or option missing, any per-facies/per-stratum list of another length, any unknown '
          'facies, format, structure, geometry or level; all numbers arbitrary')
ASSUMPTIONS = ['only that an error is raised is required, not its text']

REQ = {'model': ['dx', 'lx', 'ly', 'lz'],
       'strata': ['strata', 'strata_contact_models', 'ae', 'ae_in_strata', 'ae_prob', 'ae_z_mean', 'avul_prob', 'avul',
                  'bg_facies', 'bg_azim', 'bg_dip'],
       'hydraulics': ['hydrofacies', 'k_h', 'sig_y', 'k_ratio', 'n', 'sig_n', 'ycorlengths', 'ncorlengths'],
       'sh': ['geometry', 'structure', 'contact_model', 'facies', 'lens_thickness'],
       'tr': ['geometry', 'structure', 'contact_model', 'facies', 'agg', 'length', 'width', 'depth', 'trough_density',
              'paleoflow'],
       'ch': ['geometry', 'structure', 'contact_model', 'facies', 'agg', 'width', 'depth', 'h', 'k', 'ds', 'eps_factor',
              'channel_no']}


def parse(env, secs):
    return env.call(params(env).parse_inifile, parser(env, secs))


def complete(env):
    V, secs = minimal(env)
    got, err = parse(env, secs)
    env.check('accepted', err is None)


def missing(env, sec):
    V, secs = minimal(env)
    o = env.pick('missing', REQ[sec])
    del secs[sec][o]
    got, err = parse(env, secs)
    env.check('refused', err is not None)
    if err is not None and o not in ('geometry',):
        env.check('kind', type(err).__name__ == 'MissingOptionError')
        env.check('names-the-option', o in str(err) and sec in str(err))


def section(env):
    V, secs = minimal(env)
    s = env.pick('missing', ['run', 'model', 'strata', 'hydraulics'])
    del secs[s]
    got, err = parse(env, secs)
    env.check('refused', err is not None)
    if err is not None:
        env.check('kind', type(err).__name__ == 'MissingSectionError')
        env.check('names-the-section', s in str(err))


def flowtrans(env):
    V, secs = minimal(env)
    outs = ['vtr', 'py', 'mat', 'npz', 'h5', 'mf', 'mf6', 'hgs']
    a = env.num('a', 0, 7)
    b = env.num('b', 0, 7)
    secs['run']['outputs'] = [outs[a], outs[b]]
    have = env.flag('have')
    if have:
        secs['flowtrans'] = {'gradh': V.r('gradh')}
    got, err = parse(env, secs)
    need = a >= 5 or b >= 5
    env.check('flowtrans-needed', (err is None) == (have or not need))
    if err is not None:
        env.check('kind', type(err).__name__ == 'MissingSectionError')


def wronglength(env):
    V, secs = minimal(env)
    sec, opt, dims = env.pick('option', [
        ('hydraulics', 'k_h', 1), ('hydraulics', 'sig_y', 1), ('hydraulics', 'k_ratio', 1), ('hydraulics', 'n', 1),
        ('hydraulics', 'sig_n', 1), ('hydraulics', 'ycorlengths', 2), ('hydraulics', 'ncorlengths', 2),
        ('strata', 'bg_azim', 1), ('strata', 'bg_dip', 1), ('strata', 'avul', 2), ('strata', 'avul_prob', 2),
        ('strata', 'ae_prob', 3), ('strata', 'ae_z_mean', 3)])
    n = len(FAC) if sec == 'hydraulics' else 2
    m = env.num('m', 1, 4)
    if dims == 1:
        env.assume(m != n)
        secs[sec][opt] = V.r('w', m)
    elif dims == 2:
        env.assume(m != n)
        inner = {'ycorlengths': 3, 'ncorlengths': 3, 'avul': 2, 'avul_prob': 1}[opt]
        if env.flag('inner'):
            secs[sec][opt] = V.rr('w', n, inner + 1)
        else:
            secs[sec][opt] = V.rr('w', m, inner)
    else:
        secs[sec][opt] = [V.r('w0', 1 if m != 1 else 2), V.r('w1', 2 if m == 1 else m if m != 2 else 1)]
    got, err = parse(env, secs)
    env.check('refused', err is not None)


def pairs(env, sec):
    V, secs = minimal(env)
    names = {'sh': ['k_ztrend', 'size_ztrend', 'dip', 'azimuth'], 'tr': ['paleoflow', 'n_xtrend', 'lag', 'migrate'],
             'ch': ['k_xtrend', 'n_ztrend', 'lag'], 'hydraulics': ['k_ztrend', 'k_xtrend', 'n_ztrend', 'n_xtrend']}[sec]
    o = env.pick('option', names)
    m = env.num('m', 1, 5)
    env.assume(m != (4 if o == 'migrate' else 2))
    secs[sec][o] = V.r('w', m)
    got, err = parse(env, secs)
    env.check('refused', err is not None)


def unknown(env):
    V, secs = minimal(env)
    what = env.num('what', 0, 15)
    bad = env.pick('bad', ['xx', 'FA', 'f', 'fa2'])
    if what == 0:
        secs['strata']['bg_facies'] = ['fa', bad]
    elif what == 1:
        secs['sh']['facies'] = [bad, 'fa']
    elif what == 2:
        secs['tr']['facies'] = ['fa', bad]
    elif what == 3:
        secs['ch']['altfacies'] = [['fa'], ['fb', bad]]
    elif what == 4:
        secs['sh']['bg_facies'] = bad
    elif what == 5:
        secs['tr']['bg_facies'] = bad
    elif what == 6:
        secs['tr'].update(lag_height=V.r('lh', lo=1, hi=2), lag_facies=bad)
    elif what == 7:
        secs['ch'].update(lag_height=V.r('lh', lo=1, hi=2), lag_facies=bad)
    elif what == 8:
        secs['run']['outputs'] = ['py', bad]
    elif what == 9:
        secs['model']['heterogeneity_level'] = bad
    elif what == 10:
        secs['sh']['geometry'] = bad
    elif what == 11:
        secs['sh']['structure'] = env.pick('st', [bad, 'bulb', 'bulb_sets', 'random', 'flat'])
    elif what == 12:
        secs['tr']['structure'] = bad
    elif what == 13:
        secs['ch']['structure'] = env.pick('st', [bad, 'bulb', 'flat'])
    elif what == 14:
        secs['tr'].update(lag_height=V.r('lh', lo=1, hi=2))
    else:
        secs['ch'].update(lag_height=V.r('lh', lo=1, hi=2))
    got, err = parse(env, secs)
    env.check('refused', err is not None)


def structure(env, sec):
    """internal structures need their set distances"""
    V, secs = minimal(env)
    st = env.pick('structure', {'sh': ['massive', 'dip'], 'ch': ['massive', 'dip'],
                                'tr': ['massive', 'dip', 'bulb', 'bulb_sets', 'random', 'flat']}[sec])
    secs[sec]['structure'] = st
    dd = env.flag('dipset')
    bd = env.flag('bulbset') if sec == 'tr' else False
    if dd:
        secs[sec]['dipset_dist'] = V.r('dd')
    if bd:
        secs[sec]['bulbset_dist'] = V.r('bd')
    got, err = parse(env, secs)
    ok = not (st in ('dip', 'random') and not dd) and not (st in ('bulb_sets', 'random') and not bd)
    env.check('distance-required', (err is None) == ok)
    if ok and err is None:
        env.check('structure', got[5][sec]['structure'] == st)
        expect(env, 'dipset', got[5][sec]['dipset_dist'], secs[sec].get('dipset_dist'))
        if sec == 'tr':
            expect(env, 'bulbset', got[5][sec]['bulbset_dist'], secs[sec].get('bulbset_dist'))


def cases(tier):
    cs = [dict(name='complete', fn=complete), dict(name='section', fn=section), dict(name='flowtrans', fn=flowtrans),
          dict(name='length', fn=wronglength), dict(name='unknown', fn=unknown)]
    for s in REQ:
        cs.append(dict(name='missing-' + s, fn=missing, args=dict(sec=s)))
    for s in ('sh', 'tr', 'ch', 'hydraulics'):
        cs.append(dict(name='pairs-' + s, fn=pairs, args=dict(sec=s)))
    for s in ('sh', 'tr', 'ch'):
        cs.append(dict(name='structure-' + s, fn=structure, args=dict(sec=s)))
    return cs
