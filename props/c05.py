"""C05: contact models in the parameter file"""
from props.ini import *

BOUNDS = ('1-4 strata and one element with flat or random contact models, keywords in any mix of upper and lower case '
          'and with or without quotation marks, arbitrary parameters; contact models with 0 to 6 entries; 0-3 contact '
          'models for 1-3 strata')
ASSUMPTIONS = ['the parameters of a contact model are the elevation (strata only), variance and two correlation '
               'lengths, in this order']


def keyword(env, nm, word, quote=True):
    w = {0: word, 1: word.upper(), 2: word.capitalize(), 3: word[0] + word[1:].upper()}[env.num(nm + '_case', 0, 3)]
    q = env.pick(nm + '_quote', ['', '"', "'"]) if quote else ''
    return q + w + q


def check(env, label, cm, mode, z, par):
    env.check(label + '-mode', cm['mode'] == mode)
    if z is None:
        env.check(label + '-no-z', 'z' not in cm)
    else:
        expect(env, label + '-z', cm['z'], z)
    if par is None:
        env.check(label + '-no-parameters', not [k for k in ('var', 'corlx', 'corly') if k in cm])
    else:
        expect(env, label + '-var', cm['var'], par[0])
        expect(env, label + '-corlx', cm['corlx'], par[1])
        expect(env, label + '-corly', cm['corly'], par[2])


def strata_models(env, modes, quote):
    V, secs = minimal(env)
    ns = len(modes) + 1
    s = secs['strata']
    s['strata'] = ['s%d' % k for k in range(ns)]
    s['ae_in_strata'] = [['sh']] * ns
    for k in ('ae_prob', 'ae_z_mean'):
        s[k] = 1.0
    s['avul_prob'], s['avul'] = [0.0], [0.0, 0.0]
    s['bg_facies'], s['bg_azim'], s['bg_dip'] = 'fa', 0.0, 0.0
    want, lst = [], []
    for k, m in enumerate(modes):
        z = V.r('zc%d' % k)
        par = V.r('par%d' % k, 3) if m == 'random' else None
        lst.append([keyword(env, 'kw%d' % k, m, quote), z] + (par or []))
        want.append((m, z, par))
    s['strata_contact_models'] = lst
    r = settings(env, parser(env, secs))
    cms = r[2]['contact_models']
    env.check('number', len(cms) == len(modes))
    for cm, (m, z, par) in zip(cms, want):
        check(env, 'stratum', cm, m, z, par)


def element_model(env, mode, geometry):
    V, secs = minimal(env)
    par = V.r('par', 3) if mode == 'random' else None
    secs[geometry]['contact_model'] = [keyword(env, 'kw', mode)] + (par or [])
    r = settings(env, parser(env, secs))
    check(env, 'element', r[5][geometry]['contact_model'], mode, None, par)
    for o in ('sh', 'tr', 'ch'):
        if o != geometry:
            check(env, 'other', r[5][o]['contact_model'], 'flat', None, None)


def lengths(env, mode, depth):
    """wrong number of entries or unknown keyword"""
    C = env.load('hyvr.geo.contact_surface_utils')
    V = Vals(env)
    n = env.num('n', 0, 6)
    vals = V.r('v', n)
    got, err = env.call(C.parse_contact_model, [mode] + [text(env, v) for v in vals], depth)
    need = {'flat': 0, 'random': 3}.get(mode.lower())
    good = need is not None and n == need + (1 if depth else 0)
    if not good:
        env.check('rejected', err is not None)
        return
    env.check('accepted', err is None)
    if err is None:
        check(env, 'direct', lenient(got), mode.lower(), vals[0] if depth else None, vals[-3:] if need else None)


def count(env):
    """there is one contact less than strata"""
    V, secs = minimal(env)
    ns, nc = env.num('ns', 1, 3), env.num('nc', 1, 3)
    s = secs['strata']
    s['strata'] = ['s%d' % k for k in range(ns)]
    s['ae_in_strata'] = [['sh']] * ns
    s['ae_prob'] = s['ae_z_mean'] = 1.0
    s['avul_prob'], s['avul'] = [0.0], [0.0, 0.0]
    s['bg_facies'], s['bg_azim'], s['bg_dip'] = 'fa', 0.0, 0.0
    s['strata_contact_models'] = [['flat', V.r('z_c%d' % k)] for k in range(nc)]
    got, err = env.call(params(env).parse_inifile, parser(env, secs))
    env.check('one-per-contact', (err is None) == (nc == ns - 1))


def cases(tier):
    cs = []
    R, F = 'random', 'flat'
    for ms in ((F,), (R,)):
        cs.append(dict(name='strata-' + '-'.join(ms), fn=strata_models, args=dict(modes=ms, quote=True)))
    for ms in ((R, F), (F, R), (R, R)):
        cs.append(dict(name='strata-' + '-'.join(ms), fn=strata_models, args=dict(modes=ms, quote=False)))
    for m in (F, R):
        for g in ('sh', 'tr', 'ch'):
            cs.append(dict(name='element-%s-%s' % (m, g), fn=element_model, args=dict(mode=m, geometry=g)))
        for d in (True, False):
            cs.append(dict(name='entries-%s-%s' % (m, d), fn=lengths, args=dict(mode=m, depth=d)))
    for d in (True, False):
        cs.append(dict(name='unknown-%s' % d, fn=lengths, args=dict(mode='rough', depth=d)))
    cs.append(dict(name='count', fn=count))
    cs.append(dict(name='strata-3', fn=strata_models, args=dict(modes=(F, R, F), quote=False)))
    cs.append(dict(name='strata-2q', fn=strata_models, args=dict(modes=(R, F), quote=True)))
    return cs
