"""Builds parameter files"""
import configparser
from props.common import *


def text(env, v):
    """ini-file text of a nested value; strings stand for themselves"""
    if isinstance(v, (list, tuple)):
        return '[' + ', '.join(text(env, x) for x in v) + ']'
    if isinstance(v, str):
        return v
    if v is True or v is False:
        return str(v)
    return env.text(v)


def dump(env, secs):
    out = []
    for s, d in secs.items():
        out.append('[%s]' % s)
        for k, v in d.items():
            out.append('%s = %s' % (k, text(env, v)))
        out.append('')
    return '\n'.join(out)


def parser(env, secs):
    p = configparser.ConfigParser()
    p.read_string(dump(env, secs))
    return p


class Vals:
    """fresh symbolic values, remembered by name"""

    def __init__(self, env):
        self.env = env

    def r(self, name, n=None, lo=-1000, hi=1000):
        if n is None:
            return self.env.real(name, lo, hi)
        return [self.r('%s_%d' % (name, i), None, lo, hi) for i in range(n)]

    def rr(self, name, n, m):
        return [self.r('%s_%d' % (name, i), m) for i in range(n)]


FAC = ['fa', 'fb', 'fc']


def hydraulics(V):
    n = len(FAC)
    return {'hydrofacies': FAC, 'k_h': V.r('k_h', n), 'sig_y': V.r('sig_y', n), 'k_ratio': V.r('k_ratio', n),
            'n': V.r('n', n), 'sig_n': V.r('sig_n', n), 'ycorlengths': V.rr('ycl', n, 3),
            'ncorlengths': V.rr('ncl', n, 3)}


def model(V):
    return {'dx': V.r('dx'), 'lx': V.r('lx'), 'ly': V.r('ly'), 'lz': V.r('lz')}


def sheet(V, nm='sh'):
    return {'geometry': 'sheet', 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['fb', 'fa'],
            'lens_thickness': V.r(nm + '_lens')}


def erosive(V, nm, geometry):
    return {'geometry': geometry, 'structure': 'massive', 'contact_model': ['flat'], 'facies': ['fc', 'fb'],
            'width': V.r(nm + '_w'), 'depth': V.r(nm + '_d'), 'agg': V.r(nm + '_agg')}


def trough(V, nm='tr'):
    return dict(erosive(V, nm, 'trough'), length=V.r(nm + '_len'), trough_density=V.r(nm + '_dens'),
                paleoflow=V.r(nm + '_pf', 2))


def channel(V, nm='ch'):
    return dict(erosive(V, nm, 'channel'), h=V.r(nm + '_h'), k=V.r(nm + '_k'), ds=V.r(nm + '_ds'),
                eps_factor=V.r(nm + '_eps'), channel_no=V.env.int(nm + '_no', 1, 9))


def strata(V):
    return {'strata': ['s1', 's2'], 'strata_contact_models': [['flat', V.r('z1')]], 'ae': ['sh', 'tr', 'ch'],
            'ae_in_strata': [['sh'], ['tr', 'ch']], 'ae_prob': [V.r('p0', 1), V.r('p1', 2)],
            'ae_z_mean': [V.r('zm0', 1), V.r('zm1', 2)], 'avul_prob': V.rr('ap', 2, 1), 'avul': V.rr('av', 2, 2),
            'bg_facies': ['fb', 'fc'], 'bg_azim': V.r('bga', 2), 'bg_dip': V.r('bgd', 2)}


def minimal(env):
    """a complete file that uses no optional option"""
    V = Vals(env)
    return V, {'run': {}, 'model': model(V), 'strata': strata(V), 'hydraulics': hydraulics(V), 'sh': sheet(V),
               'tr': trough(V), 'ch': channel(V)}


def params(env):
    return env.load('hyvr.input.parameters')


class Missing:
    """stands for a setting that the program does not give"""

    def __getitem__(self, k):
        return self

    def __iter__(self):
        return iter(())

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = None


class Settings(dict):
    def __missing__(self, k):
        return Missing()


def lenient(v):
    """settings in which a missing key is an unequal value and not an exception of the harness"""
    if isinstance(v, dict):
        return Settings((k, lenient(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return type(v)([lenient(x) for x in v])
    return v


def settings(env, p):
    return lenient(params(env).parse_inifile(p))


def flatten(v):
    return [x for e in v for x in flatten(e)] if isinstance(v, (list, tuple)) else [v]


def shape(v):
    return [shape(e) for e in v] if isinstance(v, (list, tuple)) else 0


def expect(env, label, got, want):
    """equal nested values"""
    if shape(got) != shape(want):
        env.fail(label, 'shape %s, expected %s' % (shape(got), shape(want)))
        return
    for g, w in zip(flatten(got), flatten(want)):
        if w is None or isinstance(w, (str, bool)):
            env.check(label, type(g) is type(w) and g == w)
        else:
            if g is None or isinstance(g, (str, bool, Missing)):
                env.fail(label)
            else:
                env.check_eq(label, g, w)
