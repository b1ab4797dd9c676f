"""C03: single options: types, truth values, defaults, alternative names, validation"""
from props.common import *

BOUNDS = ('one section with up to 4 options, read twice, each present or missing under its name and up to 3 alternative names; '
          'arbitrary numbers; all spellings of truth values of up to 5 letters in upper and lower case')
ASSUMPTIONS = []


def types_(env, P):
    if env.symbolic:
        b = P.__dict__['__builtins__']
        return b['float'], b['int'], b['str'], b['bool']
    return float, int, str, bool


def scalars(env):
    P = env.load('hyvr.input.option_parsing')
    F, I, S, B = types_(env, P)
    f, i = env.real('f', -1e9, 1e9), env.int('i', -10 ** 6, 10 ** 6)
    opts = [P.Option('f', F), P.Option('i', I), P.Option('s', S), P.Option('g', F)]
    got = P.Section('sec', opts).parse({'f': env.text(f), 'i': env.text(i), 's': 'Some Text', 'g': env.text(i)})
    env.check_eq('float', got['f'], f)
    env.check_eq('integer', got['i'], i)
    env.check_eq('integer-text-as-float', got['g'], i)
    env.check('is-float', isinstance(got['g'], (float,)) or env.symbolic)
    env.check('text', got['s'] == 'Some Text')
    _, err = env.call(P.Section('sec', [P.Option('i', I)]).parse, {'i': env.text(f)})
    env.check('no-integer', err is not None)
    _, err = env.call(P.Section('sec', [P.Option('f', F)]).parse, {'f': 'abc'})
    env.check('no-number', err is not None)


WORDS = [('true', True), ('yes', True), ('false', False), ('no', False), ('1', True), ('0', False), ('2', True),
         ('on', None), ('off', None), ('t', None), ('', None), ('y', None), ('n', None), ('-1', None), ('tru', None),
         ('truee', None), ('1.0', None), ('none', None)]


def bools(env, k):
    P = env.load('hyvr.input.option_parsing')
    F, I, S, B = types_(env, P)
    w, want = WORDS[k]
    word = ''.join(c.upper() if env.flag('up%d' % i) else c for i, c in enumerate(w))
    got, err = env.call(P.Section('sec', [P.Option('b', B, default=None)]).parse, {'b': word})
    if want is None:
        env.check('rejected', err is not None)
        return
    env.check('accepted', err is None)
    if err is None:
        env.check('truth', got['b'] is want)


def presence(env, optional, kind):
    """required, optional, default, alternatives in their order"""
    P = env.load('hyvr.input.option_parsing')
    F, I, S, B = types_(env, P)
    dflt = env.real('default', -100, 100)
    names = ['opt', 'alt1', 'alt2', 'alt3']
    vals = [env.real('v%d' % i, -100, 100) for i in range(4)]
    here = [env.flag('has_' + n) for n in names]
    alts = names[1:] if kind == 'list' else 'alt1' if kind == 'string' else []
    nalt = {'list': 4, 'string': 2, 'none': 1}[kind]
    other = env.real('other', -100, 100)
    opts = [P.Option('opt', F, optional=optional, default=dflt, alternatives=alts), P.Option('other', F)]
    sec = P.Section('sec', opts)
    again = [env.flag('again_' + n) for n in names]
    for here in (here, again):
        d = {n: env.text(v) for n, v, h in zip(names, vals, here) if h}
        d['other'] = env.text(other)
        if not one(env, sec, d, here, optional, nalt, vals, dflt, other):
            return
    env.check('alternatives-kept', opts[0].alternatives == (names[1:] if kind == 'list' else
                                                            ['alt1'] if kind == 'string' else []))


def one(env, sec, d, here, optional, nalt, vals, dflt, other):
    got, err = env.call(sec.parse, d)
    first = [i for i in range(nalt) if here[i]]
    if not first and not optional:
        env.check('missing-reported', err is not None and type(err).__name__ == 'MissingOptionError')
        if err is not None:
            env.check('missing-named', 'opt' in str(err) and 'sec' in str(err))
        return True
    env.check('accepted', err is None)
    if err is not None:
        return False
    env.check_eq('value', got['opt'], vals[first[0]] if first else dflt)
    env.check_eq('other', got['other'], other)
    return True


def lists(env):
    """validation applies to all values of nested lists; defaults are not validated"""
    P = env.load('hyvr.input.option_parsing')
    F, I, S, B = types_(env, P)
    v = [env.real('v%d' % i, -10, 10) for i in range(4)]
    lim = env.real('lim', -5, 5)
    good = lambda x: bool(x <= lim)
    text = '[[%s,%s],[%s,%s]]' % tuple(env.text(x) for x in v)
    o = P.Option('opt', list, shape=[2, 2], datatype=F, validation_func=good)
    got, err = env.call(P.Section('sec', [o]).parse, {'opt': text})
    ok = bool(env.And(*[x <= lim for x in v]))
    env.check('validated', (err is None) == ok)
    if ok and err is None:
        env.check_eq('values', got['opt'], [v[:2], v[2:]])
    s = P.Option('opt', F, validation_func=good)
    got, err = env.call(P.Section('sec', [s]).parse, {'opt': env.text(v[0])})
    env.check('validated-scalar', (err is None) == bool(v[0] <= lim))
    d = P.Option('opt', list, optional=True, default=None, shape=2, datatype=F, validation_func=good)
    got, err = env.call(P.Section('sec', [d]).parse, {})
    env.check('default', err is None and 'opt' in got and got['opt'] is None)


def independent(env):
    """one declaration can be used for several sections; unknown options do not disturb the others"""
    P = env.load('hyvr.input.option_parsing')
    F, I, S, B = types_(env, P)
    a, b = env.real('a', -10, 10), env.real('b', -10, 10)
    decl = [P.Option('n', list, shape=[-1], datatype=F), P.Option('x', list, shape=['n', 2], datatype=F),
            P.Option('d', list, optional=True, default=[0.0, 0.0], shape=2, datatype=F)]
    n1, n2 = env.num('n1', 1, 3), env.num('n2', 1, 3)
    lst = lambda k: '[' + ','.join(['1.0'] * k) + ']'
    r1 = P.Section('one', decl).parse({'n': lst(n1), 'x': env.text(a), 'unknown': 'stuff'})
    r2 = P.Section('two', decl).parse({'n': lst(n2), 'x': env.text(b)})
    for r, k, v in ((r1, n1, a), (r2, n2, b)):
        env.check('length', len(r['x']) == k and all(len(q) == 2 for q in r['x']))
        for q in r['x']:
            env.check_eq('value', list(q), [v, v])
        env.check('default', r['d'] == [0.0, 0.0])


def cases(tier):
    cs = [dict(name='scalars', fn=scalars), dict(name='lists', fn=lists), dict(name='independent', fn=independent)]
    for k, (w, _) in enumerate(WORDS):
        cs.append(dict(name='bool-%s' % (w or 'empty'), fn=bools, args=dict(k=k)))
    for o in (True, False):
        for k in ('list', 'string', 'none'):
            cs.append(dict(name='presence-%s-%s' % ('optional' if o else 'required', k), fn=presence,
                           args=dict(optional=o, kind=k)))
    return cs
