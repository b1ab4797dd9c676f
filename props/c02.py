"""C02: list options get their declared shape"""
from props.common import *
from props.c01 import tree, flat, shape

BOUNDS = ('declared shapes of 1-3 dimensions with fixed lengths 1-3, free dimensions and lengths taken from another '
          'option; given values of every depth 0-4 with 1-3 entries per list (also of unequal length), at most 6 '
          'values, each an arbitrary real')
ASSUMPTIONS = []


def depth(v):
    return 1 + depth(v[0]) if isinstance(v, (list, tuple)) else 0


def lengths(v, level):
    """lengths of all lists at a level (0: the outermost)"""
    if level == 0:
        return [len(v)]
    return [x for e in v for x in lengths(e, level - 1)]


def reference(dims, v):
    """value as seen by the program, or None if it has to be rejected; dims: flat shape with -1 for free"""
    d, D = depth(v), len(dims)
    if d > D:
        return None
    inner, outer = dims[D - d:], dims[:D - d]
    for lv, want in enumerate(inner):
        if want != -1 and any(n != want for n in lengths(v, lv)):
            return None
    if any(o == -1 for o in outer):
        return None
    for o in reversed(outer):
        v = [v] * o
    return v


def like(ref, v):
    """value v given for an option that must look like the nested list ref"""
    d, D = depth(v), depth(ref)
    if d > D:
        return None

    def fill(r, k):
        return v if k == 0 else [fill(x, k - 1) for x in r]
    v = fill(ref, D - d)
    return v if shape(v) == shape(ref) else None


def run(env, P, opts, texts):
    s = P.Section('sec', opts)
    return env.call(s.parse, dict(texts))


def judge(env, got, err, want, name):
    if want is None:
        env.check('rejected', err is not None)
        return
    env.check('accepted', err is None)
    if err is None:
        env.check('structure', shape(got[name]) == shape(want))
        if shape(got[name]) == shape(want):
            for g, w in zip(flat(got[name]), flat(want)):
                env.check_eq('value', g, w)


def fixed(env, dims, depth_max, width, raw=None):
    """shape written as numbers"""
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    L = list
    d = env.num('depth', 0, depth_max)
    toks, v = tree(env, 't', d, width, list(range(6)))
    o = P.Option('opt', L, shape=raw if raw is not None else list(dims), datatype=F)
    got, err = run(env, P, [o], {'opt': ''.join(toks)})
    judge(env, got, err, reference(dims, v), 'opt')


def free(env):
    """shape -1: anything goes, a single value becomes a list"""
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    d = env.num('depth', 0, 3)
    toks, v = tree(env, 't', d, 2, list(range(5)))
    got, err = run(env, P, [P.Option('opt', list, shape=-1, datatype=F)], {'opt': ''.join(toks)})
    judge(env, got, err, v if d else [v], 'opt')


def other(env, dref, dval, width):
    """shape of another option"""
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    left = list(range(9))
    toks, ref = tree(env, 'r', dref, width, left)
    dv = env.num('depth', 0, dval)
    toks2, v = tree(env, 't', dv, width, left)
    opts = [P.Option('ref', list, shape=-1, datatype=F), P.Option('opt', list, shape='ref', datatype=F)]
    got, err = run(env, P, opts, {'opt': ''.join(toks2), 'ref': ''.join(toks)})
    judge(env, got, err, like(ref, v), 'opt')
    if err is None:
        env.check('other-kept', shape(got['ref']) == shape(ref))


def mixed(env, dims, dval, width, dref=1):
    """some dimension has the length of another option"""
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    left = list(range(9))
    toks, ref = tree(env, 'r', dref, 3 if dref == 1 else 2, left)
    dv = env.num('depth', 0, dval)
    toks2, v = tree(env, 't', dv, width, left)
    opts = [P.Option('ref', list, shape=[-1] * dref, datatype=F), P.Option('opt', list, shape=list(dims), datatype=F)]
    got, err = run(env, P, opts, {'ref': ''.join(toks), 'opt': ''.join(toks2)})
    judge(env, got, err, reference([len(ref) if x == 'ref' else x for x in dims], v), 'opt')
    # the declaration itself is not changed by parsing
    env.check('declaration-kept', opts[1].shape == list(dims))


def twice(env, dims, width):
    """one description of a section reads two files that have different lengths"""
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    d = list(dims) if isinstance(dims, (list, tuple)) else dims
    sec = P.Section('sec', [P.Option('ref', list, shape=[-1], datatype=F), P.Option('opt', list, shape=d, datatype=F)])
    left = list(range(7))
    for k in range(2):
        r = ['1.5', '2.5', '3.5'][:env.num('r%d' % k, 1, 3)]
        toks, v = tree(env, 't%d' % k, env.num('depth%d' % k, 0, 1), width, left)
        got, err = env.call(sec.parse, {'ref': '[' + ', '.join(r) + ']', 'opt': ''.join(toks)})
        dd = [d] if not isinstance(d, list) else d
        judge(env, got, err, reference([len(r) if x == 'ref' else x for x in dd], v), 'opt')


def cases(tier):
    cs = []

    def add(name, fn, **kw):
        cs.append(dict(name=name, fn=fn, args=kw))
    for n in (1, 2, 3):
        add('n-%d' % n, fixed, dims=[n], depth_max=2, width=3, raw=n)
    add('n-list', fixed, dims=[2], depth_max=3, width=2)
    for dims in ([2, 3], [1, 2], [2, 1], [2, 2], [-1], [-1, 3], [2, -1], [-1, -1]):
        add('dims-' + '_'.join(map(str, dims)), fixed, dims=dims, depth_max=3, width=3 if 3 in dims else 2)
    for dims in ([2, 1, 2], [2, -1, 2], [1, 2, 2], [-1, 2, 2], [2, 2, -1]):
        add('dims-' + '_'.join(map(str, dims)), fixed, dims=dims, depth_max=3, width=2)
    for dims in (['ref'], ['ref', 2], [2, 'ref'], 'ref'):
        add('twice-' + '_'.join(map(str, dims if isinstance(dims, list) else ['as', dims])), twice, dims=dims, width=2)
    add('mixed-nested', mixed, dims=[2, 'ref'], dval=2, width=2, dref=2)
    add('free', free)
    add('like-1', other, dref=1, dval=2, width=3)
    add('like-2', other, dref=2, dval=2, width=2)
    for dims in (['ref'], ['ref', 2], ['ref', -1], ['ref', 3], [2, 'ref']):
        add('mixed-' + '_'.join(map(str, dims)), mixed, dims=dims, dval=2, width=3 if 3 in dims else 2)
    if tier != 'quick':
        add('like-3', other, dref=3, dval=3, width=2)
        add('like-2-3', other, dref=2, dval=3, width=3)
        add('mixed-3', mixed, dims=['ref', -1, 2], dval=3, width=2)
        add('dims-4', fixed, dims=[1, 2, 1, 2], depth_max=4, width=2)
        add('dims-323', fixed, dims=[3, 2, 3], depth_max=3, width=3)
    return cs
