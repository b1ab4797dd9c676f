"""C01: lists in ini-files"""
from props.common import *

BOUNDS = ('well-formed lists: every nesting of depth 0-3 with 1-3 entries per level (at most 5 values) and optional '
          'blanks around every token, every value an arbitrary real or integer; arbitrary texts: every sequence of up '
          'to 5 (thorough 7) tokens out of [ ] , value')
ASSUMPTIONS = ['a number in the text stands for the value float()/int() reads from it']


def tree(env, name, depth, width, left):
    """a nested list: its text tokens and its value"""
    if depth == 0:
        k = left.pop() if left else None
        if k is None:
            env.assume(False)
        v = env.real('v%d' % k, -1e6, 1e6)
        return [env.text(v)], v
    m = env.num(name + '_n', 1, width)
    toks, vals = ['['], []
    for i in range(m):
        t, v = tree(env, '%s_%d' % (name, i), depth - 1, width, left)
        toks += ([','] if i else []) + t
        vals.append(v)
    return toks + [']'], vals


def flat(v):
    return [x for e in v for x in flat(e)] if isinstance(v, (list, tuple)) else [v]


def shape(v):
    return [shape(e) for e in v] if isinstance(v, (list, tuple)) else 0


def wellformed(env, depth, width, maxvals, blanks):
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    toks, want = tree(env, 't', depth, width, list(range(maxvals)))
    text = ''
    for i, t in enumerate(toks):
        if blanks == 'pick':
            text += (' ' if env.flag('blank%d' % i) else '') + t
        elif blanks:
            text += '  ' * (i > 0) + t + ' '
        else:
            text += t
    got = P.parse_list(text, F)
    env.check('structure', shape(got) == shape(want))
    if shape(got) == shape(want):
        for g, w in zip(flat(got), flat(want)):
            env.check_eq('value', g, w)


def strings(env, depth, width):
    """names keep their text and order; numbers given as integers become integers"""
    P = env.load('hyvr.input.option_parsing')
    S = P.__dict__['__builtins__']['str'] if env.symbolic else str
    toks, want = tree(env, 't', depth, width, list(range(5)))
    text, i = '', 0
    for t in toks:
        if t in '[],':
            text += t
        else:
            text += 'n%d_a-b.c' % i
            i += 1
    got = P.parse_list(text, S)
    env.check('structure', shape(got) == shape(want))
    env.check('names', flat(got) == ['n%d_a-b.c' % i for i in range(len(flat(want)))])
    I = P.__dict__['__builtins__']['int'] if env.symbolic else int
    ints = [env.int('i%d' % k, -999, 999) for k in range(2)]
    r = P.parse_list('[' + env.text(ints[0]) + ' , ' + env.text(ints[1]) + ']', I)
    env.check('two', len(r) == 2)
    f = env.real('fraction', -1e6, 1e6)
    _, err = env.call(P.parse_list, '[' + env.text(ints[0]) + ',' + env.text(f) + ']', I)
    env.check('fraction-rejected', err is not None)
    env.check_eq('integers', r, ints)


def reference(toks):
    """structure of a token sequence, or None if it is not a list (token index for values)"""
    pos = [0]

    def val():
        if pos[0] >= len(toks):
            return None
        t = toks[pos[0]]
        if t == 'v':
            pos[0] += 1
            return ('v', pos[0] - 1)
        if t != '[':
            return None
        pos[0] += 1
        out = []
        while True:
            e = val()
            if e is None:
                return None
            out.append(e)
            if pos[0] >= len(toks):
                return None
            t = toks[pos[0]]
            pos[0] += 1
            if t == ']':
                return out
            if t != ',':
                return None
    r = val()
    return r if r is not None and pos[0] == len(toks) else None


def depths(e):
    if isinstance(e, tuple):
        return {0}
    s = set()
    for x in e:
        s |= depths(x)
    return {d + 1 for d in s}


def anytext(env, n):
    P = env.load('hyvr.input.option_parsing')
    F = P.__dict__['__builtins__']['float'] if env.symbolic else float
    toks = [env.pick('tok%d' % i, ['[', ']', ',', 'v']) for i in range(n)]
    vals = {i: env.real('v%d' % i, -1e6, 1e6) for i, t in enumerate(toks) if t == 'v'}
    text = ''.join(env.text(vals[i]) if t == 'v' else t for i, t in enumerate(toks))
    got, err = env.call(P.parse_list, text, F)
    ref = reference(toks)
    if ref is None or len(depths(ref)) > 1:
        env.check('malformed-rejected', err is not None)
        return
    env.check('accepted', err is None)
    if err is None:
        st = lambda e: 0 if isinstance(e, tuple) else [st(x) for x in e]
        fl = lambda e: [e[1]] if isinstance(e, tuple) else [y for x in e for y in fl(x)]
        env.check('structure', shape(got) == st(ref))
        if shape(got) == st(ref):
            for g, i in zip(flat(got), fl(ref)):
                env.check_eq('value', g, vals[i])


def cases(tier):
    cs = []

    def add(name, fn, **kw):
        cs.append(dict(name=name, fn=fn, args=kw))
    for d in range(4):
        add('nested-%d' % d, wellformed, depth=d, width=3 if d < 3 else 2, maxvals=5, blanks=False)
        add('blanks-%d' % d, wellformed, depth=d, width=2, maxvals=4, blanks=True)
        add('names-%d' % d, strings, depth=d, width=2 if d == 3 else 3)
    add('blanks-anywhere', wellformed, depth=1, width=2, maxvals=2, blanks='pick')
    for n in range(1, 6 if tier == 'quick' else 8):
        add('text-%d' % n, anytext, n=n)
    if tier != 'quick':
        add('blanks-anywhere-2', wellformed, depth=2, width=2, maxvals=3, blanks='pick')
        add('nested-3-3', wellformed, depth=3, width=3, maxvals=7, blanks=False)
    return cs
