"""C21: alternating facies sequences"""
from props.common import *

BOUNDS = ('sequences of up to 6 (with single successors 12, without successors 25) layers, up to 3 facies with distinct symbolic numbers, successor lists '
          'of length 1 and 2 chosen freely from the facies, every outcome of every random choice')
ASSUMPTIONS = ['np.random.choice may return any element of its argument (with non-zero probability)']


def seq(env, num, nf, alt):
    hu = env.load('hyvr.utils')
    fac = [env.int('fac%d' % i, 0, 9) for i in range(nf)]
    for i in range(nf):
        for j in range(i):
            env.assume(fac[i] != fac[j])
    if alt is None:
        af = None
    else:
        af = [[fac[env.num('alt%d_%d' % (i, j), 0, nf - 1)] for j in range(alt[i])] for i in range(nf)]
    r = hu.get_alternating_facies(num, {'facies': list(fac), 'altfacies': af})
    env.check('length', len(r) == num)
    env.check('first', env.Or(*[r[0] == f for f in fac]))
    for i in range(1, num):
        env.check('member', env.Or(*[r[i] == f for f in fac]))
        if af is None:
            continue
        env.check('successor', env.Or(*[env.And(r[i - 1] == fac[a], env.Or(*[r[i] == v for v in af[a]]))
                                        for a in range(nf)]))


def cases(tier):
    cs = [dict(name='free-1', fn=seq, args=dict(num=1, nf=2, alt=None)),
          dict(name='free-4', fn=seq, args=dict(num=4, nf=3, alt=None)),
          dict(name='alt-1', fn=seq, args=dict(num=1, nf=2, alt=(1, 1))),
          dict(name='alt-2', fn=seq, args=dict(num=2, nf=2, alt=(1, 2))),
          dict(name='alt-4', fn=seq, args=dict(num=4, nf=2, alt=(1, 1))),
          dict(name='alt-3', fn=seq, args=dict(num=3, nf=2, alt=(2, 1))),
          dict(name='alt-one', fn=seq, args=dict(num=3, nf=1, alt=(1,)))]
    cs += [dict(name='alt-6', fn=seq, args=dict(num=6, nf=2, alt=(2, 1))),
           dict(name='alt-3x3', fn=seq, args=dict(num=4, nf=3, alt=(1, 2, 1))),
           dict(name='alt-12', fn=seq, args=dict(num=12, nf=3, alt=(1, 1, 1))),
           dict(name='alt-5x4', fn=seq, args=dict(num=5, nf=4, alt=(1, 1, 1, 1))),
           dict(name='free-6', fn=seq, args=dict(num=6, nf=3, alt=None)),
           dict(name='free-25', fn=seq, args=dict(num=25, nf=5, alt=None))]
    if tier != 'quick':
        cs += [dict(name='alt-22', fn=seq, args=dict(num=5, nf=3, alt=(2, 2, 1)), budget=900),
               dict(name='alt-8', fn=seq, args=dict(num=8, nf=2, alt=(2, 2)), budget=900)]
    return cs
