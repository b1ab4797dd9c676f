"""C10: the model grid"""
BOUNDS = ('up to 3 (quick) / 5 (thorough) cells per axis, and 12x1x2, 1x15x1, 2x1x20, 4x5x3 cells; origin, spacing and extent symbolic reals; '
          'extents that are and that are not a multiple of the spacing')
ASSUMPTIONS = ['real arithmetic in place of float64; np.arange yields ceil((stop-start)/step) values']


def axis(env, nm, n, exact):
    o = env.real(nm + '0', -1000, 1000)
    d = env.real('d' + nm, gt=0, hi=100)
    if exact:
        l = n * d
    else:
        l = env.real('l' + nm, gt=0, hi=1000)
        env.assume(l > (n - 0.5) * d)
        env.assume(l < (n + 0.5) * d)
    return o, d, l


def grid(env, nmax, exact, size=None):
    Grid = env.load('hyvr.geo.grid').Grid
    n = list(size) if size else [env.num('n' + c, 1, nmax) for c in 'xyz']
    ax = [axis(env, c, n[i], exact) for i, c in enumerate('xyz')]
    per = env.num('periodic', 0, 1)
    g = Grid(ax[0][0], ax[1][0], ax[2][0], ax[0][1], ax[1][1], ax[2][1], ax[0][2], ax[1][2], ax[2][2], per)
    env.check('cell-counts', g.nx == n[0] and g.ny == n[1] and g.nz == n[2])
    vec = [g.x, g.y, g.z]
    for i, c in enumerate('xyz'):
        o, d, l = ax[i]
        env.check('vector-length', len(vec[i]) == n[i])
        for k in range(n[i]):
            env.check_eq('centre-' + c, vec[i][k], o + (k + 0.5) * d)
            env.check('inside', env.And(vec[i][k] > o, vec[i][k] < o + l))
        env.check_eq('max-' + c, getattr(g, c + 'max', None), o + l)
        env.check_eq('origin-' + c, getattr(g, c + '0', None), o)
        env.check_eq('spacing-' + c, getattr(g, 'd' + c, None), d)
        env.check_eq('length-' + c, getattr(g, 'l' + c, None), l)
        M, C = getattr(g, c.upper()), getattr(g, c.upper() + '_centered')
        env.check('shape', tuple(M.shape) == tuple(n) and tuple(C.shape) == tuple(n))
        for I in [(a, b, e) for a in range(n[0]) for b in range(n[1]) for e in range(n[2])]:
            env.check_eq('mesh-' + c, M[I], o + (I[i] + 0.5) * d)
            env.check_eq('centred-' + c, C[I], (I[i] - (n[i] - 1) / 2) * d)
    env.check('periodic', bool(g.periodic) == bool(per))


def cases(tier):
    m = 3 if tier == 'quick' else 5
    return [dict(name='multiple-%d' % m, fn=grid, args=dict(nmax=m, exact=True)),
            dict(name='any-extent-%d' % min(m, 4), fn=grid, args=dict(nmax=min(m, 4), exact=False))] + [
            dict(name='%s-%dx%dx%d' % (('multiple' if ex else 'any-extent',) + s), fn=grid,
                 args=dict(nmax=0, exact=ex, size=s))
            for s in ((12, 1, 2), (1, 15, 1), (2, 1, 20), (4, 5, 3)) for ex in (True, False) if ex or s[0] != 4]
