"""C24: anisotropic conductivity tensors"""
BOUNDS = ('arrays of up to 2 x 2 x 2 cells with independent symbolic conductivity, anisotropy ratio, azimuth and '
          'dip in every cell; angles over the whole circle, ratio and conductivity any positive real')
ASSUMPTIONS = ['sin and cos are two reals with s^2 + c^2 = 1 obeying the addition theorems; real arithmetic']


def tensor(env, shape):
    f = env.load('hyvr.optimized').set_anisotropic_ktensor
    np = env.np
    idx = [(i, j, k) for i in range(shape[0]) for j in range(shape[1]) for k in range(shape[2])]
    mk = lambda nm, **kw: [[[env.real('%s_%d%d%d' % (nm, i, j, k), **kw) for k in range(shape[2])]
                            for j in range(shape[1])] for i in range(shape[0])]
    K, A = mk('k', gt=0, hi=10), mk('anirat', lo=0.1, hi=100)
    AZ, DI = mk('azim', lo=-7, hi=7), mk('dip', lo=-7, hi=7)
    kt = np.zeros(tuple(shape) + (3, 3))
    f(kt, env.arr(K), env.arr(AZ), env.arr(DI), env.arr(A))
    for (i, j, k) in idx:
        kk, r, ka, ps = K[i][j][k], A[i][j][k], AZ[i][j][k], DI[i][j][k]
        sk, ck, sp, cp = env.sin(ka), env.cos(ka), env.sin(ps), env.cos(ps)
        n = (ck * sp, -sk * sp, cp)
        for a in range(3):
            for b in range(3):
                want = kk * ((1 if a == b else 0) + (1 / r - 1) * n[a] * n[b])
                env.check_eq('entry%d%d' % (a, b), kt[i, j, k, a, b], want)


def algebra(env):
    """consequences: symmetric, isotropic for ratio 1, trace, action on the normal and on the layer"""
    f = env.load('hyvr.optimized').set_anisotropic_ktensor
    kk, r = env.real('k', gt=0, hi=10), env.real('anirat', lo=0.1, hi=100)
    ka, ps = env.real('azim', -7, 7), env.real('dip', -7, 7)
    one = lambda v: env.arr([[[v]]])
    kt = env.np.zeros((1, 1, 1, 3, 3))
    f(kt, one(kk), one(ka), one(ps), one(r))
    T = [[kt[0, 0, 0, a, b] for b in range(3)] for a in range(3)]
    for a in range(3):
        for b in range(a):
            env.check_eq('symmetric', T[a][b], T[b][a])
    env.check_eq('trace', T[0][0] + T[1][1] + T[2][2], kk * (2 + 1 / r))
    sk, ck, sp, cp = env.sin(ka), env.cos(ka), env.sin(ps), env.cos(ps)
    n = (ck * sp, -sk * sp, cp)
    u = (sk, ck, 0)
    for a in range(3):
        env.check_eq('normal', sum(T[a][b] * n[b] for b in range(3)), kk / r * n[a])
        env.check_eq('in-plane', sum(T[a][b] * u[b] for b in range(3)), kk * u[a])


def cases(tier):
    cs = [dict(name='one-cell', fn=tensor, args=dict(shape=(1, 1, 1))),
          dict(name='algebra', fn=algebra),
          dict(name='1x1x2', fn=tensor, args=dict(shape=(1, 1, 2))),
          dict(name='1x2x1', fn=tensor, args=dict(shape=(1, 2, 1))),
          dict(name='2x1x1', fn=tensor, args=dict(shape=(2, 1, 1)))]
    if tier != 'quick':
        cs.append(dict(name='2x2x2', fn=tensor, args=dict(shape=(2, 2, 2))))
        cs.append(dict(name='1x2x3', fn=tensor, args=dict(shape=(1, 2, 3))))
    return cs
