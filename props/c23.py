"""C23: channel centrelines"""
import itertools
import math
from props.geo import *
from props.c22 import near

BOUNDS = ('directions: up to 12 steps of the disturbed meander model with arbitrary parameters and noise; centrelines '
          'through up to 4 directions from fixed lists, arbitrary step length, start point, domain and channel width, '
          'mean flow directions from fixed lists; interpolation of curves through 2-4 points with arbitrary '
          'increments along fixed directions')
ASSUMPTIONS = ['real arithmetic; sin and cos of constant angles rounded to 16 digits',
               'exp, cos and arcsin of parameters are arbitrary functions (the same for code and oracle)',
               'curves start at path length 0 and the path length increases strictly']
OPTS = {'normal_bound': 4}


def directions(env, n, tag='', k=None, done=0):
    """autoregressive model of order 2 with independent noise of mean zero"""
    cu = env.load('hyvr.geo.channel_utils')
    h, k, ef = env.real('h' + tag, 0.1, 0.9), k or env.real('k' + tag, 0.1, 2), env.real('eps' + tag, 0, 2)
    th = cu.ferguson_theta(env.arr([0.5 * i for i in range(n)]), ef, k, h)
    env.check('number', len(th) == n)
    g = env.draws('g')[done:]
    done += len(g)
    env.check('one-draw-per-step', len(g) in (n - 1, n))
    g = g[-(n - 1):] if n > 1 else []
    b1 = 2 * env.exp(-k * h) * env.cos(k * env.np.arcsin(h))
    b2 = -env.exp(-2 * k * h)
    env.check_eq('first', th[0], 0)
    for i in range(1, n):
        want = ef * g[i - 1] + b1 * th[i - 1] + (b2 * th[i - 2] if i > 1 else 0)
        env.check('model', near(env, th[i], want))
    return k, done


def repeated(env, n):
    """a second curve with other parameters, then a third with one of them kept"""
    k, done = directions(env, n, 'a')
    k, done = directions(env, n, 'b', done=done)
    directions(env, n, 'c', k=k, done=done)


def curve(env, ths, flow, n, dl, ds):
    """from directions to points"""
    cu = env.load('hyvr.geo.channel_utils')
    x0, lx, W = env.real('x0', -5, 5), env.real('lx', 0.5, 8), env.real('width', 0.1, 3)
    g = simple_grid((2, 2, 2), x0=x0, y0=env.real('y0', -5, 5), lx=lx, ly=env.real('ly', 0.5, 8), periodic=env.bool('periodic'))
    g.xmax, g.ymax = g.x0 + g.lx, g.y0 + g.ly
    th = [env.pick('th%d' % i, ths) for i in range(n)]
    seen = []

    def interp(xc, yc, spacing):
        seen.append((xc, yc, spacing))
        return env.arr([0.1 * i for i in range(n)]), env.arr(th)
    patch(cu, 'curve_interp', interp)
    patch(env.load('hyvr.optimized'), 'curve_interp', interp)
    sx, sy = env.real('xs', -9, 9), env.real('ys', -9, 9)
    ef = env.real('eps', 0, 1)
    out = cu.ferguson_curve(g, 0.5, 0.4, ds, ef, flow, dl, sx, sy, W)
    env.check('interpolated-once', len(seen) == 1)
    # path length: from 0 in steps of ds along twice the length of the domain
    s, theta, spacing = seen[0]
    m = len(s)
    env.check('path-points', m == len(theta) and abs(m - math.ceil(2 * dl / ds)) <= (1e-6 > abs(round(2 * dl / ds) - 2 * dl / ds)))
    for i in range(m):
        env.check('path', near(env, s[i], i * ds))
    gs = env.draws('g')
    b1, b2 = 2 * math.exp(-0.2) * math.cos(0.4 * math.asin(0.5)), -math.exp(-0.4)
    gs = gs[-(m - 1):]
    for i in range(1, m):
        want = ef * gs[i - 1] + b1 * theta[i - 1] + (b2 * theta[i - 2] if i > 1 else 0)
        env.check('directions', near(env, theta[i], want))
    # points
    rot = flow - sum(th) / n
    px, py, pts = sx, sy, []
    for t in th:
        c, q = ds * math.cos(t + rot), ds * math.sin(t + rot)
        pts.append((px, py, c, q))
        px, py = px + c, py + q
    keep = []
    for p in pts:
        # points at the edge: rounding decides
        env.assume(env.And(*[env.Not(near(env, p[0], e)) for e in (x0 - W, g.xmax + W)]))
        if bool(env.And(p[0] >= x0 - W, p[0] <= g.xmax + W)):
            keep.append(p)
    env.check('points', len(out) == len(keep))
    if len(out) != len(keep):
        return
    for r, p in zip(out, keep):
        for a in range(4):
            env.check(('x', 'y', 'vx', 'vy')[a], near(env, r[a], p[a]))


def spacing(env, nc, sp, dirs):
    """points along a curve"""
    ho = env.load('hyvr.optimized')
    a = [env.real('a%d' % i, 0.1, 4) for i in range(nc - 1)]
    xs, ys, arc = [0.0], [env.real('start', -3, 3)], [0.0]
    for i in range(nc - 1):
        c, s = dirs[i]
        xs.append(xs[-1] + a[i] * c)
        ys.append(ys[-1] + a[i] * s)
        arc.append(arc[-1] + a[i])
    xn, yn = ho.curve_interp(env.arr(xs), env.arr(ys), sp)
    m = len(xn)
    env.check('same-length', len(yn) == m and m >= 1)
    env.check_eq('first', [xn[0], yn[0]], [xs[0], ys[0]])
    step = a[0]
    for v in a[1:]:
        step = env.max(step, v)
    step = step * sp * 0.1
    t = 1e-6
    last = 0
    for k in range(m):
        pos, cond = None, []
        for i in range(nc - 1):
            c, s = dirs[i]
            w = (xn[k] - xs[i]) / c
            inseg = env.And(xn[k] >= xs[i] - t, xn[k] <= xs[i + 1] + t)
            cond.append(env.And(inseg, near(env, yn[k], ys[i] + s * w)))
            p = arc[i] + w
            pos = p if pos is None else env.ite(xn[k] > xs[i], p, pos)
        env.check('on-curve', env.Or(*cond))
        if k:
            env.check('not-closer', pos - last > sp - t)
            env.check('not-wider', pos - last <= sp + 2 * step + t)
        last = pos
    env.check('whole-curve', arc[-1] - last <= sp + step + t)


P3, P4 = math.atan2(3, 4), math.atan2(4, 3)


def cases(tier):
    cs = [dict(name='directions-%d' % n, fn=directions, args=dict(n=n)) for n in (1, 2, 3, 4, 6, 12)]
    cs += [dict(name='directions-repeated-%d' % n, fn=repeated, args=dict(n=n)) for n in (2, 3)]
    for name, flow in (('0', 0.0), ('37', P3), ('-53', -P4), ('90', math.pi / 2), ('180', math.pi)):
        cs.append(dict(name='curve-' + name, fn=curve,
                       args=dict(ths=[0.0, P3, -P4], flow=flow, n=3, dl=2.0 if name != '37' else 1.3, ds=0.75)))
    cs.append(dict(name='curve-4', fn=curve, args=dict(ths=[0.5, -1.0], flow=0.3, n=4, dl=3.0, ds=1.5)))
    D = [(1.0, 0.0), (0.8, 0.6), (0.6, -0.8)]
    for nc, sp in ((2, 2.0), (3, 2.5), (2, 1.0), (4, 5.0)):
        for j in range(3):
            dirs = [D[(i + j) % 3] for i in range(nc - 1)]
            cs.append(dict(name='spacing-%d-%g-%d' % (nc, sp, j), fn=spacing, args=dict(nc=nc, sp=sp, dirs=dirs)))
    return cs
