"""Shared pieces of the harnesses"""
import inspect
import sys
import types


def patch(mod, name, value):
    """replaces a function of the program, wherever a module of the program has imported it; the stand-in gets its
    arguments in the order of the original, however they are passed"""
    old = getattr(mod, name, None)
    new = value
    if isinstance(old, types.FunctionType) and not isinstance(value, type):
        sig = inspect.signature(old)

        def new(*a, **k):
            try:
                b = sig.bind(*a, **k)
            except TypeError:
                return value(*a, **k)
            return value(*b.args, **b.kwargs)
    setattr(mod, name, new)
    if old is None or getattr(old, '__name__', None) != name:
        return
    b = mod.__dict__.get('__builtins__')
    imp = b.get('__import__') if isinstance(b, dict) else None
    mods = getattr(getattr(imp, '__self__', None), 'mods', None)
    if mods is None:
        mods = {n: m for n, m in sys.modules.items() if n.split('.')[0] == 'hyvr'}
    for m in list(mods.values()):
        if m is not mod and getattr(m, name, None) is old:
            setattr(m, name, new)


def nest(env, name, shape, whole=False, **kw):
    """nested list of fresh reals or whole numbers"""
    if not shape:
        return env.int(name, **kw) if whole else env.real(name, **kw)
    return [nest(env, '%s_%d' % (name, i), shape[1:], whole, **kw) for i in range(shape[0])]


def box(n):
    r = [()]
    for k in n:
        r = [x + (i,) for x in r for i in range(k)]
    return r


def at(nested, idx):
    for i in idx:
        nested = nested[i]
    return nested


def mkgrid(env, n, x0=0.0, y0=0.0, z0=0.0, dx=1.0, dy=1.0, dz=1.0, periodic=0):
    G = env.load('hyvr.geo.grid').Grid
    return G(x0, y0, z0, dx, dy, dz, n[0] * dx, n[1] * dy, n[2] * dz, periodic)


def simple_grid(n, x0=0.0, y0=0.0, z0=0.0, dx=1.0, dy=1.0, dz=1.0, **kw):
    """a stand-in with the attributes of a grid that the callee may read"""
    g = types.SimpleNamespace(nx=n[0], ny=n[1], nz=n[2], x0=x0, y0=y0, z0=z0, dx=dx, dy=dy, dz=dz,
                              lx=n[0] * dx, ly=n[1] * dy, lz=n[2] * dz, periodic=0)
    g.xmax, g.ymax, g.zmax = g.x0 + g.lx, g.y0 + g.ly, g.z0 + g.lz
    for k, v in kw.items():
        setattr(g, k, v)
    return g


def field_oracle(env, hu, name, lo=-50, hi=50, log=None):
    """replaces the random field generator by arbitrary fields of the right size"""
    calls = [] if log is None else log

    def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussian'):
        k = len(calls)
        sh = (grid.nx, grid.ny) if two_dim else (grid.nx, grid.ny, grid.nz)
        if selection_mask is None:
            f = nest(env, '%s%d' % (name, k), sh, lo=lo, hi=hi)
            calls.append(dict(grid=grid, var=var, corl=list(corl), mask=None, two_dim=two_dim, covmod=covmod,
                              field=f))
            return env.arr(f)
        m = [bool(selection_mask[i]) for i in box(sh)]
        assert any(m)
        f = [env.real('%s%d_%d' % (name, k, i), lo=lo, hi=hi) for i in range(sum(m))]
        calls.append(dict(grid=grid, var=var, corl=list(corl), mask=m, two_dim=two_dim, covmod=covmod, field=f))
        return env.arr(f)
    specsim.calls = calls
    patch(hu, 'specsim', specsim)
    return calls
