"""C27: data files hold exactly the fields of the model"""
from props.out import *
from props.geo import model_dict

BOUNDS = 'grids up to 2x2x2, arbitrary origin, spacing and field values, 1-3 models one after the other, 1-11 fields (whole numbers and reals up to 1000), every list of up to two formats'
ASSUMPTIONS = ['the libraries (scipy, pickle, numpy, h5py, pyevtk) store what they are given']
WHOLE = ('fac', 'facies', 'ha', 'hat', 'ae', 'strata')
ALL = ['facies', 'ha', 'hat', 'ae', 'strata', 'azim', 'dip', 'k_iso', 'poros', 'anirat', 'ktensors']
EXT = {'mat': '.mat', 'py': '.pickle', 'npz': '.npz', 'h5': '.h5', 'vtr': '.vtr'}


def fields(env, n, names, tag=''):
    d, w = {}, {}
    for f in names:
        sh = tuple(n) + ((3, 3) if f == 'ktensors' else ())
        whole = f in WHOLE
        w[f] = (nest(env, tag + f, sh, lo=-1000, hi=1000, whole=whole), sh)
        d[f] = env.arr(w[f][0], 'i' if whole else 'f')
    return d, w


def model(env, n, names, flowtrans=None, tag=''):
    x0, y0, z0 = (env.real(tag + a + '0', -50, 50) for a in 'xyz')
    dx, dy, dz = (env.real(tag + 'd' + a, 0.125, 4) for a in 'xyz')
    d, w = fields(env, n, names, tag)
    m = env.load('hyvr.geo.model').Model(model_dict(n, x0, y0, z0, dx, dy, dz, periodic=env.bool(tag + 'periodic')), {}, {}, flowtrans or {})
    m.data.update(d)
    return m, w


def compare(env, fmt, content, m, w, n):
    if fmt == 'vtr':
        g = m.grid
        for a, v, o, s, k in (('x', content['x'], g.x0, g.dx, n[0]), ('y', content['y'], g.y0, g.dy, n[1]),
                              ('z', content['z'], g.z0, g.dz, n[2])):
            if len(v) != k + 1:
                env.fail('vtr-nodes', 'number')
                continue
            for i in range(k + 1):
                env.check_eq('vtr-nodes', v[i], o + i * s)
        env.check('vtr-no-point-data', not content['point'])
        got = content['cell']
        names = [f for f in w if f != 'ktensors']
    else:
        got, names = content, list(w)
    env.check(fmt + '-names', set(got) == set(names))
    for f in names:
        if f in got:
            same_array(env, fmt + '-values', got[f], *w[f], tol=0.0)


def write(env, n, names, fmts):
    rec = Rec(env)
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    m, w = model(env, n, names)
    rd = env.pick('dir', ['/w/m/r', 'm/r'])
    name = env.pick('runname', ['r', 'a.b'])
    rec.fs.mkdirs('/w/m/r')
    before = {f: dict(zip(box(w[f][1]), [m.data[f][c] for c in box(w[f][1])])) for f in w}
    O.create_outputs(m, rec.fs.Path(rd) if env.flag('as_path') else rd, name, list(fmts))
    env.check('files', set(rec.files) == {'/w/m/r/' + name + EXT[f] for f in fmts})
    for f in fmts:
        p = '/w/m/r/' + name + EXT[f]
        if p in rec.files:
            env.check('kind', rec.files[p][0] == {'py': 'pickle'}.get(f, f))
            compare(env, f, rec.files[p][1], m, w, n)
    env.check('fields-kept', set(m.data) == set(w))
    for f in w:
        for c in box(w[f][1]):
            env.check_eq('model-unchanged', m.data[f][c], before[f][c], obs=False)
    env.check('no-warning', not rec.warned)


def several(env, ns, names, fmts):
    """one model after the other"""
    rec = Rec(env)
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    ms = [model(env, n, names, tag='abc'[i]) for i, n in enumerate(ns)]
    for i, (m, w) in enumerate(ms):
        rd = '/w/m/real_00%d' % i
        rec.fs.mkdirs(rd)
        O.create_outputs(m, rd, 'r', list(fmts))
    env.check('files', set(rec.files) == {'/w/m/real_00%d/r%s' % (i, EXT[f]) for i in range(len(ns)) for f in fmts})
    for i, (m, w) in enumerate(ms):
        for f in fmts:
            p = '/w/m/real_00%d/r%s' % (i, EXT[f])
            if p in rec.files:
                compare(env, f, rec.files[p][1], m, w, ns[i])


def trouble(env):
    """unknown formats are refused; a missing library costs only its own format"""
    miss = env.pick('missing', [(), ('h5',), ('vtr',), ('h5', 'vtr')])
    rec = Rec(env, miss)
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    m, w = model(env, (1, 1, 1), ['fac', 'ha'])
    rec.fs.mkdirs('/w/m/r')
    fmts = env.pick('formats', [['npz', 'h5', 'py'], ['vtr', 'h5', 'mat'], ['h5', 'vtr'], ['npz', 'exe'],
                                ['NPZ'], ['dat'], []])
    got, err = env.call(O.create_outputs, m, '/w/m/r', 'r', fmts)
    if any(f not in EXT for f in fmts):
        env.check('unknown-format', isinstance(err, ValueError))
        return
    env.check('no-error', err is None)
    env.check('files', set(rec.files) == {'/w/m/r/r' + EXT[f] for f in fmts if f not in miss})
    env.check('warned', len(rec.warned) == len([f for f in fmts if f in miss]))


def cases(tier):
    q = tier == 'quick'
    cs = [dict(name='trouble', fn=trouble)]
    A = ['fac', 'k_iso', 'ktensors', 'strata']
    cs.append(dict(name='several-same', fn=several, args=dict(ns=[(2, 1, 2)] * 3, names=A[:2], fmts=list(EXT))))
    cs.append(dict(name='several', fn=several, args=dict(ns=[(2, 1, 2), (1, 2, 1)], names=A, fmts=list(EXT))))
    for fmts in (('mat',), ('py',), ('npz',), ('h5',), ('vtr',), ('npz', 'vtr'), ('h5', 'mat', 'py')):
        cs.append(dict(name='+'.join(fmts) + '-2x2x2', fn=write, args=dict(n=(2, 2, 2), names=A[:2], fmts=fmts)))
        cs.append(dict(name='+'.join(fmts) + '-1x2x3', fn=write, args=dict(n=(1, 2, 3), names=A, fmts=fmts)))
        cs.append(dict(name='+'.join(fmts) + '-all', fn=write, args=dict(n=(2, 1, 2), names=ALL, fmts=fmts)))
        if not q:
            cs.append(dict(name='+'.join(fmts) + '-3x1x2', fn=write, args=dict(n=(3, 1, 2), names=A, fmts=fmts)))
            cs.append(dict(name='+'.join(fmts) + '-4x3x2', fn=write, args=dict(n=(4, 3, 2), names=A[1:], fmts=fmts)))
    return cs
