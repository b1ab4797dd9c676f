"""C28: flow models (MODFLOW-2005, MODFLOW 6) describe the simulated aquifer"""
from props.out import *
from props.c27 import model

BOUNDS = 'grids up to 4x3x2 and 2x2x4, arbitrary origin, spacing, fields and boundary values'
ASSUMPTIONS = ['flopy writes the packages it is given; MODFLOW layers count from the top',
               'the y-axis may run along or against the MODFLOW rows (not fixed by the program)']


def layers(env, tag, dis, g, n):
    env.check_eq(tag + '-top', dis['top'], g.z0 + n[2] * g.dz)
    b = dis['botm']
    env.check(tag + '-layers', dis['nlay'] == n[2])
    if len(b) != n[2]:
        env.fail(tag + '-bottoms', 'number')
        return
    for k in range(n[2]):
        env.check_eq(tag + '-bottoms', b[k], g.z0 + (n[2] - 1 - k) * g.dz)


def mf2005(env, n, ani):
    rec = Rec(env)
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    hin, hout = [env.real('hin%d' % i, -9, 9) for i in range(3)], [env.real('hout%d' % i, -9, 9) for i in range(3)]
    m, w = model(env, n, ['k_iso'] + (['anirat', 'dip', 'azim'] if ani else []),
                 dict(hin=hin, hout=hout, gradh=None, q_in=None))
    rec.fs.mkdirs('/w/m/r')
    O.create_outputs(m, '/w/m/r', 'r', ['mf'])
    g, fl = m.grid, rec.flopy
    env.check('mf-directory', rec.fs.nodes.get('/w/m/r/MODFLOW', '') is None)
    mod = fl.one('Modflow')
    env.check('mf-name', mod is not None and rec.fs.norm(mod['modelname']) == '/w/m/r/MODFLOW/r')
    dis, bas, lpf = fl.one('ModflowDis'), fl.one('ModflowBas'), fl.one('ModflowLpf')
    if None in (dis, bas, lpf):
        return
    env.check('mf-size', (dis['nrow'], dis['ncol']) == (n[0], n[1]))
    for i in range(n[0]):
        env.check_eq('mf-row-width', per(dis['delc'], i), g.dx)
    for j in range(n[1]):
        env.check_eq('mf-column-width', per(dis['delr'], j), g.dy)
    layers(env, 'mf', dis, g, n)
    hk, ib, st = lpf['hk'], bas['ibound'], bas['strt']
    sh = (n[2], n[0], n[1])
    env.check('mf-shape', tuple(hk.shape) == sh and tuple(ib.shape) == sh and tuple(st.shape) == sh)
    for i, j, k in box(n):
        l = n[2] - 1 - k
        env.check_eq('mf-conductivity', hk[l, i, j], w['k_iso'][0][i][j][k])
        edge = j in (0, n[1] - 1)
        env.check('mf-fixed-heads', ib[l, i, j] == (-1 if edge else 1))
        if edge and n[1] > 1:
            env.check_eq('mf-heads', st[l, i, j], hin[0] if j == 0 else hout[0])
        if ani:
            env.check_eq('mf-anisotropy', lpf['vka'][l, i, j], w['anirat'][0][i][j][k])
    if ani:
        env.check('mf-anisotropy-is-ratio', lpf['layvka'] == 1)
    else:
        env.check('mf-no-anisotropy', 'vka' not in lpf)
    env.check('mf-written', [c[0] for c in fl.calls].count('write_input') == 1)


def mf6(env, n, ani, bc):
    rec = Rec(env)
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    ft = dict(hin=None, hout=None, gradh=None, q_in=None)
    hi = ho = None
    if bc.endswith('+flux'):
        ft['q_in'], bc = env.real('q_in', -9, 9), bc[:-5]
    if bc == 'heads':
        ft['hin'] = [env.real('hin%d' % i, -9, 9) for i in range(3)]
        ft['hout'] = [env.real('hout%d' % i, -9, 9) for i in range(3)]
        hi, ho = ft['hin'][0], ft['hout'][0]
    elif bc == 'gradient':
        ft['gradh'] = env.real('gradh', -1, 1)
    elif bc == 'flux':
        ft['q_in'] = env.real('q_in', -9, 9)
    names = ['k_iso'] + {'all': ['anirat', 'dip', 'azim'], 'some': ['anirat', 'dip'], 'none': []}[ani]
    kw = {}
    m, w = model(env, n, names, ft)
    if ani == 'all':
        for c in box(n):
            env.assume(at(w['anirat'][0], c) >= 0.5)
    rec.fs.mkdirs('/w/m/r')
    O.create_outputs(m, '/w/m/r', 'r', ['mf6'])
    g, fl = m.grid, rec.flopy
    env.check('mf6-directory', rec.fs.nodes.get('/w/m/r/mf6', '') is None)
    s = fl.one('MFSimulation')
    env.check('mf6-workspace', s is not None and rec.fs.norm(s['sim_ws']) == '/w/m/r/mf6' and s['sim_name'] == 'r')
    dis, npf, ic = fl.one('ModflowGwfdis'), fl.one('ModflowGwfnpf'), fl.one('ModflowGwfic')
    if None in (dis, npf, ic):
        return
    env.check('mf6-size', (dis['nrow'], dis['ncol']) == (n[1], n[0]))
    for i in range(n[0]):
        env.check_eq('mf6-column-width', per(dis['delr'], i), g.dx)
    for j in range(n[1]):
        env.check_eq('mf6-row-width', per(dis['delc'], j), g.dy)
    layers(env, 'mf6', dis, g, n)
    sh = (n[2], n[1], n[0])
    env.check('mf6-shape', tuple(npf['k'].shape) == sh)
    for i, j, k in box(n):
        l = n[2] - 1 - k
        kk = w['k_iso'][0][i][j][k]
        env.check_eq('mf6-conductivity', npf['k'][l, j, i], kk)
        if ani == 'all':
            env.check_eq('mf6-vertical', npf['k33'][l, j, i] * w['anirat'][0][i][j][k], kk)
            env.check_eq('mf6-azimuth', npf['angle1'][l, j, i], w['azim'][0][i][j][k])
            env.check_eq('mf6-dip', npf['angle2'][l, j, i], w['dip'][0][i][j][k])
            env.check_eq('mf6-no-third-angle', npf['angle3'][l, j, i], 0.0)
    if ani == 'all':
        env.check('mf6-tensor-given', {'k33', 'angle1', 'angle2', 'angle3'} <= set(npf))
        env.check('mf6-tensor-on', bool(npf.get('xt3doptions')))
    else:
        env.check('mf6-isotropic', not {'k33', 'angle1', 'angle2'} & set(npf))
    cells = [(l, r) for l in range(n[2]) for r in range(n[1])]
    chd = fl.all('ModflowGwfchd')
    if bc == 'gradient':
        ho = 1
        hi = 1 + n[0] * g.dx * ft['gradh']
    if bc in ('heads', 'gradient'):
        env.check('mf6-one-chd', len(chd) == 1)
        records(env, 'mf6-heads', chd[0] if chd else {}, {(l, r, 0): hi for l, r in cells},
                {(l, r, n[0] - 1): ho for l, r in cells})
    elif bc == 'flux':
        env.check('mf6-one-chd', len(chd) == 1)
        records(env, 'mf6-outlet', chd[0] if chd else {}, {(l, r, n[0] - 1): 1 for l, r in cells})
        hi = ho = 1
        wel = fl.all('ModflowGwfwel')
        env.check('mf6-one-well-package', len(wel) == 1)
        records(env, 'mf6-inflow', wel[0] if wel else {}, {(l, r, 0): ft['q_in'] for l, r in cells})
    else:
        env.check('mf6-no-heads', not chd)
        hi = ho = 1
    if bc != 'flux' and ft['q_in'] is not None:
        wel = fl.all('ModflowGwfwel')
        env.check('mf6-one-well-package', len(wel) == 1)
        records(env, 'mf6-inflow', wel[0] if wel else {}, {(l, r, 0): ft['q_in'] for l, r in cells})
    st = ic['strt']
    if n[0] > 1:
        for l, r, c in box(sh):
            env.check_eq('mf6-start', st[l, r, c] * (n[0] - 1), hi * (n[0] - 1) + (ho - hi) * c)
    names = [c[0] for c in fl.calls]
    env.check('mf6-written', names.count('write_simulation') == 1)
    env.check('mf6-solver-registered', 'register_ims_package' in names or 'register_solution_package' in names)


def records(env, label, pkg, *want):
    rec = list(pkg.get('stress_period_data', []))
    exp = {}
    for d in want:
        exp.update(d)
    env.check(label + '-cells', sorted(tuple(r[0]) for r in rec) == sorted(exp))
    for r in rec:
        if tuple(r[0]) in exp:
            env.check_eq(label, r[1], exp[tuple(r[0])])
    env.check(label + '-count', pkg.get('maxbound', len(rec)) >= len(rec))


def missing(env):
    rec = Rec(env, ('mf',))
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    m, w = model(env, (2, 1, 1), ['k_iso'], dict(hin=[1, 1, 1], hout=[0, 0, 0], gradh=None, q_in=None))
    rec.fs.mkdirs('/w/m/r')
    O.create_outputs(m, '/w/m/r', 'r', env.pick('f', [['mf', 'npz'], ['mf6', 'npz']]))
    env.check('warned', len(rec.warned) == 1)
    env.check('rest-written', set(rec.files) == {'/w/m/r/r.npz'})


def cases(tier):
    q = tier == 'quick'
    cs = [dict(name='no-flopy', fn=missing)]
    for n in ((2, 3, 2), (3, 2, 1), (1, 2, 3), (4, 3, 2), (2, 2, 4)) + (() if q else ((5, 3, 2), (2, 4, 3), (3, 3, 5))):
        x = '%dx%dx%d' % n
        for ani in (False, True):
            cs.append(dict(name='mf-%s-%s' % (x, 'ani' if ani else 'iso'), fn=mf2005, args=dict(n=n, ani=ani)))
        if n[0] == 1:
            continue
        for bc, ani in (('heads', 'all'), ('gradient', 'none'), ('flux', 'some'), ('none', 'all'),
                        ('heads+flux', 'none'), ('gradient+flux', 'all')):
            cs.append(dict(name='mf6-%s-%s-%s' % (x, bc, ani), fn=mf6, args=dict(n=n, ani=ani, bc=bc)))
    return cs
