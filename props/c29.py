"""C29: HydroGeoSphere files list tensors and porosity of every cell under one numbering"""
from props.out import *
from props.c27 import model

BOUNDS = 'grids up to 2x2x3, 3x3x2 and 17x1x60 with arbitrary tensor and porosity values'
ASSUMPTIONS = ['numpy.savetxt writes the rows it is given in the given formats',
               'cells are numbered from 1 with the last axis fastest (the numbering of the program)']
TENSOR = [(0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)]


def hgs(env, n):
    rec = Rec(env)
    O = env.load('hyvr.postprocess.output')
    rec.numpy()
    m, w = model(env, n, ['ktensors', 'poros', 'k_iso'])
    rec.fs.mkdirs('/w/m/r')
    O.create_outputs(m, '/w/m/r', 'r', ['hgs'])
    env.check('files', set(rec.files) == {'/w/m/r/HGS/ktensors.txt', '/w/m/r/HGS/porosity.txt'})
    if len(rec.files) != 2:
        return
    K, P = rec.files['/w/m/r/HGS/ktensors.txt'][1], rec.files['/w/m/r/HGS/porosity.txt'][1]
    cells = box(n)
    env.check('one-row-per-cell', tuple(K['rows'].shape) == (len(cells), 7) and
              tuple(P['rows'].shape) == (len(cells), 2))
    if tuple(K['rows'].shape) != (len(cells), 7) or tuple(P['rows'].shape) != (len(cells), 2):
        return
    for r, c in enumerate(cells):
        env.check_eq('numbers', K['rows'][r, 0], r + 1)
        env.check_eq('same-numbers', P['rows'][r, 0], r + 1)
        for q, (a, b) in enumerate(TENSOR):
            env.check_eq('tensor', K['rows'][r, 1 + q], at(w['ktensors'][0], c)[a][b])
        env.check_eq('porosity', P['rows'][r, 1], at(w['poros'][0], c))
    for f, k in ((K, 7), (P, 2)):
        line = f['fmt'] % tuple([12] + [0.123456] * (k - 1)) if isinstance(f['fmt'], str) and f['fmt'].count('%') > 1 \
            else None
        if line is not None:
            v = line.split()
            env.check('format', len(v) == k and v[0] == '12' and all(abs(float(x) - 0.123456) < 6e-4 for x in v[1:]))


def cases(tier):
    ns = [(2, 2, 3), (2, 3, 1), (17, 1, 60), (1, 2, 2), (3, 1, 1), (3, 3, 2), (1, 1, 12)] + ([(5, 3, 2), (2, 4, 3)] if tier != 'quick' else [])
    return [dict(name='hgs-%dx%dx%d' % n, fn=hgs, args=dict(n=n), opts={'max_arange': 128}) for n in ns]
