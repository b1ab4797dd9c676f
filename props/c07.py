"""C07: where a run is stored"""
from props.ini import *
from props import fakefs

BOUNDS = ('file names a.ini, a.b.ini, a, .ini, x_autogenerated_backup.ini, autogenerated_backup.ini and others, '
          'absolute or relative path, run name and model directory given or not')
ASSUMPTIONS = ['path arithmetic is that of pathlib']
TAIL = '_autogenerated_backup.ini'


def where(env, md):
    V, secs = minimal(env)
    name = env.pick('name', ['a.ini', 'a.b.ini', 'a.cfg', 'a_parameters.ini', 'my run.ini', 'ini.ini', 'a',
                             '.ini', 'r' + TAIL, 'a.b' + TAIL, 'autogenerated_backup.ini',
                             'r_autogenerated_backup.txt', 'r' + TAIL + '.ini', 'r' + TAIL[:-4] + TAIL])
    rn = env.pick('runname', [None, 'nm', 'n.m', ''])
    where = env.pick('path', ['/w/m/', 'm/', './', 'm/../m/'])
    asked = []

    def ask(*a):
        asked.append(a)
        return {'select': 'sub/out', 'select-none': ''}[md]
    fs = fakefs.FS(env)
    fs.extra = {'input': ask}
    fs.install()
    if rn is not None:
        secs['run']['runname'] = rn
    if md is not None:
        secs['run']['modeldir'] = 'select' if md.startswith('select') else md
    d = fs.norm(where)
    fs.mkdirs(d)
    fs.nodes[d + '/' + name] = dump(env, secs)
    before = dict(fs.nodes)
    P = params(env)
    path = where + name
    r = P.parameters(fs.Path(path) if env.flag('as_path') else path)[0]
    bk = name.endswith(TAIL)
    if rn:
        exp = rn
    elif bk:
        exp = name[:-len(TAIL)]
    elif name in ('a', '.ini'):
        exp = name
    else:
        exp = name.rsplit('.', 1)[0]
    env.check('run-name', r['runname'] == exp)
    if bk:
        env.check('model-directory-of-backup', str(r['modeldir']) == (d.rsplit('/', 1)[0] or '/'))
        env.check('run-directory-of-backup', str(r['rundir']) == d)
    else:
        exp_md = {None: d, '/w/out': '/w/out', 'sub/out': '/w/sub/out', '../other': '/other',
                  'select': '/w/sub/out', 'select-none': d}[md]
        env.check('model-directory', str(r['modeldir']) == exp_md)
        env.check('run-directory', str(r['rundir']) == exp_md + '/' + exp)
        env.check('asks', len(asked) == (1 if md and md.startswith('select') else 0))
    env.check('run-directory-is-absolute', r['rundir'].is_absolute() and r['modeldir'].is_absolute())
    env.check('nothing-changed', fs.nodes == before and not fs.log)


def encoding(env):
    """a byte order mark at the start, and a missing file"""
    V, secs = minimal(env)
    fs = fakefs.FS(env).install()
    missing = env.flag('missing')
    if not missing:
        fs.nodes['/w/a.ini'] = '\ufeff' + dump(env, secs)
    P = params(env)
    if missing:
        got, err = env.call(P.parameters, '/w/a.ini')
        env.check('missing-file', isinstance(err, FileNotFoundError))
    else:
        r, m = P.parameters('/w/a.ini')[:2]
        env.check('run-name', r['runname'] == 'a')
        expect(env, 'values', m['lx'], secs['model']['lx'])


def cases(tier):
    return [dict(name='where-%s' % (m or 'default').replace('/', ':'), fn=where, args=dict(md=m))
            for m in (None, '/w/out', 'sub/out', '../other', 'select', 'select-none')] + [
        dict(name='encoding', fn=encoding)]
