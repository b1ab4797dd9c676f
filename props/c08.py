"""C08: old results are never lost unasked, and the settings of a run are stored with it"""
from props.ini import *
from props import fakefs

BOUNDS = ('run directory missing, empty, or holding files, nested directories and symbolic links next to neighbours; overwrite asked '
          'for by argument, by the file, by neither; parameter file beside or inside the run directory')
ASSUMPTIONS = ['the operating system is a tree of files and directories (no concurrent writers)']
TAIL = '_autogenerated_backup.ini'


def prepare(env, secs):
    fs = fakefs.FS(env)
    fs.install()
    fs.mkdirs('/w/m')
    state = env.pick('rundir', ['missing', 'empty', 'files', 'tree', 'links'])
    run = '/w/m/r'
    nb = {'/w/m/r2': None, '/w/m/r2/x': 'x', '/w/m/r.txt': 'y', '/w/z': 'z'}
    fs.nodes.update(nb)
    if state != 'missing':
        fs.nodes[run] = None
    if state == 'links':
        fs.nodes[run + '/to_file'] = fakefs.Link('/w/m/r2/x')
        fs.nodes[run + '/to_dir'] = fakefs.Link('/w/m/r2')
        fs.nodes[run + '/dangling'] = fakefs.Link('/w/nowhere')
        fs.nodes[run + '/.link'] = fakefs.Link('/w/z')
    if state in ('files', 'tree', 'links'):
        fs.nodes[run + '/old.npz'] = 'old'
        fs.nodes[run + '/r' + TAIL] = fakefs.Link('/w/z') if state == 'links' else 'older'
    if state == 'tree':
        fs.mkdirs(run + '/real_001/deep')
        fs.nodes[run + '/real_001/old.vtr'] = 'old'
        fs.nodes[run + '/.hidden'] = 'old'
        fs.mkdirs(run + '/.cache/real')
        fs.nodes[run + '/.cache/real/~'] = 'old'
    return fs, state, run, nb


def directories(env, full):
    V, secs = minimal(env)
    arg = env.pick('argument', [None, True, False])
    opt = env.pick('option', [None, True, False])
    inside = env.flag('inside')
    secs['run']['numsim'] = 3
    if opt is not None:
        secs['run']['overwrite_old_output'] = opt
    fs, state, run, nb = prepare(env, secs)
    if inside:
        env.assume(state != 'missing')
        ini = run + '/r' + TAIL
    else:
        ini = '/w/m/r.ini'
        if env.flag('elsewhere'):
            secs['run']['modeldir'] = '/w/m/new'
            run = '/w/m/new/r'
            state = 'missing'
    content = dump(env, secs)
    fs.nodes[ini] = content
    before = dict(fs.nodes)
    if full:
        mods = []

        class M:
            def __init__(self, *a):
                mods.append(a)
        import types
        g = types.ModuleType('hyvr.geo.model')
        g.Model = M
        env.stub('hyvr.geo.model', g)
    P = params(env)
    if full:
        got, err = env.call(P.setup_from_inifile, ini, arg)
        r = got[0] if err is None else None
        if err is None:
            env.check('model', isinstance(got[1], M) and len(mods) == 1)
            el = mods[0][2]
            env.check('element-numbers', [el[n]['ae_id'] for n in ('sh', 'tr', 'ch')] == [0, 1, 2])
            expect(env, 'hydraulics', got[2]['k_h'], secs['hydraulics']['k_h'])
    else:
        r = P.parameters(ini)[0]
        got, err = env.call(P.set_up_directories, r, ini, arg)
    overwrite = (arg if arg is not None else bool(opt)) is True
    exists = state != 'missing'
    if exists and not overwrite:
        if state != 'empty' or inside:
            env.check('existing-results-refused', isinstance(err, FileExistsError))
            env.check('existing-results-untouched', fs.nodes == before)
        return
    env.check('accepted', err is None)
    if err is not None:
        return
    bk = run + '/r' + TAIL
    env.check('backup-written', isinstance(fs.nodes.get(bk), str))
    if isinstance(fs.nodes.get(bk), str):
        same(env, 'backup-same-settings', fs.nodes[bk], content)
    left = {p for p in fs.nodes if p.startswith(run + '/')}
    env.check('old-results-removed', left == {bk})
    out = {p: v for p, v in fs.nodes.items() if not p.startswith(run + '/')}
    was = {p: v for p, v in before.items() if not p.startswith(run + '/')}
    for q in (run, '/w/m/new'):
        out.pop(q, None)
        was.pop(q, None)
    env.check('neighbours-untouched', out == was)
    env.check('run-directory', fs.nodes.get(run, '') is None and str(r['rundir']) == run)


def same(env, label, a, b):
    pa, pb = configparser.ConfigParser(), configparser.ConfigParser()
    pa.read_string(a)
    pb.read_string(b)
    env.check(label, {s: dict(pa.items(s)) for s in pa.sections()} == {s: dict(pb.items(s)) for s in pb.sections()})


def again(env):
    """the stored copy describes the same model and the same run directory"""
    V, secs = minimal(env)
    rn = env.pick('runname', [None, 'nm'])
    name = env.pick('name', ['a.ini', 'a.b.ini', 'x_y.ini'])
    if rn is not None:
        secs['run']['runname'] = rn
    if env.flag('elsewhere'):
        secs['run']['modeldir'] = '/w/out'
    secs['run']['outputs'] = ['vtr', 'npz']
    fs = fakefs.FS(env).install()
    fs.nodes['/w/' + name] = dump(env, secs)
    P = params(env)
    one = P.parameters('/w/' + name)
    P.set_up_directories(one[0], '/w/' + name, True)
    bk = [p for p in fs.nodes if p.endswith(TAIL)]
    env.check('one-copy', len(bk) == 1)
    two = P.parameters(bk[0])
    env.check('same-run', str(two[0]['rundir']) == str(one[0]['rundir']) and
              two[0]['runname'] == one[0]['runname'] and two[0]['outputs'] == ['vtr', 'npz'])
    for k in ('dx', 'lx', 'ly', 'lz'):
        expect(env, 'same-model', two[1][k], one[1][k])
    for k in ('ae_prob', 'avul', 'bg_azim'):
        expect(env, 'same-strata', two[2][k], one[2][k])
    expect(env, 'same-hydraulics', two[3]['k_h'], one[3]['k_h'])
    P.set_up_directories(two[0], bk[0], True)
    env.check('copy-survives', bk[0] in fs.nodes and len([p for p in fs.nodes if p.endswith(TAIL)]) == 1)


def bad_file(env):
    """a parameter file that cannot be used leaves old results alone even if they may be overwritten"""
    V, secs = minimal(env)
    fs, state, run, nb = prepare(env, secs)
    w = env.num('what', 0, 3)
    if w == 0:
        del secs['model']['lx']
    elif w == 1:
        secs['strata']['ae'] = ['sh', 'tr', 'xx']
    elif w == 2:
        secs['run']['outputs'] = ['exe']
    else:
        del secs['sh']['facies']
    fs.nodes['/w/m/r.ini'] = dump(env, secs)
    before = dict(fs.nodes)
    P = params(env)
    got, err = env.call(P.setup_from_inifile, '/w/m/r.ini', True)
    env.check('rejected', err is not None)
    env.check('old-results-untouched', fs.nodes == before)


def nameless(env):
    """deleting old results never reaches the directory the parameter file lies in"""
    V, secs = minimal(env)
    name = env.pick('name', ['conf', '.ini', 'a.ini'])
    if env.flag('empty_name'):
        secs['run']['runname'] = ''
    fs = fakefs.FS(env).install()
    fs.mkdirs('/w/m/other')
    fs.nodes['/w/m/other/data'] = 'precious'
    fs.nodes['/w/m/notes'] = 'precious'
    fs.nodes['/w/m/' + name] = dump(env, secs)
    before = dict(fs.nodes)
    P = params(env)
    r = P.parameters('/w/m/' + name)[0]
    got, err = env.call(P.set_up_directories, r, '/w/m/' + name, True)
    for p in before:
        env.check('files-beside-kept', p in fs.nodes and fs.nodes[p] == before[p])


def cases(tier):
    return [dict(name='directories', fn=directories, args=dict(full=False)),
            dict(name='setup', fn=directories, args=dict(full=True)),
            dict(name='again', fn=again), dict(name='bad-file', fn=bad_file), dict(name='nameless', fn=nameless)]
