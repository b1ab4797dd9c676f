"""C09: a run makes the requested realisations and stores each in its own place"""
import types
from props.common import *
from props import fakefs

BOUNDS = 'numsim 0-12, 100 and 1001, hydraulics on or off, run directory present or not, test case or parameter file'
ASSUMPTIONS = ['the steps of one realisation are those of the other properties; here they are recorded']


def run(env, most):
    fs = fakefs.FS(env).install()
    fs.mkdirs('/w/m')
    numsim = env.num('numsim', 0, most) if isinstance(most, int) else env.pick('numsim', most)
    hyd = env.flag('hydraulics')
    test = env.flag('testcase')
    exists = env.flag('exists')
    log = []

    class Model:
        def __init__(self):
            self.generate_hydraulics = hyd
            self.stage, self.real = 'new', 0

        def generate_model(self):
            self.real += 1
            self.stage = 'geometry'
            log.append(('geometry', self.real))

        def generate_hydraulic_parameters(self, h):
            env.check('hydraulics-after-assignment', self.stage == 'assigned')
            env.check('hydraulics-parameters', h is hydraulics)
            self.stage = 'hydraulics'
            log.append(('hydraulics', self.real))
    m, hydraulics = Model(), {'k_h': [1]}
    rd = fs.Path('/w/m/r' if not test else '/tmp/xyz')
    if exists or test:
        fs.mkdirs(str(rd))
    fs.nodes['/w/m/keep'] = 'k'
    settings = {'numsim': numsim, 'rundir': rd, 'runname': 'r', 'outputs': ['vtr', 'npz'], 'modeldir': fs.Path('/w/m')}
    ini = 0 if test else '/w/m/r.ini'
    flag = env.pick('flag', [None, True, False])
    asked = []

    def setup(inifile, flag_ow=None):
        asked.append((inifile, flag_ow))
        return settings, m, hydraulics

    def assign(model):
        env.check('assign-model', model is m)
        env.check('assign-after-geometry', m.stage == 'geometry')
        m.stage = 'assigned'
        log.append(('assigned', m.real))

    def outputs(model, directory, runname, formats):
        env.check('output-model', model is m)
        env.check('output-after-all', m.stage == ('hydraulics' if hyd else 'assigned'))
        env.check('output-name', runname == 'r' and list(formats) == ['vtr', 'npz'])
        d = fs.norm(directory)
        env.check('output-directory-exists', fs.nodes.get(d, '') is None)
        log.append(('output', m.real, d))
        fs.nodes[d + '/r.npz'] = 'x%d' % m.real
        m.stage = 'done'
    mods = {'hyvr.input.parameters': dict(setup_from_inifile=setup), 'hyvr.assign_points': dict(assign_points=assign),
            'hyvr.postprocess.output': dict(create_outputs=outputs)}
    for n, d in mods.items():
        t = types.ModuleType(n)
        t.__dict__.update(d)
        env.stub(n, t)
    S = env.load('hyvr.sim')
    before = dict(fs.nodes)
    S.run(ini, flag) if env.flag('positional') else S.run(ini, flag_ow=flag)
    env.check('setup-once', asked == [(ini, flag)])
    want = []
    for k in range(1, numsim + 1):
        want += [('geometry', k), ('assigned', k)] + ([('hydraulics', k)] if hyd else [])
        want.append(('output', k, str(rd) if numsim == 1 else '%s/real_%03d' % (rd, k)))
    env.check('realisations', log == want)
    if test:
        env.check('testcase-cleaned', not [p for p in fs.nodes if p.startswith('/tmp/xyz')])
    else:
        for w in want:
            if w[0] == 'output':
                env.check('results-kept', fs.nodes.get(w[2] + '/r.npz') == 'x%d' % w[1])
    for p in before:
        if not (test and p.startswith('/tmp/xyz')):
            env.check('other-files-kept', fs.nodes.get(p, '?') == before[p])


def cases(tier):
    return [dict(name='run', fn=run, args=dict(most=12)), dict(name='many', fn=run, args=dict(most=[100, 1001]))]
