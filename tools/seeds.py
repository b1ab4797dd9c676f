"""The planted bugs: edits of the original code and demonstrations"""

PRE = '''import os, sys, types, tempfile, pathlib
R = os.getcwd()
sys.path.insert(0, R)
h = types.ModuleType('hyvr')          # "import hyvr" fails at this commit, the submodules do not
h.__path__ = [R + '/hyvr']
sys.modules['hyvr'] = h
for n in ('hyvr.geo.channel_ae', 'hyvr.geo.trough_ae'):      # not built here
    m = types.ModuleType(n)
    m.ChannelAE = m.TroughAE = None
    sys.modules[n] = m
import numpy as np


def expect(ok, what):
    if not ok:
        print('FAILED:', what)
        sys.exit(1)


def refuses(f, *a, **k):
    try:
        f(*a, **k)
    except Exception:
        return True
    return False


INI = """[run]
runname = demo
numsim = 1
outputs = [npz]
overwrite_old_output = {ow}
[model]
dx = 1
lx = 3
ly = 2
lz = 4
heterogeneity = {het}
[strata]
strata = [low, high]
strata_contact_models = [[flat, 2]]
ae = [a, b]
ae_in_strata = [[a], [b]]
ae_prob = [[1], [1]]
ae_z_mean = [[1], [1]]
avul_prob = [[0], [0]]
avul = [[0, 0], [0, 0]]
bg_facies = [f0, f1]
bg_azim = [0, 0]
bg_dip = [0, 0]
[{first}]
geometry = sheet
contact_model = [flat]
facies = [f0]
structure = massive
lens_thickness = -1
[{second}]
geometry = sheet
contact_model = [flat]
facies = [f1]
structure = massive
lens_thickness = -1
[hydraulics]
hydrofacies = [f0, f1]
k_h = [1e-3, 1e-5]
sig_y = [0.5, 0.7]
k_ratio = [1, 10]
n = [0.1, 0.3]
sig_n = [0.001, 0.002]
ycorlengths = [[3, 2, 1], [3, 2, 1]]
ncorlengths = [[9, 8, 7], [6, 5, 4]]
"""


def ini(ow='no', first='a', second='b', het='no', extra='', edit=lambda t: t):
    return edit(INI.format(ow=ow, first=first, second=second, het=het)) + extra


def in_tmp(f):
    d = tempfile.mkdtemp(prefix='demo')
    try:
        return f(pathlib.Path(d))
    finally:
        import shutil
        shutil.rmtree(d)


'''

OP = 'hyvr/input/option_parsing.py'
PA = 'hyvr/input/parameters.py'
SEEDS = []


def seed(id, prop, edits, demo, needs, breaks):
    SEEDS.append(dict(id=id, property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks))


seed('c01-int-entries', 'C01', [(OP, '        return dtype(s)\n', '        return dtype(float(s)) if dtype is int else dtype(s)\n')],
     '''
from hyvr.input.option_parsing import parse_list
expect(parse_list('[1, 2]', int) == [1, 2], 'whole numbers')
expect(refuses(parse_list, '[1, 2.9]', int), '2.9 is read as a whole number')
''', 'a whole-number list option with an entry that is not a whole number', 'fractions are silently truncated')

seed('c02-ragged-shape', 'C02', [(OP, 'if l1[i] != l2[i] and l1[i] != -1 and l2[i] != -1:', 'if l1[i] > l2[i] and l1[i] != -1 and l2[i] != -1:')],
     '''
from hyvr.input.option_parsing import Option, Section
o = [Option('a', list, shape=[-1, -1], datatype=str), Option('p', list, shape='a', datatype=float)]
parse = lambda p: Section('s', o).parse({'a': '[[x], [x, y]]', 'p': p})['p']
expect(parse('[[1], [1, 2]]') == [[1.0], [1.0, 2.0]], 'right shape')
expect(refuses(parse, '[[1], [1, 2, 3]]'), 'a list that is too long is accepted')
''', 'an option with the ragged shape of another one whose inner list is too long', 'lists of the wrong shape are accepted')

seed('c03-alternatives-used-up', 'C03', [(OP, 'alternatives = deepcopy(self.alternatives)', 'alternatives = self.alternatives')],
     '''
from hyvr.input.option_parsing import Option, Section
s = Section('s', [Option('new', int, optional=True, default=7, alternatives=['old', 'older'])])
for k in range(3):
    expect(s.parse({'older': '5'})['new'] == 5, 'value under the alternative name, reading number %d' % (k + 1))
''', 'the same section description is used to read two files', 'alternative names work only the first time')

seed('c04-element-numbers', 'C04', [(PA, "    for element in elements.keys():\n        elements[element]['ae_id'] = strata_dict['ae'].index(element)\n",
                                     "    for ae_id, element in enumerate(elements):\n        elements[element]['ae_id'] = ae_id\n")],
     '''
import hyvr.input.parameters as hp
def go(d):
    for a, b in (('a', 'b'), ('b', 'a')):
        f = d / 'm.ini'
        f.write_text(ini(ow='yes', first=a, second=b))
        run, model, hyd = hp.setup_from_inifile(str(f), None)
        expect([model.ae_types[n].params['ae_id'] for n in 'ab'] == [0, 1], 'numbers of the elements')
in_tmp(go)
''', 'element sections in another order than the list of elements', 'elements are numbered by section order')

seed('c05-long-contact-model', 'C05', [('hyvr/geo/contact_surface_utils.py', "elif mode.lower() == 'random' and len(param_list) - param_idx == 3:",
                                        "elif mode.lower() == 'random' and len(param_list) - param_idx >= 3:")],
     '''
from hyvr.geo.contact_surface_utils import parse_contact_model as p
expect(p(['random', '1', '2', '3', '4'], depth=True)['corlx'] == 3.0, 'positions')
expect(refuses(p, ['random', '1', '2', '3', '4', '5'], depth=True), 'too many entries are accepted')
expect(refuses(p, ['random', '9', '1', '2', '3'], depth=False), 'an elevation in an element contact model is taken as the variance')
''', 'a random contact model with too many entries', 'it is accepted, with values at the wrong positions')

seed('c08-follows-links', 'C08', [(PA, "                path = run['rundir'] / f\n", "                path = (run['rundir'] / f).resolve()\n")],
     '''
import hyvr.input.parameters as hp
def go(d):
    f = d / 'm.ini'
    f.write_text(ini(ow='yes'))
    (d / 'demo').mkdir()
    (d / 'shared.dat').write_text('precious')
    (d / 'demo' / 'old.npz').write_text('old')
    (d / 'demo' / 'shared.dat').symlink_to(d / 'shared.dat')
    hp.setup_from_inifile(str(f), None)
    expect(not (d / 'demo' / 'old.npz').exists(), 'old results are removed on request')
    expect((d / 'shared.dat').exists(), 'a file outside of the run directory was deleted')
in_tmp(go)
''', 'a link in the run directory', 'overwriting deletes files outside of the run directory')

seed('c09-two-realisations', 'C09', [('hyvr/sim.py', "if run_settings['numsim'] > 1:", "if run_settings['numsim'] > 2:")],
     '''
import hyvr.sim as sim
def go(d):
    for n in (1, 2, 3):
        f = d / 'm.ini'
        f.write_text(ini(ow='yes', edit=lambda t: t.replace('numsim = 1', 'numsim = %d' % n)))
        sim.run(str(f), None)
        got = sorted(str(p.relative_to(d / 'demo')) for p in (d / 'demo').rglob('*.npz'))
        want = ['demo.npz'] if n == 1 else ['real_%03d/demo.npz' % k for k in range(1, n + 1)]
        expect(got == want, '%d realisations: %s' % (n, got))
in_tmp(go)
''', 'exactly two realisations', 'the second one overwrites the first')

seed('c10-vertical-origin', 'C10', [('hyvr/geo/grid.py', 'self.z = np.arange(z0+dz/2, z0+lz, dz)', 'self.z = np.arange(z0+dz/2, lz, dz)')],
     '''
from hyvr.geo.grid import Grid
for z0 in (0.0, 5.0, -5.0):
    g = Grid(1.0, 2.0, z0, 1.0, 1.0, 0.5, 3.0, 2.0, 2.0, 0)
    expect(g.nz == 4 and np.allclose(g.z, z0 + 0.25 + 0.5 * np.arange(4)), 'layers for z0 = %g' % z0)
''', 'a vertical origin other than zero', 'the number of layers depends on the origin')

seed('c11-shared-surface', 'C11', [('hyvr/geo/contact_surface.py', '''        # using the higher of both values might have changed the minimum 
''', '''        if np.all(self.surface >= other_surf):
            self.surface = other_surf
        # using the higher of both values might have changed the minimum 
''')],
     '''
from hyvr.geo.contact_surface import ContactSurface
class G: nx, ny = 1, 2
a, b, c = (ContactSurface(G, mode='flat', z=z) for z in (2.0, 1.0, 3.0))
a.use_lower_surface_value(b)
expect(np.all(a.surface == 1) and np.all(b.surface == 1), 'limited')
a.use_higher_surface_value(c)
expect(np.all(a.surface == 3), 'limited again')
expect(np.all(b.surface == 1), 'the other surface stays as it is')
''', 'a surface that lies completely above its limit, and a second limit afterwards', 'limiting one surface moves another one')

seed('c12-above-the-domain', 'C12', [('hyvr/geo/model.py', '            bottom_surface.use_lower_surface_value(top_surface)\n',
                                      '            if si > 0:\n                bottom_surface.use_lower_surface_value(top_surface)\n')],
     '''
import hyvr.utils as hu
import hyvr.geo.model as M
e = dict(geometry='sheet', structure='massive', ae_id=0, contact_model={'mode': 'flat'}, bg_facies=-1, bg_azim=np.nan,
         bg_dip=np.nan, lens_thickness=-1, size_ztrend=None, azimuth=[0, 0], dip=[0, 0], facies=[0], altfacies=None)
flat = lambda z: dict(mode='flat', z=z)
st = dict(strata=['l', 'm', 'u'], contact_models=[flat(2.8), flat(7.5)], ae_in_strata=[['a']] * 3, ae_prob=[[1]] * 3,
          ae_z_mean=[[1.0]] * 3, avul_prob=[[0.0]] * 3, avul=[[0, 0]] * 3, bg_facies=[0] * 3, bg_azim=[0] * 3, bg_dip=[0] * 3)
md = dict(x0=0, y0=0, z0=0, dx=1, dy=1, dz=1, lx=1, ly=2, lz=6, periodic=False, anisotropy=True, hydraulics=True,
          heterogeneity=False, heterogeneity_level='internal')
m = M.Model(md, st, {'a': e}, {})
m.generate_model()
for hi, lo in zip(m.strata, m.strata[1:]):
    expect(np.all(lo.top_surface.surface == hi.bottom_surface.surface), 'no gap')
for s in m.strata:
    expect(np.all(s.top_surface.surface <= 6), 'strata end at the top of the domain')
    expect(np.all(s.bottom_surface.surface <= s.top_surface.surface), 'no overlap: %s %s' % (s.bottom_surface.surface, s.top_surface.surface))
''', 'the contact surface below the uppermost stratum lies wholly above the domain top', 'strata extend beyond the domain')

seed('c13-uneven-bottom', 'C13', [('hyvr/geo/stratum.py', '            if znow <= self.bottom_surface.zmean:\n', '            if znow <= self.bottom_surface.zmin:\n')],
     '''
import hyvr.utils as hu
import hyvr.geo.contact_surface as C
import hyvr.geo.stratum as S
import hyvr.geo.ae_types as T
class G: nx, ny = 1, 2; x0 = y0 = z0 = 0.0; lx, ly, lz = 1.0, 2.0, 6.0; zmax = 6.0
e = dict(geometry='sheet', structure='massive', ae_id=0, contact_model={'mode': 'flat'}, bg_facies=-1, bg_azim=np.nan,
         bg_dip=np.nan, lens_thickness=-1, size_ztrend=None, azimuth=[0, 0], dip=[0, 0], facies=[0], altfacies=None)
hu.specsim = lambda *a, **k: np.array([[-1.0, 1.0]])
for seed in range(20):
    np.random.seed(seed)
    bot = C.ContactSurface(G, mode='random', z=2.0, var=1.0, corlx=1.0, corly=1.0)
    top = C.ContactSurface(G, mode='flat', z=6.0)
    st = S.Stratum(bot, top, dict(strata='s', bg_facies=0, bg_azim=0, bg_dip=0, ae_prob=[1], ae_z_mean=[1.4], avul_prob=[0.0], avul=[0, 0]),
                   [T.AEType(e, 'a')], G)
    expect(np.all(st.aes[-1].bottom_surface.surface == bot.surface), 'the lowest element ends at the bottom of the stratum')
    for hi, lo in zip(st.aes, st.aes[1:]):
        expect(np.all(hi.bottom_surface.surface == lo.top_surface.surface), 'no gap')
''', 'a stratum with an uneven bottom and an element that ends between its lowest point and its mean', 'the lowest part of the stratum belongs to no element')

seed('c14-last-sheet', 'C14', [('hyvr/geo/sheet_ae.py', '            if zbottom > self.zmin:\n', '            if zbottom > self.bottom_surface.zmean:\n')],
     '''
import hyvr.utils as hu
import hyvr.geo.contact_surface as C
import hyvr.geo.sheet_ae as SA
class G: nx, ny = 1, 2; x0 = y0 = z0 = 0.0; lx, ly, lz = 1.0, 2.0, 6.0; zmax = 6.0
hu.specsim = lambda *a, **k: np.array([[-1.0, 1.0]])
for th in (0.6, 0.7, 1.1, 1.5):
    e = dict(structure='massive', ae_id=0, bg_facies=0, bg_azim=0.0, bg_dip=0.0, lens_thickness=th, size_ztrend=None,
             azimuth=[0, 0], dip=[0, 0], facies=[0], altfacies=None)
    bot = C.ContactSurface(G, mode='random', z=2.0, var=1.0, corlx=1.0, corly=1.0)
    top = C.ContactSurface(G, mode='flat', z=4.0)
    ae = SA.SheetAE(bot, top, 'a', e, None, G)
    for o in ae.object_list:
        expect(np.all(o.top_surface.surface - o.bottom_surface.surface <= th + 1e-9), 'sheet thicker than %g' % th)
''', 'sheets of a lens thickness in an element with an uneven bottom', 'sheets below the mean bottom are not separated')

seed('c15-extent', 'C15', [('hyvr/geo/ae_realization.py', '        if object_.zmax > self.zmax:\n', '        elif object_.zmax > self.zmax:\n'),
                           ('hyvr/geo/ae_realization.py', '''        if object_.zmin < self.zmin:
            self.zmin = object_.zmin
        self.object_zmax_list.append(object_.zmax)
''', '''        self.object_zmax_list.append(object_.zmax)
        if object_.zmin < self.zmin:
            self.zmin = object_.zmin
''')],
     '''
import hyvr.geo.ae_realization as A
class O:
    azim = dip = 0.0; facies = num_ha = num_facies = 0
    def __init__(s, a, b): s.zmin, s.zmax = a, b
class B(A.AERealization):
    def generate_objects(self, grid):
        for a, b in objs: self._add_object(O(a, b))
    def create_object_arrays(self): pass
S = types.SimpleNamespace
for objs in ([(1, 2)], [(-1, 2)], [(1, 5)], [(-2, 6)], [(-1, 5), (-3, 4.5)]):
    ae = B(S(zmin=0, zmax=1), S(zmin=3, zmax=4), 'b', dict(ae_id=0, bg_facies=0, bg_azim=0.0, bg_dip=0.0), None, None)
    expect(ae.zmin <= min(o[0] for o in objs) and ae.zmax >= max(o[1] for o in objs), 'extent of %s: %s %s' % (objs, ae.zmin, ae.zmax))
''', 'an object that reaches both below and above its element', 'the extent of the element does not enclose the object')

seed('c16-forgotten-object', 'C16', [('hyvr/assign_points.py', '        return oi_orig\n', '        return oi\n')],
     '''
import hyvr.assign_points as A
from hyvr.geo.grid import Grid
S = types.SimpleNamespace
g = Grid(0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 1.0, 1.0, 5.0, 0)
ae = S(num=0, type_id=3, bg_facies=9, bg_azim=1.0, bg_dip=2.0, n_objects=1, object_zmins=np.array([1.0]), object_zmaxs=np.array([4.9]),
       top_surface=S(surface=np.full((1, 1), 5.0)), bottom_surface=S(surface=np.zeros((1, 1))), zmin=0.0, zmax=5.0)
def assign(oi, ids, ang, x, y, z, i, j, grid):
    if 1 <= z <= 3:                     # an inclined object: reaches this column only further down
        ids[0], ids[2], ang[0], ang[1] = 4, 7, 0.0, 0.0
ae.maybe_assign_points_to_object = assign
st = S(aes=[ae], n_ae=1, ae_zmins=np.array([0.0]), ae_zmaxs=np.array([5.0]), zmin=0.0, zmax=5.0)
m = S(grid=g, n_strata=1, strata=[st], strata_zmins=np.array([0.0]), strata_zmaxs=np.array([5.0]), data={})
A.assign_points(m)
expect(list(m.data['facies'][0, 0]) == [9, 4, 4, 9, 9], 'facies of the column: %s' % m.data['facies'][0, 0])
''', 'an object that does not contain the first cell of a column within its vertical extent but contains deeper ones',
     'deeper cells of the object get the background')

seed('c17-off-centre', 'C17', [('hyvr/geo/sheet.py', '            zc = self.bottom_surface.zmean\n', '            zc = self.bottom_surface.zmin\n')],
     '''
import hyvr.utils as hu
import hyvr.geo.contact_surface as C
import hyvr.geo.sheet as SH
class G: nx, ny = 1, 2; x0 = y0 = z0 = 0.0; lx, ly, lz = 1.0, 2.0, 6.0; zmax = 6.0
hu.specsim = lambda *a, **k: np.array([[-1.0, 1.0]])
np.random.rand = lambda *a: 0.25
for mode in ('flat', 'random'):
    bot = C.ContactSurface(G, mode=mode, z=2.0, var=1.0, corlx=1.0, corly=1.0)
    top = C.ContactSurface(G, mode='flat', z=4.0)
    s = SH.Sheet(dict(structure='dip', dipset_dist=2.0, azimuth=[0.0, 0.0], dip=[30.0, 30.0], facies=[0], altfacies=None), bot, top, G)
    want = -0.5 * 0.5 + np.cos(np.pi / 6) * 2.0 + 0.5
    expect(abs(s.shift - want) < 1e-9, 'zero plane through the centre of the bottom (%s): %g, not %g' % (mode, s.shift, want))
''', 'a sheet with dipping sets over an uneven bottom', 'the layers do not start at the centre of the bottom of the sheet')

seed('c21-first-facies', 'C21', [('hyvr/utils.py', "            fac_idx = type_params['facies'].index(facies[i-1])\n", "            fac_idx = type_params['facies'].index(facies[max(i-2, 0)])\n")],
     '''
import hyvr.utils as hu
p = dict(facies=[1, 2, 3], altfacies=[[2], [3], [1]])
for k in range(20):
    s = list(hu.get_alternating_facies(6, p))
    for a, b in zip(s, s[1:]):
        expect(b in p['altfacies'][p['facies'].index(a)], 'sequence %s' % s)
''', 'sequences of at least three layers', 'facies follow that are not listed as successors')

seed('c24-tensor', 'C24', [('hyvr/optimized.py', 'a11 = kiso*((a-1)*sink**2*sinp**2+1)', 'a11 = kiso*((a-1)*sink**2*abs(sinp)+1)')],
     '''
import hyvr.optimized as ho
one = lambda v: np.full((1, 1, 1), float(v))
for az, dip, an in ((0, 20, 5), (90, 0, 5), (90, 90, 5), (40, 30, 4), (-70, 12, 2)):
    kt = np.zeros((1, 1, 1, 3, 3))
    a, d = np.radians(az), np.radians(dip)
    ho.set_anisotropic_ktensor(kt, one(2.0), one(a), one(d), one(an))
    n = np.array([np.sin(d) * np.cos(a), -np.sin(d) * np.sin(a), np.cos(d)])
    want = 2.0 * (np.eye(3) - (1 - 1 / an) * np.outer(n, n))
    expect(np.allclose(kt[0, 0, 0], want), 'tensor for azimuth %g, dip %g' % (az, dip))
''', 'azimuth other than 0 and a dip other than 0 and 90', 'the tensor is not aligned with the bedding')

seed('c25-background-porosity', 'C25', [('hyvr/geo/model.py', '''                                            hydraulics['sig_n'][ae_bg_facies],
                                            hydraulics['ncorlengths'][ae_bg_facies],
''', '''                                            hydraulics['sig_n'][ae_bg_facies],
                                            hydraulics['ycorlengths'][ae_bg_facies],
''')],
     '''
import hyvr.utils as hu
import hyvr.geo.model as M
S = types.SimpleNamespace
m = object.__new__(M.Model)
m.grid = S(nx=1, ny=1, nz=2)
m.generate_heterogeneity, m.heterogeneity_level, m.generate_anisotropy = True, 'internal', True
none = {a + b: None for a in ('k_', 'n_') for b in ('ztrend', 'xtrend')}
m.strata = [S(aes=[S(num=0, bg_facies=1, type_params=none)])]
a = lambda v, t: np.array(v, dtype=t).reshape(1, 1, 2)
m.data = dict(ha=a([0, -1], int), facies=a([0, 1], int), ae=a([0, 0], int), azim=a([0, 0], float), dip=a([0, 0], float))
calls = []
def specsim(grid, var, corl, selection_mask=None, **k):
    calls.append((var, list(corl), list(np.nonzero(selection_mask.ravel())[0])))
    return np.zeros(int(selection_mask.sum()))
hu.specsim = specsim
h = dict(hydrofacies=['x', 'y'], k_h=[1.0, 2.0], n=[0.1, 0.2], k_ratio=[1.0, 1.0], sig_y=[0.5, 0.6], sig_n=[0.01, 0.02],
         ycorlengths=[[1, 2, 3], [4, 5, 6]], ncorlengths=[[7, 8, 9], [10, 11, 12]], **none)
m.generate_hydraulic_parameters(h)
for v, c, cells in calls:
    f = h['facies'][cells[0]] if 0 else int(m.data['facies'].ravel()[cells[0]])
    expect(c == h['ycorlengths' if v > 0.1 else 'ncorlengths'][f], 'field with variance %g has correlation lengths %s' % (v, c))
''', 'heterogeneous background cells whose porosity and conductivity have different correlation lengths',
     'the porosity field of the background has the wrong correlation lengths')

seed('c26-vertical-correlation', 'C26', [('hyvr/utils.py', '''            h_square = (selected_X_centered/corl[0])**2 \\
                     + (selected_Y_centered/corl[1])**2 \\
                     + (selected_Z_centered/corl[2])**2
''', '''            h_square = (selected_X_centered/corl[0])**2 \\
                     + (selected_Y_centered/corl[1])**2 \\
                     + (selected_Z_centered/corl[-2])**2
''')],
     '''
import hyvr.utils as hu
from hyvr.geo.grid import Grid
g = Grid(0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 2.0, 2.0, 4.0, 0)
mask = np.ones((2, 2, 4), dtype=bool)
np.random.seed(1); a = hu.specsim(g, 1.0, (3.0, 5.0, 0.4), covmod='exp')
np.random.seed(1); b = hu.specsim(g, 1.0, (3.0, 5.0, 0.4), covmod='exp', selection_mask=mask)
expect(np.allclose(a.ravel(), b), 'a field over all cells is the same with and without selection')
''', 'a selection mask and different correlation lengths along y and z', 'the vertical correlation length is ignored')

seed('c27-vtr-fields', 'C27', [('hyvr/postprocess/output.py', 'if key != "ktensors"}', 'if key[0] != "k"}')],
     '''
m = types.ModuleType('pyevtk.hl')
got = {}
m.gridToVTK = lambda f, x, y, z, cellData=None: got.update(cellData)
sys.modules['pyevtk.hl'] = m
import hyvr.postprocess.output as out
S = types.SimpleNamespace
g = S(x0=0.0, y0=0.0, z0=0.0, dx=1.0, dy=1.0, dz=1.0, nx=1, ny=1, nz=2, lx=1.0, ly=1.0, lz=2.0)
d = {k: np.arange(2.0).reshape(1, 1, 2) for k in ('facies', 'k_iso', 'poros', 'anirat')}
d['ktensors'] = np.zeros((1, 1, 2, 3, 3))
out.to_vtr(S(grid=g, data=d), 'nowhere')
expect(sorted(got) == ['anirat', 'facies', 'k_iso', 'poros'], 'fields in the vtr file: %s' % sorted(got))
''', 'vtr output of a model with hydraulic parameters', 'the conductivity is missing in vtr files')

seed('c29-porosity-order', 'C29', [('hyvr/postprocess/output.py', "                                      model.data['poros'].flatten()))}", "                                      model.data['poros'].flatten('F')))}")],
     '''
import hyvr.postprocess.output as out
S = types.SimpleNamespace
def go(d):
    n = (2, 1, 3)
    p = 0.1 + 0.01 * np.arange(6).reshape(n)
    kt = np.zeros(n + (3, 3)); kt[..., 0, 0] = p
    out.to_hgs(S(data=dict(ktensors=kt, poros=p)), str(d / 'r'))
    k = np.loadtxt(d / 'HGS' / 'ktensors.txt'); q = np.loadtxt(d / 'HGS' / 'porosity.txt')
    expect(np.allclose(k[:, 0], q[:, 0]) and np.allclose(k[:, 1], q[:, 1], atol=1e-3), 'porosity of the same cell')
in_tmp(go)
''', 'a grid with more than one cell along two axes', 'porosities are listed under the numbers of other cells')

seed('c30-second-realisation', 'C30', [('hyvr/geo/model.py', '        self.strata = []\n', "        self.strata = getattr(self, 'strata', [])\n")],
     '''
import hyvr.geo.model as M
e = dict(geometry='sheet', structure='massive', ae_id=0, contact_model={'mode': 'flat'}, bg_facies=-1, bg_azim=np.nan,
         bg_dip=np.nan, lens_thickness=-1, size_ztrend=None, azimuth=[0, 0], dip=[0, 0], facies=[0], altfacies=None)
st = dict(strata=['l', 'u'], contact_models=[dict(mode='flat', z=3.0)], ae_in_strata=[['a']] * 2, ae_prob=[[1]] * 2,
          ae_z_mean=[[1.0]] * 2, avul_prob=[[0.0]] * 2, avul=[[0, 0]] * 2, bg_facies=[0] * 2, bg_azim=[0] * 2, bg_dip=[0] * 2)
md = dict(x0=0, y0=0, z0=0, dx=1, dy=1, dz=1, lx=1, ly=2, lz=6, periodic=False, anisotropy=True, hydraulics=True,
          heterogeneity=False, heterogeneity_level='internal')
m = M.Model(md, st, {'a': e}, {})
for k in range(3):
    m.generate_model()
    expect(len(m.strata) == 2, '%d strata in realisation %d' % (len(m.strata), k + 1))
''', 'more than one realisation', 'strata of the previous realisation stay')

seed('c31-probabilities', 'C31', [('hyvr/input/options.py', "    Option('ae_prob', list, optional=False, shape='ae_in_strata', datatype=float),\n",
                                   "    Option('ae_prob', list, optional=False, shape=['strata', -1], datatype=float),\n")],
     '''
import hyvr.input.parameters as hp
def go(d):
    def read(p):
        f = d / 'm.ini'
        f.write_text(ini(edit=lambda t: t.replace('ae_prob = [[1], [1]]', 'ae_prob = ' + p)))
        return hp.parameters(str(f))
    read('[[1], [1]]')
    expect(refuses(read, '[[1], [1, 2]]'), 'more probabilities than elements')
in_tmp(go)
''', 'a stratum with more probabilities than elements', 'the inconsistent file is accepted')

PYX = """
# trough and channel elements are Cython sources that are not built here: their types are removed
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyx, math, importlib.abc, importlib.util
lm = types.ModuleType('libc.math'); lm.__dict__.update({k: v for k, v in vars(math).items() if k[0] != '_'})
lc = types.ModuleType('libc'); lc.__path__ = []; lc.math = lm
sys.modules.update({'libc': lc, 'libc.math': lm, 'cython': pyx.CYTHON})
class F(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        f = os.path.join(R, *name.split('.')) + '.pyx'
        if name.startswith('hyvr.geo.') and os.path.isfile(f) and not os.path.isfile(f[:-1]):
            return importlib.util.spec_from_loader(name, self, origin=f)
    def create_module(self, spec):
        return None
    def exec_module(self, m):
        exec(compile(pyx.convert(open(m.__spec__.origin).read()), m.__spec__.origin, 'exec'), m.__dict__)
sys.meta_path.insert(0, F())
for n in ('hyvr.geo.channel_ae', 'hyvr.geo.trough_ae'):
    sys.modules.pop(n, None)
S = types.SimpleNamespace
"""
TP = """
from hyvr.geo.contact_surface import ContactSurface
from hyvr.geo.trough_ae import TroughAE
def trough(g, top=0.0, bot=-10.0, **kw):
    p = dict(structure='massive', ae_id=0, bg_facies=-1, bg_azim=np.nan, bg_dip=np.nan, size_ztrend=None, azimuth=[0.0, 0.0],
             dip=[0.0, 0.0], facies=[3], altfacies=None, dipset_dist=1.0, bulbset_dist=1.0, lag_height=0.0, lag_facies=-1,
             te_xyz=None, length=4.0, width=2.0, depth=1.0, paleoflow=[0.0, 0.0], buffer=0.0, agg=1.0, migrate=None,
             trough_density=1.0)
    p.update(kw)
    return TroughAE(ContactSurface(g, mode='flat', z=bot), ContactSurface(g, mode='flat', z=top), 'a', p,
                    S(bg_facies=0, bg_azim=0.0, bg_dip=0.0), g)
def cell(ae, x, y, z, i=0, j=0, o=0):
    ids, ang = np.full(4, -1, dtype=np.int32), np.full(2, np.nan)
    ae.maybe_assign_points_to_object(o, ids, ang, x, y, z, i, j, g)
    return ids, ang
g = S(x0=0.0, y0=0.0, z0=-5.0, nx=8, ny=8, nz=5, dx=1.0, dy=1.0, dz=1.0, lx=8.0, ly=8.0, lz=5.0, xmax=8.0, ymax=8.0,
      zmax=0.0, periodic=0)
"""

seed('c06-contact-variance', 'C06', [(PA, "        cm['var'] = strata['ssm_contact_model'][i][0]\n", "        cm['var'] = strata['ssm_contact_model'][0][0]\n")],
     '''
import hyvr.input.parameters as hp
st = dict(ssm=['a', 'b', 'c'], ssm_contact='random', ssm_top=[1.0, 2.0, 3.0], ssm_contact_model=[[0.1, 2.0, 3.0], [0.4, 5.0, 6.0], [0.7, 8.0, 9.0]],
          bg=[0.0, 1.0, 2.0], ae_table=None, save_aelu=False, ssm_ae=[['x'], ['x'], ['x']])
run = dict(modeloutputs=[], dataoutputs=['py'], flag_ow=True, anisotropy=True, het=False)
r = hp.get_new_parameters_from_deprecated(run, dict(hetlev='internal', display=False), st, dict(hydro=['f'], gen=True), {}, {})
cm = r[2]['contact_models']
for k in range(2):
    want = dict(mode='random', z=st['ssm_top'][k], var=st['ssm_contact_model'][k][0], corlx=st['ssm_contact_model'][k][1], corly=st['ssm_contact_model'][k][2])
    expect(cm[k] == want, 'contact model %d: %s' % (k, cm[k]))
''', 'an old-format file with random contacts of three or more strata', 'the second contact gets the variance of the first')

seed('c07-moved-run', 'C07', [(PA, "        run['rundir'] = ini_path\n", "        run['rundir'] = run['modeldir'] / run['runname']\n")],
     '''
import hyvr.input.parameters as hp
def go(d):
    for where in ('demo', 'renamed'):
        (d / where).mkdir()
        f = d / where / 'demo_autogenerated_backup.ini'
        f.write_text(ini())
        run = hp.parameters(str(f))[0]
        expect(run['rundir'] == (d / where).resolve(), 'run directory of %s: %s' % (f, run['rundir']))
in_tmp(go)
''', 'the saved parameter file of a run directory that was renamed', 'the run is repeated in another directory')

seed('c28-dip-sign', 'C28', [('hyvr/postprocess/output.py', "                                              angle2=dip,", "                                              angle2=abs(dip),")],
     '''
import hyvr.postprocess.output as out
S = types.SimpleNamespace
got = {}
def any_(name):
    def f(*a, **k):
        got.setdefault(name, k)
        return S(name='m', register_ims_package=lambda *a: None, write_simulation=lambda *a: None)
    return f
class Any:
    def __init__(self, n): self.n = n
    def __getattr__(self, k): return Any(k)
    def __call__(self, *a, **k): return any_(self.n)(*a, **k)
fl = types.ModuleType('flopy'); fl.mf6 = Any('mf6'); fl.modflow = Any('modflow')
sys.modules['flopy'] = fl
def go(d):
    n = (2, 1, 2)
    g = S(x0=0.0, y0=0.0, z0=0.0, dx=1.0, dy=1.0, dz=1.0, nx=2, ny=1, nz=2, lx=2.0, ly=1.0, lz=2.0)
    dip = np.array([[[10.0, -20.0]], [[0.0, 5.0]]])
    data = dict(k_iso=np.ones(n), anirat=np.ones(n), azim=np.zeros(n), dip=dip)
    out.to_mf6(S(grid=g, data=data, flowtrans=dict(hin=[1.0, 0, 0], hout=[0.5, 0, 0], gradh=None, q_in=None)), str(d / 'r'))
    a = got['ModflowGwfnpf']['angle2']
    for i in range(2):
        for k in range(2):
            expect(a[1 - k, 0, i] == dip[i, 0, k], 'dip of cell %d, %d: %g' % (i, k, a[1 - k, 0, i]))
in_tmp(go)
''', 'a negative dip (as bulbs have)', 'the MODFLOW 6 model gets the opposite dip')

seed('c18-wide-trough', 'C18', [('hyvr/geo/trough.pyx', '        self.max_ab = max(a, b)\n', '        self.max_ab = a\n')],
     PYX + TP + '''
for l, w in ((6.0, 2.0), (2.0, 6.0)):
    ae = trough(g, te_xyz=[[4.0, 4.0, 0.0]], length=l, width=w)
    expect(cell(ae, 4.0, 4.0 + 0.9 * w / 2, -0.1)[0][0] == 3, 'length %g, width %g: cell inside' % (l, w))
    expect(cell(ae, 4.0 + 0.9 * l / 2, 4.0, -0.1)[0][0] == 3, 'length %g, width %g: cell inside' % (l, w))
''', 'a trough that is wider than long', 'its flanks are missing')

seed('c18-layers-of-rotated', 'C18', [('hyvr/geo/trough.pyx', "            sin_azim = sin(self.azim*np.pi/180)\n", "            sin_azim = sin((self.azim - self.alpha)*np.pi/180)\n")],
     PYX + TP + '''
import hyvr.utils as hu
hu.get_alternating_facies = lambda n, p: np.arange(n, dtype=np.int32)
for al in (0.0, 90.0):
    np.random.seed(3)
    ae = trough(g, te_xyz=[[4.0, 4.0, 0.0]], length=6.0, width=6.0, depth=3.0, structure='dip', dip=[45.0, 45.0], paleoflow=[al, al], dipset_dist=0.5)
    o = ae.object_list[0]
    s = np.sqrt(0.5)
    for dx, dy, dz in ((1.0, 0.4, -0.3), (-1.0, 1.0, -0.5), (0.3, -1.5, -1.0)):
        d = s * (np.cos(np.radians(al)) * dx - np.sin(np.radians(al)) * dy) + s * dz + o.shift
        want = int(d / 0.5) + o.num_facies // 2
        expect(cell(ae, 4 + dx, 4 + dy, dz)[0][0] == want, 'layer for orientation %g' % al)
''', 'dipping sets in a rotated trough', 'layers do not dip along the azimuth of the cells')

seed('c19-overturned', 'C19', [('hyvr/geo/trough_ae.pyx', "            elif dip < -self.object_dip[oi]:\n                dip = -self.object_dip[oi]\n", "")],
     PYX + TP + '''
ae = trough(g, te_xyz=[[4.0, 4.0, 0.0]], structure='bulb', length=4.0, width=4.0, depth=2.0, dip=[20.0, 20.0])
for x in (2.5, 3.9, 4.1, 5.5):
    for y in (3.0, 4.2):
        ids, ang = cell(ae, x, y, -0.5)
        expect(ids[0] == 3 and abs(ang[1]) <= 20 + 1e-9, 'dip %g at x = %g' % (ang[1], x))
''', 'points on one side of a trough whose shell is steeper than the maximum dip', 'dips exceed the maximum')

seed('c20-far-cells', 'C20', [('hyvr/geo/channel_ae.pyx', '        radius = xy_dist - self.object_width[oi]\n', '        radius = xy_dist - self.object_depth[oi]\n')],
     PYX + '''
import hyvr.geo.channel_ae as CA
from hyvr.geo.contact_surface import ContactSurface
g = S(x0=0.0, y0=0.0, z0=-5.0, nx=12, ny=12, nz=5, dx=1.0, dy=1.0, dz=1.0, lx=12.0, ly=12.0, lz=5.0, xmax=12.0, ymax=12.0, zmax=0.0, periodic=0)
c = np.array([[x, 9.5, 1.0, 0.0] for x in np.arange(0, 12, 0.25)])
CA.ferguson_curve = lambda *a, **k: c
p = dict(structure='massive', ae_id=0, bg_facies=-1, bg_azim=np.nan, bg_dip=np.nan, size_ztrend=None, azimuth=[0.0, 0.0],
         dip=[0.0, 0.0], facies=[3], altfacies=None, dipset_dist=1.0, lag_height=0.0, lag_facies=-1, width=5.0, depth=0.5,
         channel_no=1, h=0.4, k=0.4, ds=1.0, eps_factor=0.1, flow_angle=0.0, mig=None, buffer=0.0, agg=1.0)
ae = CA.ChannelAE(ContactSurface(g, mode='flat', z=-1.5), ContactSurface(g, mode='flat', z=0.0), 'a', p, S(bg_facies=0, bg_azim=0.0, bg_dip=0.0), g)
expect(ae.n_objects == 1, 'one channel')
for i in range(12):
    for j in range(12):
        for z in (-1.1, -1.4):
            ids, ang = np.full(4, -1, dtype=np.int32), np.full(2, np.nan)
            x, y = i + 0.5, j + 0.5
            ae.maybe_assign_points_to_object(0, ids, ang, x, y, z, i, j, g)
            d2 = ((c[:, 0] - x) ** 2 + (c[:, 1] - y) ** 2).min()
            inside = z + 1.0 >= 4 * 0.5 / 25 * d2 - 0.5
            expect((ids[0] == 3) == inside, 'cell %d, %d, %g' % (i, j, z))
''', 'a shallow wide channel and cells visited after ones further away', 'cells near the bank are skipped because of earlier queries')

seed('c22-third-level', 'C22', [('hyvr/geo/trough_utils.py', '                above_idx = k + (i-1)*n_troughs\n', '                above_idx = k + (i > 1)\n')],
     PYX + TP + '''
np.random.poisson = lambda lam: 2
np.random.normal = lambda m, s: m
ae = trough(g, top=0.0, bot=-3.5, migrate=[0.5, 0.0, -0.25, 0.0])
o = ae.object_list
expect(len(o) == 8, 'four levels with two troughs')
for k in range(2, 8):
    expect(abs(o[k].x - o[k - 2].x - 0.5) < 1e-9 and abs(o[k].y - o[k - 2].y + 0.25) < 1e-9, 'trough %d' % k)
''', 'migrating troughs on three or more levels', 'troughs do not continue the migration of the level above')

seed('c22-size-trend', 'C22', [('hyvr/geo/trough_utils.py', "            (z - grid.z0)*(delta_ztrend)/grid.lz\n", "            (z - grid.z0)*(delta_ztrend)/(grid.lz - grid.z0)\n")],
     PYX + TP + '''
ae = trough(g, te_xyz=[[4.0, 4.0, 0.0], [4.0, 4.0, -2.5]], size_ztrend=[0.5, 1.5])
for o, f in zip(ae.object_list, (1.5, 1.0)):
    expect(abs(o.c - f) < 1e-9 and abs(o.a - 2 * f) < 1e-9, 'depth at %g: %g' % (o.z, o.c))
''', 'a size trend in a domain that does not start at zero', 'sizes do not follow the trend over the height of the domain')

seed('c23-origin', 'C23', [('hyvr/geo/channel_utils.py', 'outputs[:, 0] >= grid.x0-width,', 'outputs[:, 0] >= -width,')],
     '''
from hyvr.geo.channel_utils import ferguson_curve
for x0 in (0.0, -20.0):
    np.random.seed(1)
    g = types.SimpleNamespace(x0=x0, y0=0.0, xmax=x0 + 10.0, ymax=5.0, lx=10.0, ly=5.0)
    c = ferguson_curve(g, 0.4, 0.4, 0.5, 0.0, 0.0, 10.0, x0 - 0.5, 2.5, 1.0)
    expect(len(c) > 10 and c[:, 0].min() <= x0 and c[:, 0].max() >= x0 + 9, 'channel crosses the domain at x0 = %g' % x0)
''', 'a domain with a negative origin', 'centrelines are cut off')

seed('c23-noise', 'C23', [('hyvr/geo/channel_utils.py', "            t2 = th_store[idex-2]\n", "            t2 = th_store[max(idex-3, 0)]\n")],
     '''
from hyvr.geo.channel_utils import ferguson_theta
np.random.seed(2)
e = np.random.normal(size=9)
np.random.seed(2)
k, h = 0.8, 0.5
th = ferguson_theta(np.arange(10.0), 0.3, k, h)
b1, b2 = 2 * np.exp(-k * h) * np.cos(k * np.arcsin(h)), -np.exp(-2 * k * h)
for i in range(2, 10):
    expect(abs(th[i] - (0.3 * e[i - 1] + b1 * th[i - 1] + b2 * th[i - 2])) < 1e-9, 'direction %d' % i)
''', 'centrelines of more than three steps', 'directions do not follow the second-order model')

seed('c08-hidden-files', 'C08', [(PA, "            for f in os.listdir(run['rundir']):\n", "            for f in os.listdir(run['rundir']):\n                if f.startswith('.'):\n                    continue\n")],
     '''
import hyvr.input.parameters as hp
def go(d):
    f = d / 'm.ini'
    f.write_text(ini(ow='yes'))
    (d / 'demo').mkdir()
    for n in ('old.npz', '.old', 'real_002'):
        (d / 'demo' / n).write_text('old')
    hp.setup_from_inifile(str(f), None)
    for n in ('old.npz', '.old', 'real_002'):
        expect(not (d / 'demo' / n).exists(), 'old file %s is removed on request' % n)
in_tmp(go)
''', 'a hidden file among the old results', 'a run directory to be overwritten keeps part of its old content')

seed('c27-single-precision', 'C27', [('hyvr/postprocess/output.py', "data=model.data[key], compression=True)", "data=model.data[key], compression=True,\n                                  dtype='f4' if model.data[key].ndim > 3 else None)")],
     '''
import hyvr.postprocess.output as out
got = {}
class File:
    def __init__(self, *a): pass
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def create_dataset(self, name, data=None, compression=None, dtype=None, **k):
        got[name] = np.array(data, dtype=dtype)
sys.modules['h5py'] = m = types.ModuleType('h5py')
m.File = File
S = types.SimpleNamespace
d = {'facies': np.arange(2, dtype=np.int32).reshape(1, 1, 2), 'k_iso': np.array([[[1e-5, 0.1]]]), 'ktensors': np.full((1, 1, 2, 3, 3), 0.1)}
out.to_hdf5(S(data=d), 'nowhere')
for k in d:
    expect(np.array_equal(got[k], d[k]), 'values of %s in the h5 file' % k)
''', 'values that single precision can not hold', 'conductivity tensors in h5 files differ from the model')

seed('c30-moving-strata', 'C30', [('hyvr/geo/model.py', "        self.strata_zmins = np.array([stratum.zmin for stratum in self.strata])\n", "        if not hasattr(self, 'strata_zmins'):\n            self.strata_zmins = np.array([stratum.zmin for stratum in self.strata])\n")],
     '''
import hyvr.geo.model as M
import hyvr.assign_points as AP
import hyvr.utils as hu
e = dict(geometry='sheet', structure='massive', ae_id=0, contact_model={'mode': 'flat'}, bg_facies=-1, bg_azim=np.nan,
         bg_dip=np.nan, lens_thickness=-1, size_ztrend=None, azimuth=[0, 0], dip=[0, 0], facies=[0], altfacies=None)
st = dict(strata=['l', 'u'], contact_models=[dict(mode='random', z=3.0, var=1.0, corlx=1.0, corly=1.0)], ae_in_strata=[['a']] * 2,
          ae_prob=[[1]] * 2, ae_z_mean=[[100.0]] * 2, avul_prob=[[0.0]] * 2, avul=[[0, 0]] * 2, bg_facies=[0] * 2, bg_azim=[0] * 2,
          bg_dip=[0] * 2)
md = dict(x0=0, y0=0, z0=0, dx=1, dy=1, dz=1, lx=1, ly=2, lz=6, periodic=False, anisotropy=True, hydraulics=True,
          heterogeneity=False, heterogeneity_level='internal')
shift = [2.0]
hu.specsim = lambda *a, **k: np.full((1, 2), shift[0])
m = M.Model(md, st, {'a': e}, {})
for k, s in enumerate((2.0, -2.0)):
    shift[0] = s
    m.generate_model()
    AP.assign_points(m)
    for z in range(6):
        want = 0 if z + 0.5 > 3 + s else 1
        expect((m.data['strata'][:, :, z] == want).all(), 'stratum of layer %d in realisation %d' % (z, k + 1))
''', 'a second realisation whose strata reach lower than those of the first', 'cells get the values of another stratum')

seed('c18-image-layers', 'C18', [('hyvr/geo/trough_ae.pyx', "plane_dist = dx*self.object_normvec_x[oi] +", "plane_dist = (x - object_x)*self.object_normvec_x[oi] +")],
     PYX + TP + '''
import hyvr.utils as hu
hu.get_alternating_facies = lambda n, p: np.arange(n, dtype=np.int32)
g.periodic = 1
np.random.seed(3)
ae = trough(g, te_xyz=[[7.5, 4.0, 0.0]], length=4.0, width=4.0, depth=2.0, structure='dip', dip=[60.0, 60.0], dipset_dist=0.25)
for dx, dy, dz in ((1.0, 0.3, -0.3), (1.5, -0.5, -0.5), (-1.0, 0.0, -0.4)):
    x = (7.5 + dx) % 8.0
    a, b = cell(ae, x, 4 + dy, dz)[0][0], int((dx * np.sin(np.radians(60)) + dz * 0.5 + ae.object_list[0].shift) / 0.25) + ae.object_list[0].num_facies // 2
    expect(a == b, 'layer %d of the image at %g, expected %d' % (a, x, b))
''', 'dipping sets in a trough across the edge of a periodic domain', 'the image of a trough has other layers than the trough')

seed('c19-limited-azimuth', 'C19', [('hyvr/geo/trough_ae.pyx', "            if dip > self.object_dip[oi]:\n                dip = self.object_dip[oi]\n", "            if dip > self.object_dip[oi]:\n                dip = self.object_dip[oi]\n                azim = self.object_azim[oi]\n")],
     PYX + TP + '''
for al in (0.0, 50.0):
    ae = trough(g, te_xyz=[[4.0, 4.0, 0.0]], structure='bulb', length=4.0, width=3.0, depth=2.0, dip=[20.0, 20.0], paleoflow=[al, al])
    for dx in (-0.9, -0.2, 0.3, 1.0):
        for dy in (-0.8, 0.1, 0.7):
            a = np.radians(al)
            ids, ang = cell(ae, 4 + dx, 4 + dy, -0.5)
            if ids[0] != 3:
                continue
            u, v = dx * np.cos(a) + dy * np.sin(a), -dx * np.sin(a) + dy * np.cos(a)
            for s in (1, -1):      # the trough may be turned either way
                u, v = dx * np.cos(a) + s * dy * np.sin(a), -s * dx * np.sin(a) + dy * np.cos(a)
                gu, gv = u / 4, v / 2.25
                gx, gy = gu * np.cos(a) - s * gv * np.sin(a), s * gu * np.sin(a) + gv * np.cos(a)
                t = np.radians(ang[0])
                if abs(np.cos(t) * gy + np.sin(t) * gx) < 1e-6:
                    break
            else:
                expect(False, 'azimuth %g at %g, %g' % (ang[0], dx, dy))
''', 'points of a turned trough whose shell is steeper than the maximum dip', 'the azimuth of limited dips is the one of the trough')

seed('c32-default-section', 'C32', [('hyvr/postprocess/plotting.py', "        y = [model.grid.y0 + model.grid.ly/2]\n", "        y = [model.grid.ly/2]\n")],
     '''
os.environ['MPLBACKEND'] = 'Agg'
import matplotlib.pyplot as plt
import hyvr.postprocess.plotting as P
from hyvr.geo.grid import Grid
S = types.SimpleNamespace
shown = []
class Ax:
    def pcolor(self, X, Z, C, **k):
        shown.append(np.array(C))
    def __getattr__(self, n):
        return lambda *a, **k: None
P.plt = S(subplots=lambda: (S(colorbar=lambda *a, **k: None), Ax()), show=lambda *a: None)
for y0 in (0.0, 40.0):
    g = Grid(0.0, y0, 0.0, 1.0, 1.0, 1.0, 2.0, 3.0, 2.0, 0)
    f = np.arange(12.0).reshape(2, 3, 2)
    del shown[:]
    P.cross_section_pcolor(S(grid=g, data={'f': f}), 'f', x=[])
    expect(len(shown) == 1 and np.array_equal(shown[0], f[:, 1, :].T), 'section through the middle for y0 = %s: %s' % (y0, shown))
''', 'a domain whose origin is not zero and no given position', 'no section through the middle of the domain')

seed('c33-file-setting', 'C33', [('hyvr/__main__.py', "if args.overwrite == False:\n    args.overwrite = None\n", "if args.filename == 0 and args.overwrite == False:\n    args.overwrite = None\n")],
     '''
import runpy
calls = []
h.run = lambda f, flag_ow=None: calls.append((f, flag_ow))
for argv, want in ((['m.ini'], ('m.ini', None)), (['--overwrite', 'm.ini'], ('m.ini', True)), ([], (0, None))):
    del calls[:]
    sys.argv = ['hyvr'] + argv
    runpy.run_path(os.path.join(R, 'hyvr', '__main__.py'), run_name='__main__')
    expect(calls == [want], '%s: %s' % (argv, calls))
''', 'a parameter file that allows overwriting, run from the command line', 'the setting of the parameter file is ignored')
