"""C15: extents, background values and object records of architectural elements"""
import types
from props.geo import *

BOUNDS = ('elements with 0-3 (thorough 4) objects of arbitrary vertical extent, angles and facies, up to 3 internal '
          'facies each; arbitrary flat element surfaces; background facies/azimuth/dip given or inherited')
ASSUMPTIONS = ['real arithmetic in place of float64']


def element(env, nobj, nfac):
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    R = env.load('hyvr.geo.ae_realization').AERealization
    grid = simple_grid((1, 1, 1))
    zt, zb = env.real('zt', -10, 10), env.real('zb', -10, 10)
    env.assume(zb <= zt)
    objs = []
    for i in range(nobj):
        lo, hi = env.real('lo%d' % i, -20, 20), env.real('hi%d' % i, -20, 20)
        env.assume(lo <= hi)
        objs.append(types.SimpleNamespace(
            zmin=lo, zmax=hi, azim=env.real('az%d' % i, -360, 360), dip=env.real('dip%d' % i, -90, 90),
            facies=env.int('fa%d' % i, 0, 20), num_ha=env.int('ha%d' % i, 0, 50), num_facies=nfac[i],
            facies_array=[env.int('fa%d_%d' % (i, j), 0, 20) for j in range(nfac[i])]))

    class E(R):
        def generate_objects(self, g):
            for o in objs:
                self._add_object(o)

        def create_object_arrays(self):
            self.made = True
    bgf = env.int('bgf', -1, 5)
    nan = float('nan')
    own_az, own_dip = env.flag('own_az'), env.flag('own_dip')
    az = env.real('bgaz', -360, 360) if own_az else nan
    dip = env.real('bgdip', -90, 90) if own_dip else nan
    st = types.SimpleNamespace(bg_facies=env.int('sbgf', 0, 9), bg_azim=env.real('sbgaz', -360, 360),
                               bg_dip=env.real('sbgdip', -90, 90))
    top, bot = CS(grid, mode='flat', z=zt), CS(grid, mode='flat', z=zb)
    params = sheet_params(bg_facies=bgf, bg_azim=az, bg_dip=dip, ae_id=env.int('id', 0, 9))
    e = E(bot, top, 'nm', params, st, grid)
    env.check('surfaces', e.bottom_surface is bot and e.top_surface is top and e.type_name == 'nm' and e.made)
    env.check_eq('type-id', e.type_id, params['ae_id'])
    env.check_eq('bg-facies', getattr(e, 'bg_facies', None), env.ite(bgf != -1, bgf, st.bg_facies))
    env.check_eq('bg-azim', getattr(e, 'bg_azim', None), az if own_az else st.bg_azim)
    env.check_eq('bg-dip', getattr(e, 'bg_dip', None), dip if own_dip else st.bg_dip)
    env.check('count', e.n_objects == nobj and len(e.object_zmins) == nobj and len(e.object_zmaxs) == nobj)
    env.check('encloses-surfaces', env.And(e.zmin <= zb, e.zmax >= zt))
    lo, hi = zb, zt
    for i, o in enumerate(objs):
        env.check('order', e.object_list[i] is o)
        env.check('encloses-objects', env.And(e.zmin <= o.zmin, e.zmax >= o.zmax))
        env.check_eq('zmin', e.object_zmins[i], o.zmin)
        env.check_eq('zmax', e.object_zmaxs[i], o.zmax)
        env.check_eq('azim', e.object_azim[i], o.azim)
        env.check_eq('dip', e.object_dip[i], o.dip)
        env.check_eq('facies', e.object_facies[i], o.facies)
        env.check_eq('num-facies', e.object_num_facies[i], nfac[i])
        for j in range(nfac[i]):
            env.check_eq('facies-array', e.object_facies_array[i, j], o.facies_array[j])
        lo, hi = env.min(lo, o.zmin), env.max(hi, o.zmax)
    env.check_eq('tight', [e.zmin, e.zmax], [lo, hi])


def cases(tier):
    cs = [dict(name='objects-%s' % ''.join(map(str, nf)), fn=element, args=dict(nobj=len(nf), nfac=nf))
          for nf in ((), (0,), (2,), (1, 3), (3, 1), (0, 2, 1))]
    if tier != 'quick':
        cs.append(dict(name='objects-4', fn=element, args=dict(nobj=4, nfac=(2, 0, 3, 1))))
    return cs
