"""Parameter dictionaries as the ini-file parser delivers them"""
from props.common import *


def sheet_params(**kw):
    p = {'geometry': 'sheet', 'structure': 'massive', 'ae_id': 0, 'contact_model': {'mode': 'flat'},
         'bg_facies': -1, 'bg_azim': float('nan'), 'bg_dip': float('nan'), 'lens_thickness': -1.0,
         'size_ztrend': None, 'azimuth': [0.0, 0.0], 'dip': [0.0, 0.0], 'facies': [0], 'altfacies': None,
         'dipset_dist': 1.0, 'k_ztrend': None, 'k_xtrend': None, 'n_ztrend': None, 'n_xtrend': None}
    p.update(kw)
    return p


def model_dict(n, x0=0.0, y0=0.0, z0=0.0, dx=1.0, dy=1.0, dz=1.0, **kw):
    d = {'x0': x0, 'y0': y0, 'z0': z0, 'dx': dx, 'dy': dy, 'dz': dz, 'lx': n[0] * dx, 'ly': n[1] * dy,
         'lz': n[2] * dz, 'periodic': False, 'anisotropy': True, 'hydraulics': True, 'heterogeneity': False,
         'heterogeneity_level': 'internal'}
    d.update(kw)
    return d


def trough_params(**kw):
    p = {'geometry': 'trunc_ellip', 'structure': 'massive', 'ae_id': 0, 'contact_model': {'mode': 'flat'},
         'bg_facies': -1, 'bg_azim': float('nan'), 'bg_dip': float('nan'), 'size_ztrend': None,
         'azimuth': [0.0, 0.0], 'dip': [0.0, 0.0], 'facies': [0], 'altfacies': None, 'dipset_dist': 1.0,
         'bulbset_dist': 1.0, 'lag_height': 0.0, 'lag_facies': -1, 'te_xyz': None, 'length': 4.0, 'width': 2.0,
         'depth': 1.0, 'paleoflow': [0.0, 0.0], 'buffer': 0.0, 'agg': 1.0, 'migrate': None, 'trough_density': 1.0,
         'k_ztrend': None, 'k_xtrend': None, 'n_ztrend': None, 'n_xtrend': None}
    p.update(kw)
    return p


def channel_params(**kw):
    p = {'geometry': 'ext_par', 'structure': 'massive', 'ae_id': 0, 'contact_model': {'mode': 'flat'},
         'bg_facies': -1, 'bg_azim': float('nan'), 'bg_dip': float('nan'), 'size_ztrend': None,
         'azimuth': [0.0, 0.0], 'dip': [0.0, 0.0], 'facies': [0], 'altfacies': None, 'dipset_dist': 1.0,
         'lag_height': 0.0, 'lag_facies': -1, 'width': 2.0, 'depth': 1.0, 'channel_no': 1, 'h': 0.4, 'k': 0.4,
         'ds': 1.0, 'eps_factor': 0.1, 'flow_angle': 0.0, 'mig': None, 'buffer': 0.0, 'agg': 1.0,
         'k_ztrend': None, 'k_xtrend': None, 'n_ztrend': None, 'n_xtrend': None}
    p.update(kw)
    return p


def element(env, mod, cls, params, grid, ztop=0.0, zbot=-10.0, bg=(7, 8.0, 9.0)):
    """an element of the given class between two flat surfaces"""
    import types
    CS = env.load('hyvr.geo.contact_surface').ContactSurface
    C = getattr(env.load(mod), cls)
    top, bot = CS(grid, mode='flat', z=ztop), CS(grid, mode='flat', z=zbot)
    st = types.SimpleNamespace(bg_facies=bg[0], bg_azim=bg[1], bg_dip=bg[2])
    return C(bot, top, 'el', params, st, grid)


def cell_arrays(env):
    ids, ang = env.np.empty(4, dtype=env.np.int32), env.np.empty(2, dtype=env.np.float64)
    ids[0] = ids[1] = ids[2] = ids[3] = -1
    ang[0] = ang[1] = float('nan')
    return ids, ang


def shifts(env, unit=1.0):
    """the random shifts a program may have drawn: all uniform draws over an interval, scaled to [0, unit)"""
    out = []
    for lo, hi, v in env.draws('ur'):
        if lo is hi or (isinstance(lo, (int, float)) and isinstance(hi, (int, float)) and lo == hi):
            continue
        out.append((v - lo) / (hi - lo) * unit)
    return out
