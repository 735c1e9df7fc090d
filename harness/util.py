"""real configuration and data objects for the harness"""
import copy
import json
import os
import numpy as np
from dedop.conf import CharacterisationFile, ConstantsFile, ConfigurationFile
from dedop.conf.auxiliary_parameter import AuxiliaryParameter
from dedop.model import L1AProcessingData, SurfaceData
from dedop.model.l1a_processing_data import PacketPid
from dedop.model.surface_data import SurfaceType
from . import core
from .core import REPO, Skip, Violation, case, close, expect

_defaults = {}


def defaults(which):
    if which not in _defaults:
        d = json.load(open(os.path.join(REPO, 'test_data', 'common', which + '.json')))
        _defaults[which] = {k: v['value'] for k, v in d.items() if k != '__metainf__'}
    return dict(_defaults[which])


def param_name(cls, attr):
    p = vars(cls).get(attr)
    if not isinstance(p, AuxiliaryParameter):
        raise Skip('%s has no parameter %s' % (cls.__name__, attr))
    return p.name


def mkconf(chd=None, cst=None, cnf=None, base=True):
    """(chd, cst, cnf) real objects: the values of test_data/common with overrides by attribute name"""
    def vals(which, cls, over):
        d = defaults(which) if base else {}
        for k, v in (over or {}).items():
            d[param_name(cls, k)] = v
        return d
    c = ConstantsFile(**vals('CST', ConstantsFile, cst))
    h = CharacterisationFile(c, **vals('CHD', CharacterisationFile, chd))
    f = ConfigurationFile(**vals('CNF', ConfigurationFile, cnf))
    return h, c, f


def crandn(rng, *shape):
    return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)


def unit(rng):
    v = rng.standard_normal(3)
    return v / np.linalg.norm(v)


BURST_FIELDS = dict(
    time_sar_ku=(4e8, 1e6), days=(5000, 300, int), seconds=(40000, 20000), pri_sar_pre_dat=(5.5e-5, 1e-6),
    ambiguity_order_sar=(20, 5, int), burst_sar_ku=(3, 1, int), lat_sar_sat=(0, .7), lon_sar_sat=(0, 1.5),
    alt_sar_sat=(8e5, 1e4), alt_rate_sat_sar=(0, 10), roll_sar=(0, 1e-3), pitch_sar=(0, 1e-3), yaw_sar=(0, 1e-3),
    h0_sar=(1e4, 1e3), t0_sar=(3.1e-9, 1e-11), cor2_sar=(0, 10), win_delay_sar_ku=(5.4e-3, 1e-5),
    x_sar_sat=(0, 4e6), y_sar_sat=(0, 4e6), z_sar_sat=(0, 4e6), x_vel_sat_sar=(0, 4e3), y_vel_sat_sar=(0, 4e3), z_vel_sat_sar=(0, 4e3),
    x_sar_surf=(0, 4e6), y_sar_surf=(0, 4e6),
    z_sar_surf=(0, 4e6), doppler_angle_sar_sat=(0, 1e-3), beam_angles_trend=(0, .9, int),
    isp_coarse_time=(100, 10, int), isp_fine_time=(100, 10, int), sral_fine_time=(100, 10, int),
    flag_time_status=(1, 1, int), nav_bul_status=(1, 1, int), nav_bul_source=(1, 1, int),
    source_seq_count=(500, 100, int), oper_instr=(1, 1, int), SAR_mode=(1, 1, int), cl_gain=(1, 1, int),
    acq_stat=(1, 1, int), dem_eeprom=(1, 1, int), loss_track=(0, 1, int), h0_nav_dem=(100, 10, int),
    h0_applied=(100, 10, int), cor2_nav_dem=(10, 5, int), cor2_applied=(10, 5, int), dh0=(10, 5, int),
    agccode_ku=(20, 5, int), range_ku=(8e5, 1e3), int_path_cor_ku=(5, 1), agc_ku=(20, 5), sig0_cal_ku=(1, .5),
    uso_cor=(0, 1e-3), surf_type=(1, 1, int), roll_sral_mispointing=(0, 1e-3), pitch_sral_mispointing=(0, 1e-3),
    yaw_sral_mispointing=(0, 1e-3), cog_cor=(.5, .1))
SURF_FIELDS = dict(
    time_surf=(4e8, 1e6), win_delay_surf=(5.4e-3, 1e-5), x_surf=(0, 4e6), y_surf=(0, 4e6), z_surf=(0, 4e6),
    lat_surf=(0, .7), lon_surf=(0, 1.5), alt_surf=(0, 1e3), x_sat=(0, 4e6), y_sat=(0, 4e6), z_sat=(0, 4e6),
    lat_sat=(0, .7), lon_sat=(0, 1.5), alt_sat=(8e5, 1e4), x_vel_sat=(0, 4e3), y_vel_sat=(0, 4e3),
    z_vel_sat=(0, 4e3), alt_rate_sat=(0, 10), roll_sat=(0, 1e-3), pitch_sat=(0, 1e-3), yaw_sat=(0, 1e-3),
    angular_azimuth_beam_resolution=(3.5e-4, 1e-5), focus_target_distance=(1e4, 1e3))


def _fill(cls, fields, values):
    r = core.RNG
    for k, spec in fields.items():
        if k not in values and isinstance(getattr(cls, k, None), property):
            v = float(spec[0] + spec[1] * r.standard_normal())
            values[k] = int(round(v)) if len(spec) > 2 else v


def mkburst(chd, cst, seq=0, **values):
    """a burst whose fields are random but plausible where the case does not set them"""
    _fill(L1AProcessingData, BURST_FIELDS, values)
    if 'isp_pid' not in values:
        values['isp_pid'] = [PacketPid.echo_sar, PacketPid.echo_rmc][int(core.RNG.integers(2))]
    values['beam_angles_trend'] = max(-1, min(1, values['beam_angles_trend']))
    return L1AProcessingData(cst, chd, seq, **values)


def mksurf(cst, chd, seq=0, **values):
    _fill(SurfaceData, SURF_FIELDS, values)
    if 'surface_type' not in values:
        values['surface_type'] = [SurfaceType.surface_raw, SurfaceType.surface_rmc][int(core.RNG.integers(2))]
    if 'target_focused' not in values:
        values['target_focused'] = bool(core.RNG.integers(2))
    return SurfaceData(cst, chd, seq, **values)


def before(rng, alg, s, *args, p=.4):
    """sometimes let the algorithm process another, similar surface first: what it computes for `s` must not depend on it"""
    if rng.random() >= p:
        return
    o = copy.copy(s)
    d = o._data = dict(s._data)
    lists = [k for k, v in d.items() if k.startswith('stack_all_') and isinstance(v, list)]
    if lists:
        n = len(d[lists[0]])
        pick = rng.integers(0, n, int(rng.integers(0, 2 * n + 1))) if n else []
        for k in lists:
            d[k] = [d[k][i] for i in pick]
    size = int(d.get('data_stack_size') or 0)
    perm = rng.permutation(size)
    for k, v in list(d.items()):
        if not isinstance(v, np.ndarray) or not v.ndim:
            continue
        v = v.copy()
        if k == 'stack_mask_vector':
            v[:] = rng.choice([0., float(max(1, v.max(initial=0)))], len(v))
        else:
            if len(v) >= size:
                v[:size] = v[:size][perm]
            if k != 'stack_mask' and v.dtype.kind in 'fc':
                v *= 1 + .2 * rng.standard_normal(v.shape)
        d[k] = v
    try:
        with np.errstate(all='ignore'):
            alg(o, *args)
    except Exception:
        pass
