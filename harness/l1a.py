"""synthetic L1A products for the harness (layout of the SRAL L1A format in l1a_vars.json)"""
import json
import os
import netCDF4 as nc
import numpy as np
from .util import *
from .track import Orbit, ecef

LAYOUT = json.load(open(os.path.join(os.path.dirname(__file__), 'l1a_vars.json')))
T, S = '_l1a_echo_sar_ku', 'sar_ku_pulse_burst_ind'
GLOBALS = {k: 'test ' + k for k in (
    'mission_name altimeter_sensor_name gnss_sensor_name doris_sensor_name references acq_station_name xref_altimeter_level0 '
    'xref_navatt_level0 xref_altimeter_orbit xref_doris_uso xref_altimeter_ltm_lrm_cal1 xref_altimeter_ltm_sar_cal1 '
    'xref_altimeter_ltm_ku_cal2 xref_altimeter_ltm_c_cal2 xref_altimeter_characterisation xref_time_correlation xref_platform history').split()}
GLOBALS['product_name'] = 'S3A_SR_1_SRA_A__20130415T054207.SEN3'


def phys(name, a):
    """random stored integers of modest size -> physical values"""
    at = LAYOUT[name]['attrs']
    return a * at.get('scale_factor', 1) + at.get('add_offset', 0)


def make(path, n, rng, values=None, samples=8, pulses=4, tables=3, plrm=5, extra_globals=None):
    """write a product with n records; `values` (physical, by short or full variable name) override random ones"""
    dims = {'echo_sample_ind': samples, S: pulses, 'sar_c_pulse_burst_ind': 2, 'ltm_max_ind': tables,
            'time' + T: n, 'time_l1a_echo_plrm': plrm}
    values = {k if k in LAYOUT else k + T: v for k, v in (values or {}).items()}
    d = nc.Dataset(path, 'w')
    try:
        for k, v in dims.items():
            d.createDimension(k, v)
        for name, l in LAYOUT.items():
            dt = np.dtype(l['dtype'])
            v = d.createVariable(name, dt, l['dims'], fill_value=None if l['fill'] is None else dt.type(l['fill']))
            for k, x in l['attrs'].items():
                v.setncattr(k, x)
            shape = tuple(dims[x] for x in l['dims'])
            if name in values:
                v[:] = np.broadcast_to(np.asarray(values[name]), shape)
            else:
                v.set_auto_maskandscale(False)
                if dt.kind == 'f':
                    v[:] = rng.uniform(0, 1000, shape)
                else:
                    v[:] = rng.integers(0 if dt.kind == 'u' else -100, 100, shape)
        for k, x in dict(GLOBALS, **(extra_globals or {})).items():
            d.setncattr(k, x)
    finally:
        d.close()
    return path


def stored(path):
    """physical values as stored in the product, read independently of the code under test"""
    d = nc.Dataset(path)
    try:
        out = {}
        for k, v in d.variables.items():
            v.set_auto_mask(False)
            out[k] = np.array(v[:])
        return out
    finally:
        d.close()
