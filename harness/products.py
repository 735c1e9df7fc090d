"""product files written by the real writers with real surfaces, read back with the netCDF library"""
import warnings
import netCDF4
from .track import *
from dedop.data.output import L1BWriter, L1BWriterExtended, L1BSWriter

CLS = {'s3': (L1BWriter, 'l1b'), 'extended': (L1BWriterExtended, 'l1b'), 'l1bs': (L1BSWriter, 'l1bs')}


def conf(rng):
    n, zp, looks = int(rng.choice([4, 8])), int(rng.choice([1, 2])), int(rng.integers(2, 9))
    return mkconf(chd={'n_samples_sar': n}, cnf={'zp_fact_range': zp, 'n_looks_stack': looks}), n * zp, looks


def product_surface(rng, chd, cst, k, M, looks, **over):
    """a surface as the processor hands it over"""
    n = int(rng.integers(1, looks + 1))
    bursts = np.zeros((looks,), dtype=object)
    for i in range(n):
        bursts[i] = mkburst(chd, cst, int(rng.integers(0, 1000)))
    d = dict(data_stack_size=n, n_beams_start_stop=int(rng.integers(1, n + 1)), stack_bursts=bursts,
             closest_burst_index=int(rng.integers(0, n)), waveform_multilooked=rng.random(M) * 10. ** rng.uniform(-3, 3),
             beams_range_compr_iq=crandn(rng, looks, M) * 10. ** rng.uniform(-3, 3), stack_max=rng.uniform(0, 1e4),
             stack_std=rng.uniform(0, 1e3), stack_skewness=rng.uniform(-9, 9), stack_kurtosis=rng.uniform(-9, 9),
             sigma0_scaling_factor=rng.uniform(-50, 50), start_look_angle=rng.uniform(-.03, .03),
             stop_look_angle=rng.uniform(-.03, .03), start_beam_angle=1.57 + rng.uniform(-.03, .03),
             stop_beam_angle=1.57 + rng.uniform(-.03, .03), start_burst_index=int(rng.integers(0, 1000)),
             stop_burst_index=int(rng.integers(0, 1000)),
             beam_angles_surf=1.57 + rng.uniform(-.03, .03, looks), look_angles_surf=rng.uniform(-.03, .03, looks),
             beam_angles_start_stop=1.57 + rng.uniform(-.03, .03, looks),
             look_angles_start_stop=rng.uniform(-.03, .03, looks),
             stack_mask_vector_start_stop=rng.integers(0, M + 1, looks),
             sigma0_scaling_factor_beam=rng.uniform(-50, 50, looks), prev_tai=4e8, prev_utc_days=4629,
             prev_utc_secs=5000., curr_day_length=86400, time_surf=4e8 + rng.uniform(0, .1),
             lat_surf=rng.uniform(-1.5, 1.5), lon_surf=rng.uniform(-3.1, 3.1), alt_rate_sat=rng.uniform(-100, 100))
    z = d['beams_range_compr_iq']
    r = rng.random()
    if r < .1:
        z.imag = 0
    elif r < .2:
        z.real *= rng.uniform(0, .1)
    elif r < .3:
        z.imag *= rng.uniform(0, .1)
    d.update(over)
    return mksurf(cst, chd, k, **d)


def write(scratch, which, c, surfaces):
    """-> {variable: values} of the product with these surfaces as records"""
    chd, cst, cnf = c
    path = os.path.join(scratch, 'product', 'p.nc')
    w = CLS[which][0](chd=chd, cnf=cnf, cst=cst, filename=path)
    try:
        w.open()
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for s in surfaces:
                w.write_record(s)
    finally:
        w.close()
    with netCDF4.Dataset(path) as f:
        out = {n: v[:] for n, v in f.variables.items()}
        units = {n: (v.units.decode() if isinstance(v.units, bytes) else v.units) if 'units' in v.ncattrs() else None
                 for n, v in f.variables.items()}
    os.remove(path)
    return out, units
