from .products import *

ANGLES = {'start_look_angle_stack': 'start_look_angle', 'stop_look_angle_stack': 'stop_look_angle',
          'start_beam_ang_stack': 'start_beam_angle', 'stop_beam_ang_stack': 'stop_beam_angle'}
SAT = {'alt': 'alt_sat', 'orb_alt_rate': 'alt_rate_sat', 'x_pos': 'x_sat', 'y_pos': 'y_sat', 'z_pos': 'z_sat',
       'x_vel': 'x_vel_sat', 'y_vel': 'y_vel_sat', 'z_vel': 'z_vel_sat', 'scale_factor_ku': 'sigma0_scaling_factor',
       'max_stack': 'stack_max', 'stdev_stack': 'stack_std', 'skew_stack': 'stack_skewness',
       'kurt_stack': 'stack_kurtosis', 'time': 'time_surf'}
BOTH = ('uso_cor', 'int_path_cor_ku', 'agccode_ku', 'agc_ku', 'sig0_cal_ku')
ISP = 'isp_coarse_time isp_fine_time sral_fine_time flag_time_status nav_bul_status nav_bul_source oper_instr SAR_mode ' \
      'cl_gain acq_stat dem_eeprom loss_track h0_nav_dem h0_applied cor2_nav_dem cor2_applied dh0 surf_type'


def wanted(which, s, cst):
    """{variable without suffix: (value, largest rounding)}"""
    b = s.stack_bursts[s.closest_burst_index]
    w = {k: getattr(s, v) for k, v in SAT.items()}
    w.update({k: getattr(b, k) for k in BOTH})
    w['lat'], w['lon'] = np.degrees(s.lat_surf), np.degrees(s.lon_surf)
    w['range_ku'] = s.win_delay_surf * cst.c / 2
    if which != 's3':
        w.update({k: getattr(s, v) for k, v in ANGLES.items()})
        for n in ('roll', 'pitch', 'yaw'):
            w[n + '_sat_pointing'] = np.degrees(getattr(s, n + '_sat'))
    if which == 'l1bs':
        for x in 'xyz':
            w['meas_%s_pos' % x] = getattr(s, x + '_surf')
        for n in ('roll', 'pitch', 'yaw'):
            w[n + '_sral_mispointing'] = getattr(b, n + '_sral_mispointing')
        w.update(cog_cor=b.cog_cor, records_count=s.surface_counter, nb_stack=s.data_stack_size,
                 burst_start_ind=s.start_burst_index, burst_stop_ind=s.stop_burst_index,
                 beam_ang=s.beam_angles_start_stop)
    else:
        w.update({k: getattr(b, k) for k in ISP.split()})
        w.update(seq_count=b.source_seq_count, agc_cor_ku=b.agc_ku - b.agccode_ku)
    if which == 's3':
        w.update(nb_stack=s.data_stack_size, beam_ang=-s.look_angles_surf, i2q2_meas_ku=s.waveform_multilooked)
    if which == 'extended':
        w.update(nb_stack=s.n_beams_start_stop, beam_ang=s.beam_angles_surf, look_ang=s.look_angles_surf,
                 stack_mask_vector=s.stack_mask_vector_start_stop, stack_scale_factor_ku=s.sigma0_scaling_factor_beam)
    return w


STEP = dict(lat=1e-6, lon=1e-6, alt=1e-4, orb_alt_rate=1e-2, uso_cor=1e-4, int_path_cor_ku=1e-4, agc_ku=1e-2,
            agc_cor_ku=1e-2, sig0_cal_ku=1e-2, scale_factor_ku=1e-2, max_stack=1e-2, stdev_stack=1e-6,
            skew_stack=1e-6, kurt_stack=1e-6, beam_ang=1e-6, look_ang=1e-6, roll_sat_pointing=1e-4,
            pitch_sat_pointing=1e-4, yaw_sat_pointing=1e-4, stack_scale_factor_ku=1e-2, range_ku=1e-4, cog_cor=1e-4,
            roll_sral_mispointing=1e-4, pitch_sral_mispointing=1e-4, yaw_sral_mispointing=1e-4,
            start_look_angle_stack=1e-6, stop_look_angle_stack=1e-6, start_beam_ang_stack=1e-6,
            stop_beam_ang_stack=1e-6, i2q2_meas_ku=1e-3)


def scaled(which, out, k, suf, s):
    """waveform and samples multiplied back"""
    w = np.asarray(s.waveform_multilooked, dtype=float)
    get = lambda n: np.ma.filled(np.ma.asarray(out[n + suf][k]).astype(float), np.nan)
    if which == 'extended':
        got, step = get('i2q2_meas_ku') * get('i2q2_scale_factor'), 1e-8 * max(w.max(), 1e-300)
    elif which == 'l1bs':
        f = 10. ** (s.stack_bursts[s.closest_burst_index].agc_ku / 10)
        got, step = get('i2q2_meas_ku') * f, 1.01e-3 * f
    else:
        got, step = get('i2q2_meas_ku'), 1.01e-3
    if w.max() > 0:
        close(got, w, '%s waveform' % which, rtol=0, atol=step)
    if which == 'l1bs' and np.abs(s.beams_range_compr_iq).max() > 0:
        f = get('iq_scale_factor')
        for n, z in (('i', s.beams_range_compr_iq.real), ('q', s.beams_range_compr_iq.imag)):
            close(get(n + '_echoes_ku') * f, z, '%s samples' % n, rtol=0, atol=1.01 * f)


@case('C20', 'records', 14, 300)
def records(rng, scratch):
    """several records of every product, read back"""
    c, M, looks = conf(rng)
    for which in CLS:
        n = int(rng.integers(1, 5))
        ss = []
        for k in range(n):
            over = {}
            if rng.random() < .1:
                over['waveform_multilooked'] = np.zeros(M)
            ss.append(product_surface(rng, c[0], c[1], int(rng.integers(0, 10000)), M, looks, **over))
        out, units = write(scratch, which, c, ss)
        suf = '_%s_echo_sar_ku' % CLS[which][1]
        for v, a in out.items():
            expect(len(a) == n, '%s has %d rows after %d records', v, len(a), n)
        for k, s in enumerate(ss):
            for v, w in wanted(which, s, c[1]).items():
                if v == 'i2q2_meas_ku':
                    continue
                got = np.ma.asarray(out[v + suf][k])
                expect(not np.ma.is_masked(got), '%s: %s of record %d is missing', which, v, k)
                close(np.asarray(got, dtype=float), np.asarray(w, dtype=float), '%s: %s of record %d' % (which, v, k),
                      rtol=1e-12, atol=.51 * STEP.get(v, 1 if np.asarray(got).dtype.kind in 'iu' else 0) +
                      (1e-9 if v == 'time' else 0))
            scaled(which, out, k, suf, s)
        for v in ('lat', 'lon') + (('roll_sat_pointing', 'pitch_sat_pointing', 'yaw_sat_pointing') if which != 's3' else ()):
            expect((units[v + suf] or '').startswith('degrees'), '%s declared in %r', v, units[v + suf])
    return '%s n=%d %r' % (which, n, float(ss[0].lat_surf))


@case('C20', 'any-writer', 20, 300)
def any_writer(rng, scratch):
    """the common writer: record numbers, short vectors and matrices, absent and zero values"""
    import netCDF4
    from dedop.data.output.netcdf_writer import NetCDFWriter

    class Writer(NetCDFWriter):
        def write_record(self, **k):
            super().write_record(**k)
    n, a, b = [int(x) for x in rng.integers(1, 6, 3)]
    path = os.path.join(scratch, 'any', 'p.nc')
    w = Writer(path)
    for d, size in (('t', None), ('a', a), ('b', b)):
        w.define_dimension(d, size)
    dims = {'s': ('t',), 'v': ('t', 'a'), 'm': ('t', 'a', 'b')}
    for v, d in dims.items():
        w.define_variable(v, np.int32, d, long_name=v, fill_value=-99)
    w.open()
    rows = []
    for k in range(n):
        r = {}
        for v, d in dims.items():
            shape = tuple(int(rng.integers(1, {'a': a, 'b': b}[x] + 1)) for x in d[1:])
            x = rng.integers(0, 3, shape) if rng.random() < .7 else np.zeros(shape, int)
            r[v] = None if rng.random() < .1 else x if shape else int(x)
        keys = list(r)
        rng.shuffle(keys)
        w.write_record(**{q: r[q] for q in keys})
        rows.append(r)
    w.close()
    with netCDF4.Dataset(path) as f:
        for v, d in dims.items():
            got = f[v]
            got.set_auto_mask(False)
            got = got[:]
            want = np.full((n,) + tuple({'a': a, 'b': b}[x] for x in d[1:]), -99)
            for k, r in enumerate(rows):
                if r[v] is not None:
                    want[(k,) + tuple(slice(0, q) for q in np.shape(r[v]))] = r[v]
            m = np.full(want.shape, -99)
            m[:len(got)] = got
            expect(len(got) <= n and (m == want).all(), '%s: %r, expected %r', v, got.tolist(), want.tolist())
    os.remove(path)
    return '%d records %dx%d' % (n, a, b)


COPIED = {
    'stack_gathering': 'data_stack_size stack_bursts beams_surf beam_angles_surf t0_surf doppler_angles_surf look_angles_surf '
                       'pointing_angles_surf look_index_surf look_counter_surf closest_burst_index',
    'geometry_corrections': 'slant_range_corrections range_sat_surf doppler_corrections win_delay_corrections beams_geo_corr',
    'range_compression': 'beams_range_compr:beam_range_compr beams_range_compr_iq:beam_range_compr_iq',
    'stack_masking': 'beams_masked stack_mask_vector stack_mask',
    'multilooking': 'stack_max stack_std stack_skewness stack_kurtosis n_beams_start_stop start_look_angle stop_look_angle '
                    'start_doppler_angle stop_doppler_angle start_pointing_angle stop_pointing_angle start_beam_angle '
                    'stop_beam_angle start_burst_index stop_burst_index stack_mask_vector_start_stop beam_angles_start_stop '
                    'look_angles_start_stop waveform_multilooked',
    'sigma_zero_scaling': 'sigma0_scaling_factor:() sigma0_scaling_factor_beam'}


@case('C20', 'steps', 6, 60)
def steps(rng, scratch):
    """each step stores the results of its own run in the surface it ran on"""
    from . import proc as pr
    p = pr.make(scratch, True)
    scalar = ('data_stack_size', 'closest_burst_index', 'n_beams_start_stop', 'start_burst_index', 'stop_burst_index')

    class Alg:
        def __init__(self, which):
            self.which, self.calls = which, []

        def __call__(self, surface, *a, **k):
            self.calls.append((surface, a, k))
            self.got = {}
            r = rng.standard_normal((3, 4))
            for n in COPIED[self.which].split():
                n = n.split(':')[-1]
                v = int(rng.integers(1, 1000)) if n in scalar else rng.standard_normal((3, 4)) if not n.startswith(('sta', 'sto')) or 'mask' in n else float(rng.standard_normal())
                self.got[n] = v
                if n != '()':
                    setattr(self, n, v)
            return self.got.get('()')
    algs = {k: Alg(k) for k in COPIED}
    for k, a in algs.items():
        n = 'sigma_zero_algorithm' if k == 'sigma_zero_scaling' else k + '_algorithm'
        if not hasattr(p, n) or not hasattr(p, k):
            raise Skip('no %s' % n)
        setattr(p, n, a)
    done = []
    for i in range(2):
        s = mksurf(p.cst, p.chd, i)
        for k, a in algs.items():
            getattr(p, k)(s)
            expect(len(a.calls) == i + 1 and (a.calls[-1][0] is s or s in a.calls[-1][2].values()), '%s ran %d times on %d surfaces', k, len(a.calls), i + 1)
        done.append((s, {k: a.got for k, a in algs.items()}))
    for s, got in done:
        for k, names in COPIED.items():
            for n in names.split():
                n, src = (n.split(':') * 2)[:2]
                close(getattr(s, n), got[k][src], '%s of surface %d after %s' % (n, s.surface_counter, k), rtol=0)
    return [float(done[0][1]['stack_masking']['stack_mask'][0, 0])]


@case('C20', 'run', 60, 1500)
def whole(rng, scratch):
    """what every record of a run finds in its surface"""
    from .c04 import one
    run, ms, looks, thr, e = one(rng, scratch)
    need = {k: [n.split(':')[0] for n in v.split()] for k, v in COPIED.items()}
    for which, s, names, ran in run.held:
        for k, ns in need.items():
            gone = [n for n in ns if n not in names and n in ('data_stack_size', 'beams_surf', 'look_angles_surf', 'closest_burst_index',
                    'range_sat_surf', 'beams_geo_corr', 'beams_range_compr', 'beams_range_compr_iq', 'beams_masked', 'stack_mask_vector',
                    'waveform_multilooked', 'stack_max', 'sigma0_scaling_factor')]
            expect(not gone, '%s record of surface %d is written without the results %r of %s (steps run: %r)', which, s.surface_counter, gone, k, ran)
    return [len(run.held)]
