from .product import *
from .c19 import WRITERS, one, R
from dedop.proc.sar.processor import L1BProcessor
from pyvc.ext import Recorder

# ---------------------------------------------------------------------------------------- what a record holds
S, B = 'surface', 'closest burst'


def deg(x):
    return tm.div(tm.mul(180, x), tm.PI)


SCALARS = {   # name -> (source, field); both products
    'alt': (S, 'alt_sat'), 'orb_alt_rate': (S, 'alt_rate_sat'),
    'x_pos': (S, 'x_sat'), 'y_pos': (S, 'y_sat'), 'z_pos': (S, 'z_sat'),
    'x_vel': (S, 'x_vel_sat'), 'y_vel': (S, 'y_vel_sat'), 'z_vel': (S, 'z_vel_sat'),
    'uso_cor': (B, 'uso_cor'), 'int_path_cor_ku': (B, 'int_path_cor_ku'), 'agccode_ku': (B, 'agccode_ku'),
    'agc_ku': (B, 'agc_ku'), 'sig0_cal_ku': (B, 'sig0_cal_ku'), 'scale_factor_ku': (S, 'sigma0_scaling_factor'),
    'max_stack': (S, 'stack_max'), 'stdev_stack': (S, 'stack_std'), 'skew_stack': (S, 'stack_skewness'),
    'kurt_stack': (S, 'stack_kurtosis')}
L1B = dict(SCALARS)
for n in ('isp_coarse_time isp_fine_time sral_fine_time flag_time_status nav_bul_status nav_bul_source oper_instr SAR_mode '
          'cl_gain acq_stat dem_eeprom loss_track h0_nav_dem h0_applied cor2_nav_dem cor2_applied dh0 surf_type').split():
    L1B[n] = (B, n)
L1B['seq_count'] = (B, 'source_seq_count')
ANGLES = {'start_look_angle_stack': (S, 'start_look_angle'), 'stop_look_angle_stack': (S, 'stop_look_angle'),
          'start_beam_ang_stack': (S, 'start_beam_angle'), 'stop_beam_ang_stack': (S, 'stop_beam_angle')}
S3 = dict(L1B, nb_stack=(S, 'data_stack_size'))
EXT = dict(L1B, nb_stack=(S, 'n_beams_start_stop'), **ANGLES)
L1BS = dict(SCALARS, nb_stack=(S, 'data_stack_size'), meas_x_pos=(S, 'x_surf'), meas_y_pos=(S, 'y_surf'),
            meas_z_pos=(S, 'z_surf'), roll_sral_mispointing=(B, 'roll_sral_mispointing'),
            pitch_sral_mispointing=(B, 'pitch_sral_mispointing'), yaw_sral_mispointing=(B, 'yaw_sral_mispointing'),
            cog_cor=(B, 'cog_cor'), burst_start_ind=(S, 'start_burst_index'), burst_stop_ind=(S, 'stop_burst_index'),
            **ANGLES)
TABLE = {'s3': S3, 'extended': EXT, 'l1bs': L1BS}
VEC = {'s3': {'beam_ang': lambda k: tm.neg(at('look_angles_surf', k))},
       'extended': {'beam_ang': lambda k: at('beam_angles_surf', k), 'look_ang': lambda k: at('look_angles_surf', k),
                    'stack_mask_vector': lambda k: at('stack_mask_vector_start_stop', k),
                    'stack_scale_factor_ku': lambda k: at('sigma0_scaling_factor_beam', k)},
       'l1bs': {'beam_ang': lambda k: at('beam_angles_start_stop', k)}}


def value(src, f, ci):
    if src is S:
        return scalar('surf.' + f)
    return tm.app('sb.' + f, 'Real', ci)


def vector(E, st, name, n, dim):
    """the vector of length n stored in one record of a variable -> element function"""
    v = st.get(name, [])
    ok = len(v) == 1 and len(v[0][1]) == 1
    E.prove('stored-once/' + name, ok)
    if not ok:
        return lambda k: tm.var('nothing.' + name, 'Real')
    E.prove('extent/' + name, tm.eq(v[0][1][0], n))
    a = v[0][2]
    if not isinstance(a, Arr) or a.ndim != 1:
        raise Unsupported('vector %r' % (a,))
    E.prove('length/' + name, tm.eq(a.shape[0], n))
    return lambda k: a.get([k])


def some_power(E, c, M):
    """a stack with some power: sample (a0, b0) of the stack and sample b0 of the waveform"""
    a0, b0 = skolem(E, 'a0', 0, c.L), skolem(E, 'b0', 0, M)
    z = atc('iq', a0, b0)
    E.assume(tm.Or(tm.lt(0, tm.mul(z.re, z.re)), tm.lt(0, tm.mul(z.im, z.im))))
    E.assume(tm.lt(0, at('waveform', b0)))
    return a0, b0


def make(nm, cls, pre):
    suf = '_%s_echo_sar_ku' % pre

    @contract('C20', 'record-' + nm)
    def rec(E, I):
        """write_record: every variable gets the value of this surface at the next record number"""
        c = Conf(E, I)
        w, ds = writer(E, I, cls, c)
        s, M, ci = product_surface(E, c)
        i0 = tm.var('nc.index', 'Int')
        E.assume(tm.le(0, i0))
        E.prove('starts-at-0', tm.eq(I.getattr(w, 'output_index'), 0))
        I.setattr(w, 'output_index', i0)
        wf = lambda k: at('waveform', k)
        agc = value(B, 'agc_ku', ci)
        b0 = some_power(E, c, M)[1]
        run(I, method(I, w, 'write_record'), s)
        st = stores(E)
        E.prove('next-index', tm.eq(I.getattr(w, 'output_index'), tm.add(i0, 1)))
        for n, v in sorted(st.items()):
            E.prove('record-number/' + n, tm.And(*[tm.eq(x[0], i0) for x in v]))
            E.prove('declared/' + n, n in ds.vars)
        for n, (src, f) in sorted(TABLE[nm].items()):
            E.prove(n, tm.eq(one(E, st, n + suf), value(src, f, ci)))
        for n in ('lat', 'lon'):
            E.prove(n, tm.eq(one(E, st, n + suf), deg(R('surf.%s_surf' % n))))
        E.prove('range', tm.eq(one(E, st, 'range_ku' + suf), tm.div(tm.mul(R('surf.win_delay_surf'), cst('c')), 2)))
        if nm != 's3':
            for n in ('roll', 'pitch', 'yaw'):
                E.prove(n, tm.eq(one(E, st, n + '_sat_pointing' + suf), deg(R('surf.%s_sat' % n))))
        if pre == 'l1b':
            E.prove('agc_cor', tm.eq(one(E, st, 'agc_cor_ku' + suf), tm.sub(agc, value(B, 'agccode_ku', ci))))
        else:
            E.prove('number', tm.eq(one(E, st, 'records_count' + suf), tm.var('surf._surface_counter', 'Int')))
            E.prove('surf_type', tm.eq(one(E, st, 'surf_type' + suf), value(B, 'surf_type', ci)))
        k = skolem(E, 'k', 0, c.L)
        for n, f in sorted(VEC[nm].items()):
            E.prove(n, tm.eq(vector(E, st, n + suf, c.L, c.L)(k), f(k)))
        m = skolem(E, 'm', 0, M)
        E.assume(tm.le(0, wf(m)))
        got = vector(E, st, 'i2q2_meas_ku' + suf, M, M)(m)
        if nm == 's3':
            E.prove('waveform', tm.eq(got, wf(m)))
        elif nm == 'extended':
            E.instantiate(b0, m)
            f = one(E, st, 'i2q2_scale_factor' + suf)
            E.prove('waveform-scale', tm.lt(0, f))
            E.prove('waveform', tm.eq(tm.mul(got, f), wf(m)))
            E.prove('waveform-normalised', tm.And(tm.le(0, got), tm.le(got, 1)))
        else:
            E.prove('waveform', tm.eq(got, tm.mul(wf(m), tm.pow10(tm.div(tm.neg(agc), 10)))))
    return rec


for x in WRITERS:
    make(*x)


@contract('C20', 'record-l1bs-samples')
def samples(E, I):
    """the I and Q samples of the stack times their scale factor are the stack"""
    cls, suf = WRITERS[2][1], '_l1bs_echo_sar_ku'
    c = Conf(E, I)
    w, ds = writer(E, I, cls, c)
    s, M, ci = product_surface(E, c)
    a0, b0 = some_power(E, c, M)
    E.assume([tm.eq(tm.var('surf.surface_type', 'Int'), 0), tm.eq(R('surf.time_surf'), R('surf.prev_tai')),
              tm.lt(R('surf.prev_utc_secs'), R('surf.curr_day_length'))])
    run(I, method(I, w, 'write_record'), s)
    st = stores(E)
    f = one(E, st, 'iq_scale_factor' + suf)
    k, m = skolem(E, 'k', 0, c.L), skolem(E, 'm', 0, M)
    E.instantiate(a0, k)
    E.instantiate(b0, m)
    E.prove('iq-scale', tm.lt(0, f))
    for n, part in (('i', 're'), ('q', 'im')):
        v = st.get(n + '_echoes_ku' + suf, [])
        ok = len(v) == 1 and len(v[0][1]) == 2
        E.prove('stored-once/' + n, ok)
        if not ok:
            continue
        E.prove('record-number/' + n, tm.eq(v[0][0], 0))
        a = v[0][2]
        if not isinstance(a, Arr) or a.ndim != 2:
            raise Unsupported('%r' % (a,))
        for j, d in enumerate((c.L, M)):
            E.prove('extent%d/%s' % (j, n), tm.And(tm.eq(v[0][1][j], d), tm.eq(a.shape[j], d)))
        got = a.get([k, m])
        E.prove(n, tm.eq(tm.mul(got, f), getattr(atc('iq', k, m), part)))
        E.prove(n + '-range', tm.And(tm.le(-127, got), tm.le(got, 127)))


# ---------------------------------------------------------------------------------------- declared storage
LIM = {'i1': (-2 ** 7, 2 ** 7 - 1), 'u1': (0, 2 ** 8 - 1), 'i2': (-2 ** 15, 2 ** 15 - 1), 'u2': (0, 2 ** 16 - 1),
       'i4': (-2 ** 31, 2 ** 31 - 1), 'u4': (0, 2 ** 32 - 1), 'i8': (-2 ** 63, 2 ** 63 - 1), 'u8': (0, 2 ** 64 - 1)}
# the values a variable must be able to hold, the coarsest acceptable step, and the unit (a prefix)
HALF_BEAM = '.03'
RANGES = {
    'UTC_day': ('0', '32000', '1', 'days since 2000-01-01'), 'lat': ('-90', '90', '.00001', 'degrees'),
    'lon': ('-180', '360', '.00001', 'degrees'), 'alt': ('600000', '900000', '.01', 'm'),
    'orb_alt_rate': ('-300', '300', '.1', None), 'range_ku': ('600000', '900000', '.01', 'm'),
    'uso_cor': ('-1000', '1000', '.01', 'm'), 'int_path_cor_ku': ('-1000', '1000', '.01', 'm'),
    'agc_ku': ('-200', '200', '.1', 'dB'), 'agc_cor_ku': ('-200', '200', '.1', 'dB'),
    'agccode_ku': ('0', '62', '1', 'dB'), 'sig0_cal_ku': ('-200', '200', '.1', 'dB'),
    'scale_factor_ku': ('-500', '500', '.1', 'dB'), 'nb_stack': ('0', '1000', '1', 'count'),
    'max_stack': ('0', '100000', '.1', 'FFT power unit'), 'stdev_stack': ('0', '1000', '.0001', 'rad'),
    'skew_stack': ('-1000', '1000', '.0001', 'count'), 'kurt_stack': ('-1000', '1000', '.0001', 'count'),
    'roll_sat_pointing': ('-3', '3', '.001', 'degrees'), 'pitch_sat_pointing': ('-3', '3', '.001', 'degrees'),
    'yaw_sat_pointing': ('-3', '3', '.001', 'degrees'),
    'start_look_angle_stack': ('-.03', '.03', '.00001', 'rad'), 'stop_look_angle_stack': ('-.03', '.03', '.00001', 'rad'),
    'start_beam_ang_stack': ('1.5408', '1.6008', '.00001', 'rad'), 'stop_beam_ang_stack': ('1.5408', '1.6008', '.00001', 'rad'),
    'stack_mask_vector': ('0', '32000', '1', 'count'), 'stack_scale_factor_ku': ('-500', '500', '.1', 'dB'),
    'records_count': ('0', '1000000', '1', 'count'), 'cog_cor': ('-3', '3', '.01', 'm'),
    'burst_start_ind': ('0', '1000000', '1', 'count'), 'burst_stop_ind': ('0', '1000000', '1', 'count'),
    'i_echoes_ku': ('-127', '127', '1', 'count'), 'q_echoes_ku': ('-127', '127', '1', 'count'),
    'seq_count': ('0', '16383', '1', None), 'surf_type': ('0', '3', '1', None),
    'isp_coarse_time': ('0', '1000000000', '1', None), 'isp_fine_time': ('0', '16777215', '1', None),
    'sral_fine_time': ('0', '1000000000', '1', None), 'h0_nav_dem': ('0', '100000000', '1', None),
    'h0_applied': ('0', '100000000', '1', None), 'cor2_nav_dem': ('-32000', '32000', '1', None),
    'cor2_applied': ('-32000', '32000', '1', None), 'dh0': ('-1000000', '1000000', '1', None)}
OWN = {'s3': {'beam_ang': ('-.03', '.03', '.00001', 'rad'), 'i2q2_meas_ku': ('0', '1000000', '.01', 'count')},
       'extended': {'beam_ang': ('1.5408', '1.6008', '.00001', 'rad'), 'look_ang': ('-.03', '.03', '.00001', 'rad'),
                    'i2q2_meas_ku': ('0', '1', '.000000001', 'count')},
       'l1bs': {'beam_ang': ('1.5408', '1.6008', '.00001', 'rad'), 'i2q2_meas_ku': ('0', '1000000', '.01', 'count')}}
REALS = ('time', 'UTC_sec', 'GPS_time', 'x_pos', 'y_pos', 'z_pos', 'x_vel', 'y_vel', 'z_vel', 'meas_x_pos', 'meas_y_pos',
         'meas_z_pos', 'i2q2_scale_factor', 'iq_scale_factor')
WAVE, STACK = ('i2q2_meas_ku',), ('beam_ang', 'look_ang', 'stack_mask_vector', 'stack_scale_factor_ku')


def frac(x):
    return x if isinstance(x, Fraction) else Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def plain(v):
    c = tm.as_const(v) if isinstance(v, T) else v
    return c


def declare(nm, cls, pre):
    @contract('C20', 'storage-' + nm)
    def storage(E, I):
        """every variable: one row per record, a place per look or sample, and a packing that holds its range of values
        within the step, clear of the fill value"""
        c = Conf(E, I)
        w, ds = writer(E, I, cls, c)
        suf = '_%s_echo_sar_ku' % pre
        M = tm.mul(c.N, c.zp)

        def dims(n, v, want):
            d = [ds.dims[x].size for x in v.dims if x in ds.dims]
            E.prove(n + '/rows', len(d) == len(v.dims) == 1 + len(want) and d[0] is None)
            if len(d) == 1 + len(want):
                for i, s in enumerate(want):
                    E.prove(n + '/places%d' % i, tm.eq(d[1 + i], s) if d[1 + i] is not None else False)
        table = dict(RANGES, **OWN[nm])
        for full, v in sorted(ds.vars.items()):
            n = full[:-len(suf)] if full.endswith(suf) else full
            dims(n, v, (M,) if n in WAVE else (c.L,) if n in STACK else (c.L, M) if n in ('i_echoes_ku', 'q_echoes_ku')
                 else v.dims[1:] and [ds.dims[x].size for x in v.dims[1:]])
            kind = DT.get(v.dtype)
            if n in REALS:
                E.prove(n + '/double', kind == 'f8' and 'scale_factor' not in v.attrs)
            if n not in table:
                continue
            lo, hi, step, unit = table[n]
            lo, hi, step = Fraction(lo), Fraction(hi), Fraction(step)
            sc, off = [frac(plain(v.attrs.get(k, d))) for k, d in (('scale_factor', 1), ('add_offset', 0))]
            E.prove(n + '/step', 0 < sc <= step, detail='%s' % sc)
            if kind == 'f8':
                continue
            l, h = round((lo - off) / sc), round((hi - off) / sc)
            E.prove(n + '/fits', LIM[kind][0] <= l and h <= LIM[kind][1], detail='%s..%s in %s' % (l, h, kind))
            fill = plain(v.props.get('fill_value'))
            E.prove(n + '/fill', fill is None or not l <= fill <= h, detail='%s' % fill)
            if unit is not None:
                u = v.attrs.get('units')
                u = u.decode() if isinstance(u, bytes) else u
                E.prove(n + '/unit', isinstance(u, str) and u.startswith(unit), detail='%r' % (u,))
    return storage


for x in WRITERS:
    declare(*x)


# ---------------------------------------------------------------------------------------- from the steps to the surface
def same(*names):
    return {n: n for n in names}


STEPS = {
    'stack_gathering': same('data_stack_size', 'stack_bursts', 'beams_surf', 'beam_angles_surf', 't0_surf',
                            'doppler_angles_surf', 'look_angles_surf', 'pointing_angles_surf', 'look_index_surf',
                            'look_counter_surf', 'closest_burst_index'),
    'geometry_corrections': same('slant_range_corrections', 'range_sat_surf', 'doppler_corrections',
                                 'win_delay_corrections', 'beams_geo_corr'),
    'range_compression': {'beams_range_compr': 'beam_range_compr', 'beams_range_compr_iq': 'beam_range_compr_iq'},
    'stack_masking': same('beams_masked', 'stack_mask_vector', 'stack_mask'),
    'multilooking': same('stack_max', 'stack_std', 'stack_skewness', 'stack_kurtosis', 'n_beams_start_stop',
                         'start_look_angle', 'stop_look_angle', 'start_doppler_angle', 'stop_doppler_angle',
                         'start_pointing_angle', 'stop_pointing_angle', 'start_beam_angle', 'stop_beam_angle',
                         'start_burst_index', 'stop_burst_index', 'stack_mask_vector_start_stop',
                         'beam_angles_start_stop', 'look_angles_start_stop', 'waveform_multilooked'),
    'sigma_zero_scaling': {'sigma0_scaling_factor': '(returned)', 'sigma0_scaling_factor_beam': 'sigma0_scaling_factor_beam'}}
ALG = {'sigma_zero_scaling': 'sigma_zero_algorithm'}


class Step(Ext):
    """an algorithm object: its results are what they are after its own call for this surface"""

    def __init__(self, E):
        self.E = E

    def attr(self, I, name):
        return tm.var('%s.%s' % ('new' if self.E.ghost.get('called') else 'stale', name), 'Real')

    def call(self, I, args, kw):
        self.E.ghost['called'] = self.E.ghost.get('called', ()) + ((args, kw),)
        return tm.var('new.(returned)', 'Real')


def step(nm, want):
    @contract('C20', 'step-' + nm)
    def st(E, I):
        """the step runs its algorithm on the surface, once, and stores the results of that run under their own names"""
        c = Conf(E, I)
        alg = Step(E)
        p = SObj(E, L1BProcessor, 'processor', lazy=lambda k: {
            ALG.get(nm, nm + '_algorithm'): alg, 'cst': c.cst, 'chd': c.chd, 'cnf': c.cnf}.get(k, SDict.MISSING))
        s = surface(E, c)
        run(I, method(I, p, nm), s)
        calls = E.ghost.get('called', ())
        given = list(calls[0][0]) + list(calls[0][1].values()) if len(calls) == 1 else []
        E.prove('runs-once', any(x is s for x in given))
        if nm in ('geometry_corrections', 'sigma_zero_scaling'):
            lam = I.getattr(c.chd, 'wv_length_ku')
            E.prove('wavelength', tm.Or(*[tm.eq(x, lam) for x in given if isinstance(x, (T, int, Fraction))]))
        for n, src in sorted(want.items()):
            E.prove(n, tm.eq(I.getattr(s, n), tm.var('new.' + src, 'Real')))
    return st


for x in STEPS.items():
    step(*x)


from .procloop import whole_run

# every record is written with the results of all steps stored in the surface (in the real main loop)
contract('C20', 'run', max_paths=20000)(whole_run(('C20',)))
