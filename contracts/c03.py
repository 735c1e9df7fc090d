from .base import *
from . import geo
from dedop.data.input.netcdf_reader import NetCDFReader
from dedop.data.input.l1a import L1ADataset
from dedop.data.input.l1a.enums import L1AVariables as V
from dedop.model.l1a_processing_data import PacketPid
from dedop.proc.functions import angle_between

T = '_l1a_echo_sar_ku'
# burst field -> product variable holding the same value
PLAIN = {'time_sar_ku': 'time', 'isp_coarse_time': 'isp_coarse_time', 'isp_fine_time': 'isp_fine_time',
         'sral_fine_time': 'sral_fine_time', 'days': 'UTC_day', 'seconds': 'UTC_sec', 'burst_sar_ku': 'burst_count_prod',
         'alt_sar_sat': 'alt', 'alt_rate_sat_sar': 'orb_alt_rate', 'roll_sral_mispointing': 'roll_sral_mispointing',
         'pitch_sral_mispointing': 'pitch_sral_mispointing', 'yaw_sral_mispointing': 'yaw_sral_mispointing',
         'cog_cor': 'cog_cor', 'h0_sar': 'h0_applied', 'uso_cor': 'uso_cor', 'cor2_sar': 'cor2_applied',
         'flag_time_status': 'flag_time_status', 'nav_bul_status': 'nav_bul_status', 'nav_bul_source': 'nav_bul_source',
         'source_seq_count': 'seq_count', 'oper_instr': 'oper_instr', 'SAR_mode': 'SAR_mode', 'cl_gain': 'cl_gain',
         'acq_stat': 'acq_stat', 'dem_eeprom': 'dem_eeprom', 'loss_track': 'loss_track', 'h0_nav_dem': 'h0_nav_dem',
         'h0_applied': 'h0_applied', 'cor2_nav_dem': 'cor2_nav_dem', 'cor2_applied': 'cor2_applied', 'dh0': 'dh0',
         'agccode_ku': 'agccode_ku', 'range_ku': 'range_ku', 'int_path_cor_ku': 'int_path_cor_ku', 'agc_ku': 'agc_ku',
         'sig0_cal_ku': 'sig0_cal_ku', 'surf_type': 'surf_type'}
DEGREES = {'lat_sar_sat': 'lat', 'lon_sar_sat': 'lon', 'roll_sar': 'roll_sral_mispointing',
           'pitch_sar': 'pitch_sral_mispointing', 'yaw_sar': 'yaw_sral_mispointing'}


def val(n, i):
    return tm.app('l1a.' + n, 'Real', tm.t(i))


def dataset(E, I, c, extra=None):
    """a data set whose reader delivers the stored values (block-wise reading: C02)"""
    ntab = tm.var('tables', 'Int')
    E.assume(tm.lt(0, ntab))
    rows = {'i_meas_ku': (c.P, c.N), 'q_meas_ku': (c.P, c.N), 'burst_power_cor_ku': (c.P,),
            'burst_phase_cor_ku': (c.P,), 'gprw_meas_ku': (ntab, c.N)}
    rd = SObj(E, NetCDFReader, 'reader', lazy=lambda k: SDict.MISSING)

    def get(I, args, kw):
        v, i = args[1], tm.t(args[2])
        n = v.value
        n = n[:-len(T)] if n.endswith(T) else n
        if n in rows:
            return Arr(E, rows[n], 'real', lambda idx: tm.app('l1a.' + n, 'Real', i, *idx))
        return val(n, i)
    E.contracts[NetCDFReader.get_value] = get
    d = {'_dset': rd, 'cst': c.cst, 'chd': c.chd, 'cnf': c.cnf}
    d.update(extra or {})
    return SObj(E, L1ADataset, 'dataset', lazy=lambda k: d.get(k, SDict.MISSING)), ntab


@contract('C03', 'record')
def record(E, I):
    c = Conf(E, I)
    geo.use(E, I)
    ds, ntab = dataset(E, I, c)
    tab = I.getattr(c.cnf, 'flag_cal2_table_index')
    E.assume([tm.le(0, tab), tm.lt(tab, ntab)])
    positive(E, cst('c'))
    i = tm.var('index', 'Int')
    E.assume(tm.le(0, i))
    E.contracts[L1AProcessingData.compute_doppler_angle] = lambda I, a, k: None
    I.entry = True
    p = I.getitem(ds, i)
    g = lambda n: I.getattr(p, n)
    rad = lambda x: tm.div(tm.mul(x, tm.PI), 180)
    for n, v in PLAIN.items():
        E.prove(n, tm.eq(g(n), val(v, i)))
    for n, v in DEGREES.items():
        E.prove(n, tm.eq(g(n), rad(val(v, i))))
    for x in 'xyz':
        E.prove(x + '_vel', tm.eq(g(x + '_vel_sat_sar'), val(x + '_vel', i)))
    E.prove('kind', I.compare('==', g('isp_pid'), PacketPid.echo_sar) is True if not isinstance(g('isp_pid'), PacketPid) else g('isp_pid') is PacketPid.echo_sar)
    E.prove('number', tm.eq(g('counter'), i))
    E.prove('sequence', tm.eq(g('seq_count_sar'), i))
    E.prove('pri', tm.eq(g('pri_sar_pre_dat'), tm.div(1, chd('prf_sar'))))
    E.prove('t0', tm.eq(g('t0_sar'), I.getattr(c.chd, 't0_nom')))
    wd = tm.div(tm.mul(2, tm.add(val('range_ku', i), tm.mul(tm.cos(rad(val('pitch_sat_pointing', i))), val('cog_cor', i)))), cst('c'))
    E.prove('window-delay', tm.eq(g('win_delay_sar_ku'), wd))
    # complex samples, gain in dB removed (20 log10)
    w = g('waveform_cor_sar')
    a, s = skolem(E, 'pulse', 0, c.P), skolem(E, 'sample', 0, c.N)
    E.prove('waveform.shape', tm.And(tm.eq(w.shape[0], c.P), tm.eq(w.shape[1], c.N)) if w.ndim == 2 else False)
    gain = tm.pow10(tm.div(val('agc_ku', i), 20))
    ceq(E, 'waveform', w.get([a, s]), Cx(tm.mul(gain, tm.app('l1a.i_meas_ku', 'Real', i, a, s)),
                                         tm.mul(gain, tm.app('l1a.q_meas_ku', 'Real', i, a, s))))
    E.prove('cal1.power', tm.eq(g('cal1_power').get([a]), tm.app('l1a.burst_power_cor_ku', 'Real', i, a)))
    E.prove('cal1.phase', tm.eq(g('cal1_phase').get([a]), tm.app('l1a.burst_phase_cor_ku', 'Real', i, a)))
    E.prove('cal2.shape', tm.eq(g('cal2_array').shape[0], c.N) if g('cal2_array').ndim == 1 else False)
    E.prove('cal2', tm.eq(g('cal2_array').get([s]), tm.app('l1a.gprw_meas_ku', 'Real', i, tab, s)))
    la, lo, al = rad(val('lat', i)), rad(val('lon', i)), val('alt', i)
    for x, q in zip('xyz', geo.ecef(la, lo, al)):
        E.prove(x + '_sar_sat', tm.eq(g(x + '_sar_sat'), q))
    for x, q in zip('xyz', geo.ecef(la, lo, tm.sub(al, tm.div(tm.mul(wd, cst('c')), 2)))):
        E.prove(x + '_sar_surf', tm.eq(g(x + '_sar_surf'), q))


@contract('C03', 'speed')
def speed(E, I):
    c = Conf(E, I)
    b = burst(E, c, 'cur')
    v = [tm.var('cur.vel%d' % j, 'Real') for j in range(3)]
    I.entry = True
    E.prove('norm', tm.eq(I.getattr(b, 'vel_sat_sar_norm'), tm.sqrt(geo.dot(v, v))))
    E.prove('norm-again', tm.eq(I.getattr(b, 'vel_sat_sar_norm'), tm.sqrt(geo.dot(v, v))))


@contract('C03', 'location')
def location(E, I):
    """the position follows from latitude, longitude and altitude, the surface point lies vertically below"""
    c = Conf(E, I)
    geo.use(E, I)
    positive(E, cst('c'))
    b = burst(E, c, 'cur')
    R = lambda n: tm.var('cur.' + n, 'Real')
    names = {x + s for x in 'xyz' for s in ('_sar_sat', '_sar_surf')}
    framed(E, I, method(I, b, 'compute_location_sar_surf'), (), [(I.getattr(b, '_data'), names)])
    la, lo, al = R('lat_sar_sat'), R('lon_sar_sat'), R('alt_sar_sat')
    low = tm.sub(al, tm.div(tm.mul(R('win_delay_sar_ku'), cst('c')), 2))
    for h, s in ((al, '_sar_sat'), (low, '_sar_surf')):
        for x, q in zip('xyz', geo.ecef(la, lo, h)):
            E.prove(x + s, tm.eq(I.getattr(b, x + s), q))


def cross(a, b):
    return [tm.sub(tm.mul(a[1], b[2]), tm.mul(a[2], b[1])), tm.sub(tm.mul(a[2], b[0]), tm.mul(a[0], b[2])),
            tm.sub(tm.mul(a[0], b[1]), tm.mul(a[1], b[0]))]


@contract('C03', 'doppler-angle')
def doppler(E, I):
    """angle between the velocity and its part perpendicular to the local vertical, negative if acute"""
    c = Conf(E, I)
    geo.use(E, I)
    b = burst(E, c, 'cur')
    R = lambda n: tm.var('cur.' + n, 'Real')
    framed(E, I, method(I, b, 'compute_doppler_angle'), (), [(I.getattr(b, '_data'), {'doppler_angle_sar_sat'})])
    q = geo.ecef(R('lat_sar_sat'), R('lon_sar_sat'), tm.sub(R('alt_sar_sat'), chd('mean_sat_alt')))
    n = [tm.sub(x, R(k + '_sar_sat')) for x, k in zip(q, 'xyz')]
    v = [R('vel%d' % j) for j in range(3)]
    a = geo.angle(E, v, cross(cross(n, v), n))
    want = tm.neg(a) if E.branch(tm.lt(a, tm.div(tm.PI, 2))) else a
    E.prove('angle', tm.eq(I.getattr(b, 'doppler_angle_sar_sat'), want))
