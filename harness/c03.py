from .l1a import *
from .track import ecef, angle
from dedop.data.input.l1a import L1ADataset

PLAIN = dict(time_sar_ku='time', isp_coarse_time='isp_coarse_time', isp_fine_time='isp_fine_time', sral_fine_time='sral_fine_time', days='UTC_day',
             seconds='UTC_sec', burst_sar_ku='burst_count_prod', alt_sar_sat='alt', alt_rate_sat_sar='orb_alt_rate', x_vel_sat_sar='x_vel',
             y_vel_sat_sar='y_vel', z_vel_sat_sar='z_vel', roll_sral_mispointing='roll_sral_mispointing',
             pitch_sral_mispointing='pitch_sral_mispointing', yaw_sral_mispointing='yaw_sral_mispointing', cog_cor='cog_cor', h0_sar='h0_applied',
             uso_cor='uso_cor', cor2_sar='cor2_applied', flag_time_status='flag_time_status', nav_bul_status='nav_bul_status',
             nav_bul_source='nav_bul_source', source_seq_count='seq_count', oper_instr='oper_instr', SAR_mode='SAR_mode', cl_gain='cl_gain',
             acq_stat='acq_stat', dem_eeprom='dem_eeprom', loss_track='loss_track', h0_nav_dem='h0_nav_dem', h0_applied='h0_applied',
             cor2_nav_dem='cor2_nav_dem', cor2_applied='cor2_applied', dh0='dh0', agccode_ku='agccode_ku', range_ku='range_ku',
             int_path_cor_ku='int_path_cor_ku', agc_ku='agc_ku', sig0_cal_ku='sig0_cal_ku', surf_type='surf_type',
             cal1_power='burst_power_cor_ku', cal1_phase='burst_phase_cor_ku')
DEG = dict(lat_sar_sat='lat', lon_sar_sat='lon', roll_sar='roll_sral_mispointing', pitch_sar='pitch_sral_mispointing', yaw_sar='yaw_sral_mispointing')


@case('C03', 'record', 12, 200)
def record(rng, scratch):
    n = int(rng.integers(1, 50))
    tab = int(rng.integers(0, 3))
    chd, cst, cnf = mkconf(cnf={'flag_cal2_table_index': tab})
    path = os.path.join(scratch, 'c03.nc')
    u = lambda a, b: rng.uniform(a, b, n)
    make(path, n, rng, {'lat': u(-80, 80), 'lon': u(-179, 179), 'alt': u(7e5, 9e5), 'range_ku': u(7e5, 9e5), 'cog_cor': u(-3, 3),
                        'pitch_sat_pointing': u(-3, 3), 'roll_sral_mispointing': u(-3, 3), 'pitch_sral_mispointing': u(-3, 3),
                        'yaw_sral_mispointing': u(-3, 3), 'agc_ku': u(-60, 60), 'x_vel': u(-5e3, 5e3), 'y_vel': u(-5e3, 5e3), 'z_vel': u(-5e3, 5e3)})
    want = stored(path)
    ds = L1ADataset(path, cst=cst, chd=chd, cnf=cnf)
    try:
        for i in ([n - 1, 0] + [int(rng.integers(n)) for _ in range(4)]):
            p = ds[i]
            f = lambda v: want[v + T][i]
            d = '(record %d of %d)' % (i, n)
            for k, v in PLAIN.items():
                close(np.asarray(getattr(p, k), dtype=float), np.asarray(f(v), dtype=float), '%s %s' % (k, d), rtol=1e-12)
            for k, v in DEG.items():
                close(getattr(p, k), np.radians(f(v)), '%s %s' % (k, d), rtol=1e-12)
            wd = 2 * (f('range_ku') + np.cos(np.radians(f('pitch_sat_pointing'))) * f('cog_cor')) / cst.c
            close(p.win_delay_sar_ku, wd, 'window delay ' + d, rtol=1e-13)
            close(np.asarray(p.waveform_cor_sar), (f('i_meas_ku') + 1j * f('q_meas_ku')) * 10. ** (f('agc_ku') / 20), 'waveform ' + d)
            close(np.asarray(p.cal2_array, dtype=float), f('gprw_meas_ku')[tab], 'cal2 ' + d)
            la, lo, al = np.radians(f('lat')), np.radians(f('lon')), f('alt')
            q, s = ecef(la, lo, al, cst), ecef(la, lo, al - wd * cst.c / 2, cst)
            for j, x in enumerate('xyz'):
                close(getattr(p, x + '_sar_sat'), q[j], x + ' position ' + d, atol=1e-3)
                close(getattr(p, x + '_sar_surf'), s[j], x + ' surface ' + d, atol=1e-3)
            v = np.array([f(x + '_vel') for x in 'xyz'])
            nv = ecef(la, lo, al - chd.mean_sat_alt, cst) - q
            a = angle(v, np.cross(np.cross(nv, v), nv))
            close(p.doppler_angle_sar_sat, -a if a < np.pi / 2 else a, 'doppler angle ' + d, atol=1e-6)
            close(p.vel_sat_sar_norm, np.sqrt((v ** 2).sum()), 'speed ' + d)
            expect(p.counter == i and p.seq_count_sar == i, 'record number %s', d)
    finally:
        ds.close()
        os.unlink(path)
    return 'n=%d' % n
