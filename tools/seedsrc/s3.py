A = 'dedop/proc/sar/algorithms/'
TRK = '''
def ecef(la, lo, al, cst):
    a, b = cst.semi_major_axis, cst.semi_minor_axis
    e2 = 1 - (b / a) ** 2; n = a / np.sqrt(1 - e2 * np.sin(la) ** 2)
    return np.array([(n + al) * np.cos(la) * np.cos(lo), (n + al) * np.cos(la) * np.sin(lo), (n * (1 - e2) + al) * np.sin(la)])
def burst(k, chd, cst, dt=.013, lon0=.3, **over):
    f = lambda t: (.2 + .001 * t, lon0 + .0002 * t, 8e5 + 5 * t)
    t = k * dt; la, lo, al = f(t); wd = 2 * (al - 100.) / cst.c
    p, q = ecef(la, lo, al, cst), ecef(la, lo, 100., cst)
    v = (ecef(*f(t + .01), cst) - ecef(*f(t - .01), cst)) / .02
    d = dict(time_sar_ku=2e8 + t, lat_sar_sat=la, lon_sar_sat=lo, alt_sar_sat=al, win_delay_sar_ku=wd, x_sar_sat=p[0], y_sar_sat=p[1], z_sar_sat=p[2],
             x_sar_surf=q[0], y_sar_surf=q[1], z_sar_surf=q[2], x_vel_sat_sar=v[0], y_vel_sat_sar=v[1], z_vel_sat_sar=v[2], days=5000, seconds=100. + t,
             roll_sar=.001 * k, pitch_sar=.002, yaw_sar=.003, alt_rate_sat_sar=5. + .1 * k, isp_pid=PacketPid.echo_sar)
    d.update(over)
    return L1AProcessingData(cst, chd, k, **d)
from dedop.model import PacketPid
from dedop.proc.sar.algorithms import SurfaceLocationAlgorithm, StackGatheringAlgorithm, BeamAnglesAlgorithm, MultilookingAlgorithm, Sigma0ScalingFactorAlgorithm
def chain(chd, cst, cnf, bursts):
    alg = SurfaceLocationAlgorithm(chd, cst, cnf); surfs, bs = [], []
    for b in bursts:
        bs.append(b)
        if alg(surfs, bs):
            s = SurfaceData(cst, chd, len(surfs), **alg.get_surface())
            s.compute_surf_sat_vector(); s.compute_angular_azimuth_beam_resolution(chd.pri_sar)
            surfs.append(s)
    return surfs
'''
SEEDS = [
 dict(id='C07-yaw-source', property='C07', edits=[(A + 'surface_locations.py', '''            alpha * (isp_curr.yaw_sar - isp_prev.yaw_sar)''',
   '''            alpha * (isp_curr.yaw_sar - isp_prev.yaw_sar) if self.pitch_sat else 0.''')],
   needs='an interpolated pitch of exactly zero', breaks='the yaw of the surface is lost when the pitch is zero', demo=TRK + '''
chd, cst, cnf = mkconf(cnf=dict(flag_surface_focusing=False))
s = chain(chd, cst, cnf, [burst(k, chd, cst, pitch_sar=0.) for k in range(12)])
same([x.yaw_sat for x in s], [.003] * len(s), 'yaw')
'''),
 dict(id='C07-equal-angle', property='C07', edits=[(A + 'surface_locations.py',
   'self.x_vel_sat = isp_prev.x_vel_sat_sar + \\\n            alpha * (isp_curr.x_vel_sat_sar - isp_prev.x_vel_sat_sar)',
   'self.x_vel_sat = isp_prev.x_vel_sat_sar + \\\n            min(alpha, 1. - alpha) * (isp_curr.x_vel_sat_sar - isp_prev.x_vel_sat_sar)')],
   needs='a new surface nearer to the later burst, with a changing velocity', breaks='the x velocity of the surface is interpolated at the mirrored position', demo=TRK + '''
chd, cst, cnf = mkconf(cnf=dict(flag_surface_focusing=False))
for dt in (.011, .013, .017, .019, .023, .029):
    bs = [burst(k, chd, cst, dt, x_vel_sat_sar=1000. + 50 * k) for k in range(40)]
    for s in chain(chd, cst, cnf, bs)[1:]:
        same(s.x_vel_sat, 1000. + 50 * (s.time_surf - 2e8) / dt, 'x velocity', 1e-3)
'''),
 dict(id='C08-off-track', property='C08', edits=[(A + 'surface_locations.py',
   'new_dist - surfaces[-1].focus_target_distance > 0:', 'new_dist - surfaces[-1].focus_target_distance > 0 and surfaces[-1].focus_target_distance < new_dist / 2:')],
   needs='a target some way off the track', breaks='no surface is focused when the target is not right below the track', demo=TRK + '''
c0 = mkconf()[1]; chd0 = mkconf()[0]
p = burst(20, chd0, c0); lat, lon = float(p.lat_sar_sat), float(p.lon_sar_sat)
chd, cst, cnf = mkconf(cnf=dict(flag_surface_focusing=True, surface_focusing_lat=np.degrees(lat), surface_focusing_lon=np.degrees(lon) + .05, surface_focusing_alt=0.))
s = chain(chd, cst, cnf, [burst(k, chd, cst) for k in range(45)])
same(sum(bool(getattr(x, 'target_focused', False)) for x in s), 1, 'focused surfaces')
'''),
 dict(id='C09-first-in-list', property='C09', edits=[('dedop/proc/sar/processor.py', '''                    curr_surface.add_stack_burst(packet)

                    break
''', '''                    if not curr_surface.stack_all_bursts or packet is not self.source_isps[0]:
                        curr_surface.add_stack_burst(packet)

                    break
''')], needs='the oldest queued burst seeing a surface that other bursts have seen', breaks='the burst is missing while its beam index is recorded', demo=TRK + '''
from dedop.proc.sar.processor import L1BProcessor
chd, cst, cnf = mkconf()
p = L1BProcessor.__new__(L1BProcessor)
p.chd, p.cst, p.cnf, p._surfaces, p._packets = chd, cst, cnf, [], []
p.beam_angles_algorithm = BeamAnglesAlgorithm(chd, cst, cnf); p.beam_angles_list_size_prev = p.beam_angles_trend_prev = -1
b = [burst(k, chd, cst) for k in range(3)]
q = ecef(.2, .3, 0., cst)
s = SurfaceData(cst, chd, 0, x_surf=q[0], y_surf=q[1], z_surf=q[2])
p._packets = [b[1], b[2]]
for x in (b[0], b[1], b[2]):
    x.compute_doppler_angle(); p.beam_angles([s], x, s)
same(len(s.stack_all_bursts), len(s.stack_all_beams_indices), 'bursts and beam indices')
'''),
 dict(id='C09-overflow', property='C09', edits=[(A + 'beam_angles.py', '''                    self.beam_angles.pop(0)
                    self.surfaces_seen.pop(0)''', '''                    self.beam_angles.pop(0)
                    self.surfaces_seen.pop(-1)''')], needs='more visible surfaces than pulses in a burst', breaks='angles are matched with the wrong surfaces', demo=TRK + '''
chd, cst, cnf = mkconf(chd=dict(n_ku_pulses_burst=2))
b = burst(0, chd, cst); b.compute_doppler_angle()
ss = []
for k in range(4):
    q = ecef(.2 + 2e-6 * k, .3, 0., cst); ss.append(SurfaceData(cst, chd, k, x_surf=q[0], y_surf=q[1], z_surf=q[2]))
a = BeamAnglesAlgorithm(chd, cst, cnf); a(ss, b, ss[0])
same(a.surfaces_seen, [2, 3], 'surfaces seen')
'''),
 dict(id='C10-equal-size', property='C10', edits=[(A + 'stack_gathering.py', 'working_surface_location.stack_all_beams_indices_abs[stack_index + stack_begin_offset]',
   'working_surface_location.stack_all_beams_indices_abs[stack_index + stack_elements_to_remove // 2]')],
   needs='more contributing bursts than looks, not symmetric about nadir', breaks='look indices belong to other looks', demo=TRK + '''
chd, cst, cnf = mkconf(chd=dict(n_samples_sar=2, n_ku_pulses_burst=4), cnf=dict(n_looks_stack=3))
bs = [burst(k, chd, cst, beams_focused=np.zeros((4, 2), complex), beam_angles_list=[np.pi / 2 + .001 * (k - 1)], doppler_angle_sar_sat=0., t0_sar=3e-9) for k in range(8)]
s = SurfaceData(cst, chd, 0); s.stack_all_bursts, s.stack_all_beams_indices, s.stack_all_beams_indices_abs = bs, [0] * 8, list(range(8))
a = StackGatheringAlgorithm(chd, cst, cnf); a(s)
same(a.look_index_surf, [0, 1, 2], 'look indices')
'''),
 dict(id='C10-doppler-order', property='C10', edits=[(A + 'stack_gathering.py', 'np.abs(look_angles_all)\n', 'np.abs(look_angles_all - np.mean(look_angles_all))\n')],
   needs='a contributing set that is not symmetric about nadir', breaks='the stack is centred on the set instead of nadir', demo=TRK + '''
chd, cst, cnf = mkconf(chd=dict(n_samples_sar=2, n_ku_pulses_burst=4), cnf=dict(n_looks_stack=3))
bs = [burst(k, chd, cst, beams_focused=np.zeros((4, 2), complex), beam_angles_list=[np.pi / 2 + .001 * (k - 1)], doppler_angle_sar_sat=0., t0_sar=3e-9) for k in range(8)]
s = SurfaceData(cst, chd, 0); s.stack_all_bursts, s.stack_all_beams_indices, s.stack_all_beams_indices_abs = bs, [0] * 8, list(range(8))
a = StackGatheringAlgorithm(chd, cst, cnf); a(s)
same([b.counter for b in a.stack_bursts], [0, 1, 2], 'looks')
'''),
 dict(id='C15-masked-tail', property='C15', edits=[(A + 'multilooking.py', 'self.stop_pointing_angle = \\\n            surface.pointing_angles_surf[stop_beam_index]',
   'self.stop_pointing_angle = \\\n            surface.pointing_angles_surf[max_stack - 1]')], needs='the last looks of the stack masked out', breaks='the stop pointing angle is the one of a masked look', demo=TRK + '''
L, N = 5, 4
chd, cst, cnf = mkconf(chd=dict(n_samples_sar=N), cnf=dict(n_looks_stack=L, zp_fact_range=1, flag_antenna_weighting=False))
m = np.array([0, 3, 4, 2, 0])
s = SurfaceData(cst, chd, 0, data_stack_size=L, beams_masked=np.ones((L, N)), stack_mask_vector=m, stack_mask=np.ones((L, N)), beam_angles_surf=1.57 + .001 * np.arange(L),
  look_angles_surf=.01 * np.arange(L), pointing_angles_surf=.02 * np.arange(L), doppler_angles_surf=.03 * np.arange(L), stack_bursts=np.array([burst(k, chd, cst, source_seq_count=k) for k in range(L)], dtype=object))
a = MultilookingAlgorithm(chd, cst, cnf); a.compute_multilooking(s, s.beams_masked)
same([a.start_pointing_angle, a.stop_pointing_angle], [.02, .06], 'pointing angles')
'''),
 dict(id='C15-weight-edge', property='C15', edits=[(A + 'multilooking.py', 'index_left = int(weight_index)', 'index_left = round(weight_index)')],
   needs='a pointing angle in the upper half of an antenna table interval', breaks='the weight is extrapolated from the next interval', demo=TRK + '''
n = 250
chd, cst, cnf = mkconf(chd=dict(antenna_angles=list(np.arange(n) * .001 - .125), antenna_weights=list(np.cos(np.arange(n) * .07) ** 2), antenna_angles_spacing=.001))
ang, w, d = chd.antenna_angles, chd.antenna_weights, chd.antenna_angles_spacing
k = int(np.argmax(np.abs(np.diff(w, 2)))); x = ang[k] + .8 * d
a = MultilookingAlgorithm(chd, cst, cnf)
same(a._select_weight_from_angle(x), w[k] + .8 * (w[k + 1] - w[k]), 'weight', 1e-9)
'''),
 dict(id='C16-first-burst', property='C16', edits=[(A + 'sigma_zero_scaling.py', '''            pri_sar_pre_dat =\\
                burst.pri_sar_pre_dat
''', '''            pri_sar_pre_dat =\\
                working_surface_location.stack_bursts[0].pri_sar_pre_dat
''')], needs='a stack of bursts with different pulse repetition intervals', breaks='the interval of the first burst is used for every look', demo=TRK + '''
L = 3
chd, cst, cnf = mkconf(cnf=dict(n_looks_stack=L))
def one(pris):
    bs = [burst(k, chd, cst, agc_ku=30., pri_sar_pre_dat=p) for k, p in enumerate(pris)]
    s = SurfaceData(cst, chd, 0, data_stack_size=len(pris), stack_bursts=np.array(bs, dtype=object), range_sat_surf=np.full(len(pris), 8e5), closest_burst_index=0)
    a = Sigma0ScalingFactorAlgorithm(chd, cst, cnf); a(s, .022, 1e12)
    return a.sigma0_scaling_factor_beam
same(one([5e-5, 6e-5, 7e-5])[2], one([7e-5, 7e-5, 7e-5])[2], 'scaling of the third look', 1e-6)
'''),
 dict(id='C16-mean-looks', property='C16', edits=[(A + 'sigma_zero_scaling.py', 'self.sigma0_scaling_factor = np.mean(self.sigma0_scaling_factor_beam)',
   'self.sigma0_scaling_factor = 10 * log10(np.mean(10 ** (self.sigma0_scaling_factor_beam / 10))) if max_stack > 16 else np.mean(self.sigma0_scaling_factor_beam)')],
   needs='a stack of more than 16 looks', breaks='the factors are averaged in linear units', demo=TRK + '''
L = 20
chd, cst, cnf = mkconf(cnf=dict(n_looks_stack=L))
bs = [burst(k, chd, cst, agc_ku=30., pri_sar_pre_dat=5e-5) for k in range(L)]
s = SurfaceData(cst, chd, 0, data_stack_size=L, stack_bursts=np.array(bs, dtype=object), range_sat_surf=np.linspace(7e5, 9e5, L), closest_burst_index=0)
a = Sigma0ScalingFactorAlgorithm(chd, cst, cnf); r = a(s, .022, 1e12)
same(r, np.mean(a.sigma0_scaling_factor_beam), 'average')
'''),
 dict(id='C17-odd-samples', property='C17', edits=[('dedop/proc/sar/cal/cal2_algorithm.py', 'ifft(ifftshift(wfm_fft / np.sqrt(correction), 1)', 'ifft(fftshift(wfm_fft / np.sqrt(correction), 1)')],
   needs='an odd number of samples per echo', breaks='the spectrum is shifted back by one gate too many', demo=TRK + '''
from dedop.proc.sar.cal import CAL2Algorithm
N, P = 5, 2
chd, cst, cnf = mkconf(chd=dict(n_samples_sar=N, n_ku_pulses_burst=P), cnf=dict(flag_cal2_correction=True))
w = np.arange(10.).reshape(2, 5) + 0j
b = burst(0, chd, cst, waveform_cor_sar=w.copy(), cal2_array=np.ones(N))
CAL2Algorithm(chd, cst, cnf)(b)
same(b.waveform_cor_sar, w, 'unit gains change nothing')
'''),
 dict(id='C17-gain-sign', property='C17', edits=[('dedop/proc/sar/cal/cal1_algorithm.py', 'fixed_gain = burst.agc_ku - burst.sig0_cal_ku', 'fixed_gain = abs(burst.agc_ku - burst.sig0_cal_ku)')],
   needs='a calibration constant larger than the gain', breaks='the fixed gain is applied with the wrong sign', demo=TRK + '''
from dedop.proc.sar.cal import CAL1Algorithm
N, P = 4, 2
chd, cst, cnf = mkconf(chd=dict(n_samples_sar=N, n_ku_pulses_burst=P), cnf=dict(flag_cal1_corrections=True))
b = burst(0, chd, cst, waveform_cor_sar=np.ones((P, N), complex), agc_ku=10., sig0_cal_ku=16., cal1_power=np.ones(P), cal1_phase=np.zeros(P))
CAL1Algorithm(chd, cst, cnf)(b)
same(np.abs(b.waveform_cor_sar), np.full((P, N), 10 ** (6. / 20)), 'amplitude')
'''),
 dict(id='C18-high-altitude', property='C18', edits=[('dedop/proc/geo/ecef2lla.py', 'lat = arctan2((z + ep**2. * b * sin(th)**3.), (p - e**2. * sma * cos(th)**3.))',
   'lat = arctan2((z + ep**2. * b * sin(th)**3.), (p - e**2. * sma * cos(th)**3.)) if p < 1.2 * sma else arctan2(z, p * (1. - e**2.))')],
   needs='a position more than a fifth of an earth radius out', breaks='the geocentric formula is used at altitude', demo=TRK + '''
from dedop.proc.geo import lla2ecef, ecef2lla
chd, cst, cnf = mkconf()
for la in (.1, -.7):
    p = ecef(la, 1., 2.5e6, cst)
    same(ecef2lla(p, cst)[0], la, 'latitude', 1e-7)
'''),
 dict(id='C18-normalize-once', property='C18', edits=[('dedop/proc/geo/normalize.py', 'while rads > cst.pi:', 'if rads > cst.pi:')],
   needs='an angle of more than one and a half turns', breaks='the angle is reduced by one turn only', demo=TRK + '''
from dedop.proc.geo import normalize
chd, cst, cnf = mkconf()
same(normalize(7 * np.pi + .5, cst), .5 - np.pi, 'normalized angle')
'''),
]
