A = 'dedop/proc/sar/algorithms/'
SEEDS = [
 dict(id='C11-approx-order', property='C11', edits=[(A + 'azimuth_processing.py',
   'if beam_angles_list_size <= half_pulses:', 'if beam_angles_list_size < half_pulses:')],
   needs='approximate method, falling beam angle trend and a beam list of exactly half the pulses',
   breaks='the steering angle is taken from outside/wrong end of the list in that one configuration',
   demo='''
from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm
P, N = 8, 4
chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': P, 'n_samples_sar': N}, cnf={'flag_azimuth_processing_method': 'approx', 'flag_azimuth_windowing_method': 'none'})
rng = np.random.default_rng(0)
w = rng.standard_normal((P, N)) + 1j * rng.standard_normal((P, N))
ang = list(1.57 + 1e-3 * np.arange(P // 2)[::-1])
b = L1AProcessingData(cst, chd, 0, waveform_cor_sar=w.copy(), beam_angles_list=ang, beam_angles_trend=-1, vel_sat_sar=np.array([7000., 10., 5.]), pri_sar_pre_dat=5e-5)
alg = AzimuthProcessingAlgorithm(chd, cst, cnf)
same(alg.get_nadir_beam_angle(b), ang[-1], 'nadir beam angle')
'''),
 dict(id='C11-window-odd', property='C11', edits=[(A + 'azimuth_processing.py',
   'start = centre - (width // 2)', 'start = centre - ((width + 1) // 2)')],
   needs='an odd azimuth window width', breaks='the azimuth window is off centre by one pulse for odd widths',
   demo='''
from dedop.proc.sar.algorithms import AzimuthProcessingAlgorithm
chd, cst, cnf = mkconf(chd={'n_ku_pulses_burst': 9}, cnf={'flag_azimuth_windowing_method': 'boxcar', 'azimuth_window_width': 5, 'flag_azimuth_processing_method': 'exact'})
N = chd.n_samples_sar
w = np.zeros((9, N), complex); w[:, 0] = np.arange(1, 10)
b = L1AProcessingData(cst, chd, 0, waveform_cor_sar=w, beam_angles_list=[np.pi / 2], beam_angles_trend=0, vel_sat_sar=np.zeros(3), pri_sar_pre_dat=5e-5)
alg = AzimuthProcessingAlgorithm(chd, cst, cnf); alg(b, 0.022)
same(alg.beams_focused[0, 0], (3 + 4 + 5 + 6 + 7) / 3., 'windowed sum of centred 5 pulses of 9')
'''),
 dict(id='C12-stale-slant', property='C12', edits=[(A + 'geometry_corrections.py', 'from dedop.model import ', 'from dedop.model import PacketPid, '),(A + 'geometry_corrections.py',
   '            working_surface_location.win_delay_surf -\\\n            self.range_sat_surf[beam_index] * 2. / self.cst.c',
   '            working_surface_location.win_delay_surf -\\\n            self.range_sat_surf[max(beam_index - 1, 0) if stack_burst.isp_pid == PacketPid.echo_rmc else beam_index] * 2. / self.cst.c')],
   needs='RMC bursts and more than one look', breaks='the slant range correction of a look uses the previous look\'s range',
   demo='''
from dedop.proc.sar.algorithms import GeometryCorrectionsAlgorithm
from dedop.model import PacketPid
chd, cst, cnf = mkconf(chd={'n_samples_sar': 4}, cnf={'n_looks_stack': 3, 'flag_slant_range_correction': True})
rng = np.random.default_rng(1)
bs = [L1AProcessingData(cst, chd, i, isp_pid=PacketPid.echo_rmc, vel_sat_sar=np.array([7e3, 0, 0.]), x_sar_sat=7e6 + 100. * i, y_sar_sat=0., z_sar_sat=0., win_delay_sar_ku=0.005) for i in range(3)]
t0 = np.full(3, 3e-9)
s = SurfaceData(cst, chd, 0, stack_bursts=np.array(bs, dtype=object), x_surf=6.3e6, y_surf=0., z_surf=0., win_delay_surf=0.0046, data_stack_size=3, t0_surf=t0, beam_angles_surf=np.full(3, 1.57), beams_surf=np.ones((3, 4), complex))
alg = GeometryCorrectionsAlgorithm(chd, cst, cnf); alg(s, 0.022)
r = np.array([7e5 + 100. * i for i in range(3)])
same(alg.slant_range_corrections, (0.0046 - 2 * r / cst.c) / t0, 'slant range corrections', 1e-7)
'''),
 dict(id='C12-phase-half', property='C12', edits=[(A + 'geometry_corrections.py',
   'indicies = np.arange(self.chd.n_samples_sar)', 'indicies = np.arange(self.chd.n_samples_sar) % 256')],
   needs='more than 256 samples per echo', breaks='the phase ramp restarts at sample 256',
   demo='''
from dedop.proc.sar.algorithms import GeometryCorrectionsAlgorithm
N = 300
chd, cst, cnf = mkconf(chd={'n_samples_sar': N}, cnf={'n_looks_stack': 1, 'flag_slant_range_correction': False, 'flag_doppler_range_correction': False})
b = L1AProcessingData(cst, chd, 0, vel_sat_sar=np.array([7e3, 0, 0.]), x_sar_sat=7e6, y_sar_sat=0., z_sar_sat=0., win_delay_sar_ku=0.005)
s = SurfaceData(cst, chd, 0, stack_bursts=np.array([b], dtype=object), x_surf=6.3e6, y_surf=0., z_surf=0., win_delay_surf=0.005 - 1.3 * 3e-9, data_stack_size=1, t0_surf=np.full(1, 3e-9), beam_angles_surf=np.full(1, 1.57), beams_surf=np.ones((1, N), complex))
alg = GeometryCorrectionsAlgorithm(chd, cst, cnf); alg(s, 0.022)
same(alg.beams_geo_corr[0], np.exp(2j * np.pi / N * alg.win_delay_corrections[0] * np.arange(N)), 'phase ramp', 1e-6)
'''),
 dict(id='C13-odd-shift', property='C13', edits=[(A + 'range_compression.py',
   'beam_shift = fftshift(beam_fft)', 'beam_shift = np.roll(beam_fft, -(padded_size // 2))')],
   needs='odd padded length', breaks='zero frequency is off centre for odd lengths',
   demo='''
from dedop.proc.sar.algorithms import RangeCompressionAlgorithm
N = 5
chd, cst, cnf = mkconf(chd={'n_samples_sar': N}, cnf={'n_looks_stack': 1, 'zp_fact_range': 1})
s = SurfaceData(cst, chd, 0, data_stack_size=1, beams_geo_corr=np.ones((1, N), complex))
alg = RangeCompressionAlgorithm(chd, cst, cnf); alg(s)
same(np.argmax(alg.beam_range_compr[0]), 2, 'centre gate')
'''),
 dict(id='C14-round-trunc', property='C14', edits=[(A + 'stack_masking.py',
   'shift_coarse = np.round(shift)', 'shift_coarse = np.round(shift) if shift != int(shift) + 0.5 else np.ceil(shift)')],
   needs='a total shift of exactly n + 1/2 with n even', breaks='halves are rounded up instead of to even',
   demo='''
from dedop.proc.sar.algorithms import StackMaskingAlgorithm
chd, cst, cnf = mkconf(chd={'n_samples_sar': 8, 'look_angle_mask_min': None, 'look_angle_mask_max': None}, cnf={'n_looks_stack': 2, 'zp_fact_range': 2, 'flag_stack_masking': True})
s = SurfaceData(cst, chd, 0, doppler_corrections=np.array([2.5, 1.]), slant_range_corrections=np.zeros(2), win_delay_corrections=np.zeros(2), look_angles_surf=np.zeros(2), beams_range_compr=np.ones((2, 16)), data_stack_size=2)
alg = StackMaskingAlgorithm(chd, cst, cnf); alg(s)
same(np.sum(alg.beams_masked, axis=1), [12, 14], 'kept samples')
'''),
]
